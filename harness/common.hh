// Shared pieces of the harnesses: symbolic inputs, and a small independent reference for integer polynomials
// (a map from exponent vectors to GMP integers) against which results of the library are compared.
#pragma once
#include "sx.h"
#include <clpoly/clpoly.hh>
#include <gmpxx.h>
#include <map>
#include <string>
#include <cstdlib>
#include <vector>
using namespace clpoly;
// the thorough tier widens the input space of many harnesses
static const bool DEEP = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
static inline long wd(long quick, long deep) { return DEEP ? deep : quick; }
typedef mpz_class Z;
static inline std::string nm(const char *p, int i) { return std::string(p) + std::to_string(i); }
static inline std::string nm(const std::string &p, int i) { return p + std::to_string(i); }
// value of a ZZ as a GMP integer, read from its representation
static inline Z toZ(const ZZ &a) { Z r; if (a.is_small()) mpz_set_si(r.get_mpz_t(), a.get_val()); else mpz_set(r.get_mpz_t(), a.get_mpz_v()); return r; }
static inline ZZ szz(const std::string &n, long lo, long hi) { return ZZ((long)sx_int(n.c_str(), lo, hi)); }
static inline Z sz(const std::string &n, const char *lo, const char *hi) { Z r; sx_mpz(r.get_mpz_t(), n.c_str(), lo, hi); return r; }
static inline ZZ fromZ(const Z &z) { return ZZ((mpz_srcptr)z.get_mpz_t()); }
static inline void eqz(const Z &a, const Z &b, const char *m) { sx_check_eqz(a.get_mpz_t(), b.get_mpz_t(), m); }
static inline void eqz(const ZZ &a, const Z &b, const char *m) { eqz(toZ(a), b, m); }
// representation invariant of ZZ: stored inline exactly when the value fits into int64_t
static inline void canonZ(const ZZ &a, const char *m) { if (!a.is_small()) { Z v = toZ(a); sx_check(!mpz_fits_slong_p(v.get_mpz_t()), m); } }
static inline void nonzero(const ZZ &a, const char *m) { if (a.is_small()) sx_check(a.get_val() != 0, m); else sx_check(mpz_sgn(a.get_mpz_v()) != 0, m); }
static inline void nonzero(const QQ &a, const char *m) { nonzero(a.num(), m); }
static inline void nonzero(const Zp &a, const char *m) { sx_check(a.number() != 0, m); }
static inline bool isz(const Z &a) { Z o = 0; return sx_eqz(a.get_mpz_t(), o.get_mpz_t()); }

typedef std::vector<int64_t> Ex;
struct RP { // reference polynomial over the variables VS
  std::map<Ex, Z> c;
};
static std::vector<variable> VS;
static inline void vars(std::initializer_list<const char *> l) { VS.clear(); for (auto s : l) VS.push_back(variable(s)); }
static inline RP rconst(const Z &v) { RP r; r.c[Ex(VS.size(), 0)] = v; return r; }
static inline RP rvar(int i) { RP r; Ex e(VS.size(), 0); e[i] = 1; r.c[e] = 1; return r; }
static inline RP radd(const RP &a, const RP &b, int s = 1) { RP r = a; for (auto &x : b.c) { if (s > 0) r.c[x.first] += x.second; else r.c[x.first] -= x.second; } return r; }
static inline RP rmul(const RP &a, const RP &b) { RP r; for (auto &x : a.c) for (auto &y : b.c) { Ex e = x.first; for (size_t i = 0; i < e.size(); ++i) e[i] += y.first[i]; Z p = x.second * y.second; r.c[e] += p; } return r; }
static inline RP rpow(const RP &a, int n) { RP r = rconst(1); for (int i = 0; i < n; ++i) r = rmul(r, a); return r; }
static inline RP rscale(const RP &a, const Z &k) { RP r; for (auto &x : a.c) { Z v = x.second * k; r.c[x.first] = v; } return r; }
static inline RP rderiv(const RP &a, int i) { RP r; for (auto &x : a.c) if (x.first[i] > 0) { Ex e = x.first; Z v = x.second * (long)e[i]; e[i]--; r.c[e] += v; } return r; }
// substitute variable i by the value v
static inline RP rsubst(const RP &a, int i, const Z &v) { RP r; for (auto &x : a.c) { Ex e = x.first; Z t = x.second; for (int64_t k = 0; k < e[i]; ++k) t = t * v; e[i] = 0; r.c[e] += t; } return r; }
template <class M> static Ex exOf(const M &m) {
  Ex e(VS.size(), 0);
  for (auto &x : m) { size_t k = 0; for (; k < VS.size(); ++k) if (VS[k].serial() == x.first.serial()) break; if (k == VS.size()) sx_check(false, "result contains a foreign variable"); else e[k] += x.second; }
  return e;
}
static inline Ex exOf(const umonomial &m) { Ex e(VS.size(), 0); e[0] = m.deg(); return e; }
static inline Z cofZ(const ZZ &a) { return toZ(a); }
static inline Z cofZ(const Zp &a) { Z r; mpz_set_ui(r.get_mpz_t(), a.number()); return r; }
template <class P> static RP toR(const P &p) { RP r; for (auto &t : p) r.c[exOf(t.first)] += cofZ(t.second); return r; }
static inline void eqr(const RP &a, const RP &b, const char *m) {
  for (auto &x : a.c) { auto it = b.c.find(x.first); eqz(x.second, it == b.c.end() ? Z(0) : it->second, m); }
  for (auto &x : b.c) if (!a.c.count(x.first)) eqz(x.second, Z(0), m);
}
static inline void eqrmod(const RP &a, const RP &b, const Z &p, const char *m) {
  RP d = radd(a, b, -1); for (auto &x : d.c) { Z r; mpz_fdiv_r(r.get_mpz_t(), x.second.get_mpz_t(), p.get_mpz_t()); eqz(r, Z(0), m); }
}
// canonical form: strictly decreasing terms, no zero coefficient, monomials sorted with positive exponents and the
// right cached degree
template <class Mo, class C, class O> static void canonP(const basic_polynomial<Mo, C, O> &p, const char *m) {
  const std::pair<Mo, C> *prev = nullptr; O cmp = p.comp();
  for (auto &t : p) { nonzero(t.second, m); if (prev) sx_check(cmp(prev->first, t.first), m); prev = &t; }
}
template <class C, class O> static void canonP(const basic_polynomial<basic_monomial<O>, C, O> &p, const char *m) {
  const std::pair<basic_monomial<O>, C> *prev = nullptr; O cmp = p.comp();
  for (auto &t : p) {
    nonzero(t.second, m); if (prev) sx_check(cmp(prev->first, t.first), m); prev = &t;
    int64_t d = 0; const std::pair<variable, int64_t> *pv = nullptr;
    for (auto &x : t.first) { sx_check(x.second > 0, m); d += x.second; if (pv) sx_check(cmp(pv->first, x.first), m); pv = &x; }
    sx_check(t.first.deg() == d, m);
  }
}
template <class M> static M monoOf(const Ex &e) { if constexpr (std::is_same_v<M, umonomial>) return umonomial(e[0]); else { M mo; for (size_t k = 0; k < VS.size(); ++k) if (e[k]) mo.push_back({VS[k], e[k]}); mo.normalization(); return mo; } }
// polynomial with given exponents and symbolic coefficients in [lo,hi]
template <class P> static P gen(const char *name, const std::vector<Ex> &es, long lo, long hi, RP *r = nullptr) {
  P p; RP q;
  for (size_t i = 0; i < es.size(); ++i) {
    ZZ c = szz(nm(name, (int)i), lo, hi); q.c[es[i]] += toZ(c);
    p.push_back({monoOf<typename P::first_type>(es[i]), c});
  }
  p.normalization(); if (r) *r = q; return p;
}
static inline ZZ sbig(const std::string &n, const char *lo, const char *hi) { return fromZ(sz(n, lo, hi)); }
#define BIGLO "-1000000000000000000000000000000000000000"
#define BIGHI "1000000000000000000000000000000000000000"
static const int64_t I64MIN = INT64_MIN, I64MAX = INT64_MAX;
