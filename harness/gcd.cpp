// gcd, content, square-free decomposition over the integers.  The evaluation points of the modular algorithm are
// chosen by the solver: the generator is replaced by one which returns small solver-chosen numbers first.
#include <random>
#include "sx.h"
#include <string>
namespace std { struct sx_mt64 { typedef uint64_t result_type; static int n; template <class S> explicit sx_mt64(S) {} sx_mt64() {} static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; }
  result_type operator()() { int k = n++; return k < 2 ? (uint64_t)sx_choice(("pt" + std::to_string(k)).c_str(), 3) : k + 3; } }; int sx_mt64::n = 0; }
#define mt19937_64 sx_mt64
#include "common.hh"
#undef mt19937_64
#include "alg.hh"
typedef upolynomial_<ZZ> U;
typedef polynomial_<ZZ, lex> PL;
typedef polynomial_<ZZ, grlex> PG;
// no common factor of positive degree
template <class P> static RP quo(const P &f, const P &g, const RP &rf, const char *m) { P q = f / g; RP r = toR(q); eqr(rmul(r, toR(g)), rf, m); return r; }
template <class P> static void gcdck(const P &f, const RP &rf, const P &g, const RP &rg, const RP *h = nullptr) {
  P d = polynomial_GCD(f, g); canonP(d, "gcd is canonical"); RP rd = toR(d);
  if (f.empty() && g.empty()) { sx_check(d.empty(), "gcd(0,0)"); return; }
  sx_check(!d.empty(), "gcd is not zero"); if (d.empty()) return;
  RP u = clean(quo(f, d, rf, "gcd divides the first argument")), v = clean(quo(g, d, rg, "gcd divides the second argument"));
  if (f.empty() || g.empty()) { const RP &o = f.empty() ? v : u; Z c; for (auto &x : o.c) { sx_check(x.first == Ex(VS.size(), 0), "gcd(F,0) = +-F"); c = x.second; } Z a = abs(c); eqz(a, Z(1), "gcd(F,0) = +-F"); sx_reach("zero"); return; }
  coprime(u, v, "cofactors are coprime"); Z k; Z x = icont(u), y = icont(v); mpz_gcd(k.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); eqz(k, Z(1), "integer contents of the cofactors are coprime");
  P e = polynomial_GCD(g, f); RP re = toR(e); RP s = radd(rd, re), t = radd(rd, re, -1); sx_check(rzero(s) || rzero(t), "gcd is symmetric up to sign");
  bool cst = true; for (auto &x : rd.c) if (x.first != Ex(VS.size(), 0)) cst = false; if (cst) sx_reach("coprime"); else sx_reach("common factor");
}
SX_HARNESS(g_uni) { vars({"x"}); RP a, b; U f = gen<U>("a", {{2}, {1}, {0}}, -2, 2, &a), g = gen<U>("b", {{1}, {0}}, -2, 2, &b); gcdck(f, a, g, b); }
SX_HARNESS(g_uni3) { vars({"x"}); RP a, b; U f = gen<U>("a", {{3}, {2}, {1}, {0}}, -1, 1, &a), g = gen<U>("b", {{2}, {1}, {0}}, -1, 1, &b); gcdck(f, a, g, b); }
template <class P> static void planted(const RP &h, const RP &u, const RP &v) { RP a = rmul(h, u), b = rmul(h, v); P f = fromR<P>(a), g = fromR<P>(b); gcdck(f, a, g, b); }
SX_HARNESS(g_uni_planted) { vars({"x"}); planted<U>(rgen("h", {{1}, {0}}, -2, 2), rgen("u", {{1}, {0}}, -1, 1), rgen("v", {{2}, {0}}, -1, 1)); }
SX_HARNESS(g_uni_cont) { vars({"x"}); RP k, l; k.c[{0}] = toZ(szz("k", -6, 6)); l.c[{0}] = toZ(szz("l", -6, 6)); RP u = rgen("u", {{1}, {0}}, -1, 1), v = rgen("v", {{1}, {0}}, -1, 1); u = rmul(u, k); v = rmul(v, l); U f = fromR<U>(u), g = fromR<U>(v); gcdck(f, u, g, v); }
// coefficients too long for the heuristic: modular algorithm with Chinese remaindering
SX_HARNESS(g_uni_big) { vars({"x"}); static const char *K[] = {"18446744073709551557", "1180591620717411303424", "340282366920938463463374607431768211507"}; Z b(K[sx_choice("k", 3)]); RP h; h.c[{1}] = b; h.c[{0}] = toZ(szz("h0", -2, 2)) - b * 2; RP u, v; u.c[{1}] = 2; u.c[{0}] = b - 1 + toZ(szz("u0", -2, 2)); v.c[{1}] = b; v.c[{0}] = 1; planted<U>(h, u, v); }
// leading coefficient vanishing modulo the first prime
SX_HARNESS(g_uni_unlucky) { vars({"x"}); Z p("18446744073709551557"), q = p * (p - 0); RP h, u, v; h.c[{1}] = toZ(szz("h1", 1, 2)); h.c[{0}] = toZ(szz("h0", -1, 1)); u.c[{1}] = sx_choice("m", 2) ? p : q; u.c[{0}] = toZ(szz("u0", -1, 1)); v.c[{1}] = 1; v.c[{0}] = sx_choice("w", 2) ? p : Z(u.c[{0}] + p * 3); planted<U>(h, u, v); }
// both lie over the same residue modulo the first prime: the modular gcd has too high degree there
SX_HARNESS(g_uni_unlucky2) { vars({"x"}); Z p("18446744073709551557"); RP u, v; Z c = toZ(szz("c", -2, 2)); u.c[{1}] = 1; u.c[{0}] = c; v.c[{1}] = 1; v.c[{0}] = c + p * toZ(szz("k", -1, 1)); RP h; h.c[{1}] = p + 2; h.c[{0}] = toZ(szz("h0", -1, 1)); planted<U>(h, u, v); }
template <class P> static void special() { // monomials, constants, zero
  int s = sx_choice("s", 3); RP a, b; P f = s == 0 ? gen<P>("a", {{2, 1}}, -3, 3, &a) : s == 1 ? gen<P>("a", {{0, 0}}, -3, 3, &a) : gen<P>("a", {{1, 2}, {1, 0}}, -2, 2, &a); int t = sx_choice("t", 3); P g = t == 0 ? gen<P>("b", {{1, 2}}, -3, 3, &b) : t == 1 ? gen<P>("b", {{0, 0}}, -3, 3, &b) : gen<P>("b", {{2, 1}, {0, 1}}, -2, 2, &b); gcdck(f, a, g, b);
}
SX_HARNESS(g_special) { vars({"x", "y"}); special<PL>(); }
SX_HARNESS(g_special_grlex) { vars({"x", "y"}); special<PG>(); }
SX_HARNESS(g_special_u) { vars({"x"}); int s = sx_choice("s", 3); RP a, b; U f = s == 0 ? gen<U>("a", {{2}}, -3, 3, &a) : s == 1 ? gen<U>("a", {{0}}, -3, 3, &a) : gen<U>("a", {{2}, {1}}, -3, 3, &a); int t = sx_choice("t", 3); U g = t == 0 ? gen<U>("b", {{1}}, -3, 3, &b) : t == 1 ? gen<U>("b", {{0}}, -3, 3, &b) : gen<U>("b", {{3}, {1}, {0}}, -1, 1, &b); gcdck(f, a, g, b); }
SX_HARNESS(g_lex) { vars({"x", "y"}); RP a, b; PL f = gen<PL>("a", {{1, 0}, {0, 1}, {0, 0}}, -1, 1, &a), g = gen<PL>("b", {{1, 1}, {1, 0}, {0, 0}}, -1, 1, &b); gcdck(f, a, g, b); }
SX_HARNESS(g_lex_planted) { vars({"x", "y"}); planted<PL>(rgen("h", {{1, 0}, {0, 1}, {0, 0}}, -1, 1), rgen("u", {{1, 0}, {0, 1}}, -1, 1), rgen("v", {{1, 1}, {0, 0}}, -1, 1)); }
SX_HARNESS(g_lex_planted2) { vars({"x", "y"}); planted<PL>(rgen("h", {{1, 1}, {0, 0}}, -2, 2), rgen("u", {{1, 0}, {0, 1}}, -1, 1), rgen("v", {{1, 0}, {0, 2}}, -1, 1)); }
SX_HARNESS(g_grlex_planted) { vars({"x", "y"}); planted<PG>(rgen("h", {{1, 0}, {0, 1}, {0, 0}}, -1, 1), rgen("u", {{1, 0}, {0, 0}}, -1, 1), rgen("v", {{0, 1}, {0, 0}}, -1, 1)); }
SX_HARNESS(g_3var) { vars({"x", "y", "z"}); planted<PL>(rgen("h", {{1, 0, 0}, {0, 0, 1}}, -1, 1), rgen("u", {{0, 1, 0}, {0, 0, 1}}, -1, 1), rgen("v", {{0, 1, 1}, {0, 0, 0}}, -1, 1)); }
SX_HARNESS(g_disjoint) { vars({"x", "y", "z"}); RP h = rgen("h", {{0, 1, 0}, {0, 0, 0}}, -2, 2), u = rgen("u", {{1, 0, 0}, {0, 1, 0}}, -1, 1), v = rgen("v", {{0, 0, 1}, {0, 0, 0}}, -1, 1); planted<PL>(h, u, v); }
SX_HARNESS(g_cont2) { vars({"x", "y"}); RP c = rgen("c", {{0, 1}, {0, 0}}, -2, 2), u = rgen("u", {{1, 0}, {0, 0}}, -2, 2), v = rgen("v", {{2, 0}, {0, 1}}, -1, 1); planted<PL>(c, u, v); }
// extended gcd: the identity
template <class P> static void ext(const P &f, const RP &a, const P &g, const RP &b) { if (f.empty() || g.empty()) return; P s = P(f), t = P(f); P c = polynomial_GCD(f, g, s, t); canonP(c, "extended gcd is canonical"); canonP(s, "cofactor is canonical"); canonP(t, "cofactor is canonical"); eqr(radd(rmul(toR(s), a), rmul(toR(t), b)), toR(c), "s*F + t*G = gcd"); sx_check(!c.empty(), "extended gcd is not zero"); P d = polynomial_GCD(f, g); (void)d; sx_reach("extended"); }
SX_HARNESS(x_uni) { vars({"x"}); RP a, b; U f = gen<U>("a", {{2}, {1}, {0}}, -2, 2, &a), g = gen<U>("b", {{1}, {0}}, -2, 2, &b); ext(f, a, g, b); }
SX_HARNESS(x_lex) { vars({"x", "y"}); RP a, b; PL f = gen<PL>("a", {{1, 0}, {0, 1}, {0, 0}}, -1, 1, &a), g = gen<PL>("b", {{1, 1}, {0, 0}}, -2, 2, &b); ext(f, a, g, b); }
SX_HARNESS(x_const) { vars({"x"}); RP a, b; PL f = gen<PL>("a", {{0}}, -6, 6, &a), g = gen<PL>("b", {{0}}, -6, 6, &b); ext(f, a, g, b); }

// ================= content, primitive part, square-free decomposition =================
template <class P> static void contpp(const P &f, const RP &a) {
  if (f.empty()) return; P c = cont(f), p = pp(f); canonP(c, "content is canonical"); canonP(p, "primitive part is canonical"); eqr(rmul(toR(c), toR(p)), a, "f = cont * pp"); for (auto &x : toR(c).c) sx_check(x.first[0] == 0, "content is free of the main variable");
  if (is_number(p)) { sx_reach("constant"); return; } P c2 = cont(p); RP rc = toR(c2); sx_check(c2.size() == 1 && rc.c.begin()->first == Ex(VS.size(), 0), "pp is primitive"); Z o = abs(rc.c.begin()->second); eqz(o, Z(1), "pp is primitive"); sx_reach("content");
}
SX_HARNESS(cont_lex) { vars({"x", "y"}); RP a; PL f = gen<PL>("a", {{2, 1}, {1, 1}, {1, 0}, {0, 1}, {0, 0}}, -2, 2, &a); sx_assume(!f.empty() && degree(f, VS[0]) > 0); contpp(f, a); }
SX_HARNESS(cont_planted) { vars({"x", "y"}); RP a = rmul(rgen("c", {{0, 1}, {0, 0}}, -2, 2), rgen("u", {{1, 0}, {0, 1}, {0, 0}}, -2, 2)); PL f = fromR<PL>(a); sx_assume(!f.empty() && degree(f, VS[0]) > 0); contpp(f, a); }
SX_HARNESS(cont_u) { vars({"x"}); RP a; U f = gen<U>("a", {{3}, {1}, {0}}, -12, 12, &a); sx_assume(!f.empty()); ZZ c = cont(f); Z g = icont(a), ac = abs(toZ(c)); eqz(ac, g, "univariate content"); sx_reach("content"); }
template <class P> static void sqf(const P &f, const RP &a) {
  auto l = squarefreefactorize(f); if (f.empty()) { sx_check(l.empty(), "square-free factorisation of zero"); return; }
  RP prod = rconst(1); for (auto &x : l) { canonP(x.first, "square-free factor is canonical"); prod = rmul(prod, rpow(toR(x.first), (int)x.second)); } eqr(prod, a, "product of the square-free factors");
  std::vector<RP> fs; for (auto &x : l) { RP r = clean(toR(x.first)); sx_check(!r.c.empty(), "factor is not zero"); fs.push_back(r); sx_check(x.second >= 1, "multiplicity is positive"); }
  bool rep = false; for (size_t i = 0; i < fs.size(); ++i) { bool cst = true; for (size_t v = 0; v < VS.size(); ++v) { int64_t d = rdeg(fs[i], v); if (d > 0) { cst = false; if (d > 1) sx_check(!rzero(rres(fs[i], clean(rderiv(fs[i], v)), v)), "factor is square-free"); } } if (!cst && l[i].second > 1) rep = true; for (size_t j = i + 1; j < fs.size(); ++j) coprime(fs[i], fs[j], "square-free factors are coprime"); }
  sx_check(is_squarefree(f) == !rep, "is_squarefree agrees"); if (rep) sx_reach("repeated factor"); else sx_reach("square-free");
}
SX_HARNESS(sqf_uni) { vars({"x"}); RP a; PL f = gen<PL>("a", {{3}, {2}, {1}, {0}}, -2, 2, &a); sqf(f, a); }
SX_HARNESS(sqf_planted) { vars({"x"}); RP u = rgen("u", {{1}, {0}}, -2, 2), v = rgen("v", {{1}, {0}}, -1, 1); RP a = rmul(rmul(u, u), v); PL f = fromR<PL>(a); sqf(f, a); }
SX_HARNESS(sqf_cube) { vars({"x"}); RP u = rgen("u", {{1}, {0}}, -1, 1), v = rgen("v", {{1}, {0}}, -1, 1); RP a = rmul(rpow(u, 3), rpow(v, 1 + sx_choice("n", 2))); PL f = fromR<PL>(a); sqf(f, a); }
SX_HARNESS(sqf_lex) { vars({"x", "y"}); RP u = rgen("u", {{1, 0}, {0, 1}, {0, 0}}, -1, 1), v = rgen("v", {{0, 1}, {0, 0}}, -1, 1); RP a = rmul(rpow(u, 1 + sx_choice("n", 2)), rmul(v, sx_choice("m", 2) ? v : rconst(-2))); PL f = fromR<PL>(a); sqf(f, a); }
SX_HARNESS(sqf_grlex) { vars({"x", "y"}); RP u = rgen("u", {{1, 0}, {0, 1}}, -1, 1), v = rgen("v", {{1, 0}, {0, 0}}, -1, 1); RP a = rmul(rpow(u, 2), v); PG f = fromR<PG>(a); sqf(f, a); }
// square-free basis of several polynomials
template <class P> static void basis(const std::vector<RP> &in) {
  std::vector<P> F; std::vector<RP> IN; for (auto &r : in) { P p = fromR<P>(r); if (p.empty()) return; F.push_back(p); IN.push_back(clean(r)); }
  auto bs = squarefreebasis(F); auto &B = bs.first; auto &I = bs.second; sx_check(B.size() == I.size(), "one index list per basis element"); if (B.size() != I.size()) return; std::vector<RP> R;
  for (auto &b : B) { canonP(b, "basis element is canonical"); RP r = clean(toR(b)); R.push_back(r); bool cst = true; for (size_t v = 0; v < VS.size(); ++v) { int64_t d = rdeg(r, v); if (d > 0) cst = false; if (d > 1) sx_check(!rzero(rres(r, clean(rderiv(r, v)), v)), "basis element is square-free"); } sx_check(!cst, "basis element is not constant"); }
  for (size_t i = 0; i < R.size(); ++i) for (size_t j = i + 1; j < R.size(); ++j) coprime(R[i], R[j], "basis elements are coprime");
  for (size_t k = 0; k < IN.size(); ++k) { RP p = rconst(1); for (size_t i = 0; i < R.size(); ++i) for (auto &x : I[i]) { sx_check(x.first < IN.size(), "index of an input"); if (x.first == k) p = rmul(p, rpow(R[i], (int)x.second)); }
    // proportional: p*lead(IN) = IN*lead(p) at every monomial
    p = clean(p); sx_check(!p.c.empty(), "product is not zero"); if (p.c.empty()) return; auto lead = *p.c.rbegin(); auto it = IN[k].c.find(lead.first); sx_check(it != IN[k].c.end(), "input is a constant times its basis product"); if (it == IN[k].c.end()) return; eqr(rscale(p, it->second), rscale(IN[k], lead.second), "input is a constant times its basis product"); }
  sx_reach("basis");
}
SX_HARNESS(basis_uni) { vars({"x"}); RP u = rgen("u", {{1}, {0}}, -1, 1), v = rgen("v", {{1}, {0}}, -1, 1), w = rgen("w", {{1}, {0}}, -1, 1); int n = 1 + sx_choice("n", 2); basis<PL>({rmul(rpow(u, n), v), rmul(u, w)}); }
SX_HARNESS(basis_lex) { vars({"x", "y"}); RP u = rgen("u", {{1, 0}, {0, 1}}, -1, 1), v = rgen("v", {{0, 1}, {0, 0}}, -1, 1), w = rgen("w", {{1, 0}, {0, 0}}, -1, 1); basis<PL>({rmul(u, v), rmul(v, w), u}); }
SX_HARNESS(basis_three) { vars({"x"}); RP u = rgen("u", {{1}, {0}}, -1, 1), v = rgen("v", {{1}, {0}}, -1, 1); basis<PL>({rmul(u, v), rmul(rmul(v, v), rconst(3)), rmul(rpow(u, 2), v)}); }
SX_HARNESS(basis_grlex) { vars({"x", "y"}); RP u = rgen("u", {{1, 0}, {0, 1}}, -1, 1), v = rgen("v", {{1, 0}, {0, 0}}, -1, 1); basis<PG>({rmul(u, v), rmul(u, u)}); }
