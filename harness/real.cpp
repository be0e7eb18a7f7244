// Real root isolation and comparison of real algebraic numbers.  The reference decides everything with Sturm and
// Tarski sequences over the integers (never with isolating intervals).
#include <random>
#include "sx.h"
#include <string>
namespace std { struct sx_mt64 { typedef uint64_t result_type; static int n; template <class S> explicit sx_mt64(S) {} sx_mt64() {} static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; }
  result_type operator()() { int k = n++; return k < 1 ? (uint64_t)sx_choice(("pt" + std::to_string(k)).c_str(), 2) : k + 3; } }; int sx_mt64::n = 0; }
#define mt19937_64 sx_mt64
#include "common.hh"
#undef mt19937_64
#include "alg.hh"
#include <clpoly/realroot.hh>
typedef std::vector<Z> DP; // dense polynomial, index = degree
struct Q { Z n, d; };      // d > 0
static Q toQ(const QQ &q) { Q r{toZ(q.num()), toZ(q.den())}; return r; }
static int qc(const Q &a, const Q &b) { Z x = a.n * b.d, y = b.n * a.d; x -= y; return sgn(x); }
static void trim(DP &p) { while (!p.empty() && sgn(p.back()) == 0) p.pop_back(); }
static DP dd(const DP &p) { DP r; for (size_t i = 1; i < p.size(); ++i) r.push_back(p[i] * (long)i); trim(r); return r; }
static DP dmul(const DP &a, const DP &b) { DP r(a.empty() || b.empty() ? 0 : a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; trim(r); return r; }
// -(a mod b) up to a positive factor
static DP nrem(DP a, const DP &b) { trim(a); while (a.size() >= b.size()) { Z l = b.back(), c = a.back(); size_t s = a.size() - b.size(); int sl = sgn(l); Z al = abs(l); for (auto &x : a) x *= al; for (size_t i = 0; i < b.size(); ++i) { Z t = b[i] * c; if (sl > 0) a[i + s] -= t; else a[i + s] += t; } a.pop_back(); trim(a); } for (auto &x : a) x = -x; Z g = 0; for (auto &x : a) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.get_mpz_t()); if (g > 1) for (auto &x : a) mpz_divexact(x.get_mpz_t(), x.get_mpz_t(), g.get_mpz_t()); return a; }
static int sev(const DP &p, const Q &q) { Z v = 0, dp = 1; for (size_t k = p.size(); k-- > 0;) { v = v * q.n + p[k] * dp; dp *= q.d; } return sgn(v); }
typedef std::vector<DP> Seq;
static Seq tarski(const DP &p, const DP &w) { Seq s; s.push_back(p); DP t = dmul(dd(p), w); if (t.size() >= p.size()) { DP r = nrem(t, p); for (auto &x : r) x = -x; t = r; } while (!t.empty()) { s.push_back(t); DP r = nrem(s[s.size() - 2], t); t = r; } return s; }
static int var(const std::vector<int> &v) { int c = 0, l = 0; for (int x : v) if (x) { if (l && l != x) ++c; l = x; } return c; }
static int varAt(const Seq &s, const Q &q) { std::vector<int> v; for (auto &p : s) v.push_back(sev(p, q)); return var(v); }
static int varInf(const Seq &s, int e) { std::vector<int> v; for (auto &p : s) { int x = sgn(p.back()); if (e < 0 && p.size() % 2 == 0) x = -x; v.push_back(x); } return var(v); }
static const DP ONE{Z(1)};
static int rootsAll(const DP &p) { if (p.size() < 2) return 0; Seq s = tarski(p, ONE); return varInf(s, -1) - varInf(s, 1); }
// distinct roots in the closed interval
static int rootsIn(const DP &p, const Q &l, const Q &r) { if (p.size() < 2) return 0; int e = sev(p, l) == 0; if (qc(l, r) == 0) return e; DP q = p; if (e || sev(p, r) == 0) { /* divide the end roots out */ auto div = [&](const Q &z) { while (q.size() > 1 && sev(q, z) == 0) { DP o(q.size() - 1); Z c = 0; DP t = q; Z sc = 1; for (size_t i = 1; i < q.size(); ++i) sc *= z.d; for (auto &x : t) x *= sc; /* t / (d x - n) */ for (size_t i = t.size(); i-- > 1;) { Z k; mpz_divexact(k.get_mpz_t(), t[i].get_mpz_t(), z.d.get_mpz_t()); o[i - 1] = k; t[i - 1] += k * z.n; } q = o; } }; int f = sev(p, r) == 0; div(l); div(r); if (q.size() < 2) return e + f; Seq s = tarski(q, ONE); return e + f + varAt(s, l) - varAt(s, r); } Seq s = tarski(p, ONE); return varAt(s, l) - varAt(s, r); }
// sign of w at the only root of p in [l,r]
static int signAt(const DP &p, const Q &l, const Q &r, const DP &w) { if (qc(l, r) == 0) return sev(w, l); if (w.empty()) return 0; Seq s = tarski(p, w); return varAt(s, l) - varAt(s, r); }
static DP lin(const Q &q) { return DP{-q.n, q.d}; } // d x - n
struct A { DP p; Q l, r; }; // the only root of p in [l,r]; p does not vanish at l, r unless l = r
static int cmpAQ(const A &a, const Q &q) { if (qc(a.l, a.r) == 0) return qc(a.l, q); if (qc(q, a.l) <= 0) return 1; if (qc(q, a.r) >= 0) return -1; int s = sev(a.p, q); if (s == 0) return 0; return s == sev(a.p, a.l) ? 1 : -1; }
static int cmpA(const A &a, const A &b) { if (qc(b.l, b.r) == 0) return cmpAQ(a, b.l); if (cmpAQ(a, b.l) <= 0) return -1; if (cmpAQ(a, b.r) >= 0) return 1; int s = signAt(a.p, a.l, a.r, b.p); if (s == 0) return 0; return s == sev(b.p, b.l) ? -1 : 1; }
static upolynomial_<ZZ> toU(const DP &p) { upolynomial_<ZZ> u; for (size_t k = p.size(); k-- > 0;) u.push_back({umonomial(k), fromZ(p[k])}); u.normalization(); return u; }
static DP toD(const upolynomial_<ZZ> &u) { DP r; for (auto &t : u) { size_t d = t.first.deg(); if (r.size() <= d) r.resize(d + 1); r[d] += toZ(t.second); } trim(r); return r; }
static QQ qq(const Q &q) { return QQ(fromZ(q.n), fromZ(q.d)); }
static DP gp(const char *n, int d, long lo, long hi) { DP p; for (int i = 0; i <= d; ++i) p.push_back(toZ(szz(nm(n, i), lo, hi))); trim(p); return p; }
static bool sqfree(const DP &p) { if (p.size() < 3) return true; Seq s = tarski(p, ONE); return s.back().size() == 1; }
// ---- isolation of one polynomial
static void isolate(const DP &p) {
  if (p.empty()) { sx_check(uspensky(toU(p)).empty(), "no roots reported for zero"); return; } if (!sqfree(p)) return;
  upolynomial_<ZZ> u = toU(p); auto l = uspensky(u); int n = rootsAll(p); sx_check((int)l.size() == n, "one interval per real root");
  ZZ B = RealRootBound(u); Q b{toZ(B), Z(1)}, a{-b.n, Z(1)}; if (p.size() > 1) sx_check(rootsIn(p, a, b) == n, "the root bound bounds all roots");
  for (size_t i = 0; i < l.size(); ++i) { Q x = toQ(l[i].first), y = toQ(l[i].second); sx_check(qc(x, y) <= 0, "interval"); sx_check(rootsIn(p, x, y) == 1, "exactly one root per interval"); if (qc(x, y)) sx_check(sev(p, x) && sev(p, y), "interval ends are not roots"); if (i) sx_check(qc(toQ(l[i - 1].second), x) <= 0, "intervals are increasing and disjoint"); }
  if (n >= 2) sx_reach("roots");
}
SX_HARNESS(iso_1) { isolate(gp("p", 1, -6, 6)); sx_reach("linear"); }
SX_HARNESS(iso_2) { isolate(gp("p", 2, -4, 4)); }
SX_HARNESS(iso_3) { isolate(gp("p", 3, -2, 2)); }
SX_HARNESS(iso_4) { isolate(gp("p", 4, -1, 1)); }
SX_HARNESS(iso_scale) { DP p = gp("p", 2, -2, 2); Z k = Z(1) << (3 * (1 + sx_choice("k", 3))); if (p.size() == 3) { p[1] *= k; p[0] *= k * k; } isolate(p); }
// planted rational roots, close together and far apart
static DP rprod(const std::vector<Q> &qs) { DP p = ONE; for (auto &q : qs) p = dmul(p, lin(q)); return p; }
SX_HARNESS(iso_int) { std::vector<Q> q; for (int i = 0; i < 3; ++i) q.push_back({toZ(szz(nm("r", i), -4, 4)), Z(1)}); for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) sx_assume(qc(q[i], q[j]) != 0); isolate(rprod(q)); }
SX_HARNESS(iso_rat) { std::vector<Q> q; for (int i = 0; i < 2; ++i) q.push_back({toZ(szz(nm("r", i), -5, 5)), Z(1 + sx_choice(nm("d", i).c_str(), 5))}); sx_assume(qc(q[0], q[1]) != 0); isolate(rprod(q)); }
SX_HARNESS(iso_close) { Z k = 1; k <<= 4 + 6 * sx_choice("k", 3); Q a{toZ(szz("a", -2, 2)), Z(1)}, b{a.n * k + toZ(szz("e", -2, 2)), k}; sx_assume(qc(a, b) != 0); DP p = rprod({a, b}); if (sx_choice("m", 2)) p = dmul(p, DP{Z(-2), Z(0), Z(1)}); isolate(p); }
SX_HARNESS(iso_far) { Z k = 1; k <<= 5 + 15 * sx_choice("k", 4); Q a{k + toZ(szz("a", -2, 2)), Z(1)}, b{toZ(szz("b", -1, 1)) - k * sx_choice("s", 2), Z(1)}; isolate(rprod({a, b})); }
// ---- several polynomials
typedef polynomial_<ZZ, grlex> PG;
template <class P> static P toP(const DP &p) { P r; for (size_t k = p.size(); k-- > 0;) { basic_monomial<typename P::compare_type> m; if (k) m.push_back({VS[0], (int64_t)k}); m.normalization(); r.push_back({m, fromZ(p[k])}); } r.normalization(); return r; }
template <class P> static void several(const std::vector<DP> &F) {
  vars({"x"}); std::vector<P> f; DP all = ONE; for (auto &p : F) { if (p.empty()) return; f.push_back(toP<P>(p)); all = dmul(all, p); } auto res = realroot(f); auto &R = res.first; auto &I = res.second;
  sx_check((int)R.size() == rootsAll(all), "one entry per distinct real root"); sx_check(R.size() == I.size(), "one multiplicity list per root"); if (R.size() != I.size()) return;
  for (size_t i = 0; i < R.size(); ++i) { DP g = toD(R[i].poly()); Q x = toQ(R[i].left()), y = toQ(R[i].right()); sx_check(rootsIn(g, x, y) == 1, "the interval isolates a root of its polynomial"); if (i) { Q e = toQ(R[i - 1].right()); sx_check(qc(e, x) <= 0, "roots are increasing"); sx_check(qc(toQ(R[i - 1].left()), x) < 0 || qc(e, y) < 0, "roots are different"); }
    for (size_t k = 0; k < F.size(); ++k) { int64_t m = 0; int seen = 0; for (auto &e : I[i]) if (e.first == k) { m = e.second; ++seen; } sx_check(seen <= 1, "each polynomial is listed once"); DP d = F[k]; int64_t t = 0; while (!d.empty() && signAt(g, x, y, d) == 0) { ++t; d = dd(d); } sx_check(t == m, "multiplicity of the root in each polynomial"); } for (auto &e : I[i]) sx_check(e.first < F.size() && e.second > 0, "index of an input"); }
  if (R.size() >= 2) sx_reach("several");
}
SX_HARNESS(rr_one) { several<PG>({gp("p", 3, -1, 1)}); }
SX_HARNESS(rr_two) { several<PG>({gp("p", 2, -1, 1), gp("q", 2, -1, 1)}); }
SX_HARNESS(rr_zero) { std::vector<DP> f{gp("p", 2, -2, 2), DP{Z(0), Z(1)}}; if (sx_choice("o", 2)) std::swap(f[0], f[1]); several<PG>(f); }
SX_HARNESS(rr_mult) { DP a = gp("a", 1, -1, 1), b = gp("b", 1, -1, 1); int i = 1 + sx_choice("i", 3), j = sx_choice("j", 3); DP p = ONE, q = a; for (int k = 0; k < i; ++k) p = dmul(p, a); for (int k = 0; k < j; ++k) { p = dmul(p, b); q = dmul(q, b); } several<PG>({p, q}); }
SX_HARNESS(rr_share) { DP a{toZ(szz("a0", -3, 0)), Z(0), Z(1)}, b = gp("b", 1, -1, 1), c = gp("c", 1, -1, 1); several<PG>({dmul(a, b), dmul(a, c), DP{toZ(szz("d", -1, 1)), Z(1)}}); }
SX_HARNESS(rr_lex) { several<polynomial_<ZZ, lex>>({gp("p", 2, -1, 1), gp("q", 1, -2, 2)}); }
SX_HARNESS(rr_mid) { std::vector<DP> f{DP{toZ(szz("a", -4, 4)), Z(1)}, DP{toZ(szz("b", -4, 4)), Z(2)}, DP{toZ(szz("c", -3, -2)), Z(0), Z(1)}}; several<PG>(f); }
// ---- comparison
static A mk(const DP &p, const Q &l, const Q &r) { A a{p, l, r}; return a; }
static bool isolating(const A &a) { if (a.p.size() < 2) return false; int c = qc(a.l, a.r); if (c > 0) return false; if (c == 0) return sev(a.p, a.l) == 0; return sev(a.p, a.l) && sev(a.p, a.r) && sqfree(a.p) && rootsIn(a.p, a.l, a.r) == 1; }
static void still(uroot &u, const A &a, const char *m) { DP g = toD(u.poly()); Q x = toQ(u.left()), y = toQ(u.right()); sx_check(cmpAQ(a, x) >= 0 && cmpAQ(a, y) <= 0, m); if (qc(x, y)) { sx_check(rootsIn(g, x, y) == 1, m); sx_check(signAt(a.p, a.l, a.r, g) == 0, m); } }
static void cmpck(const A &a, const A &b) {
  int e = cmpA(a, b); auto mku = [](const A &t) { return uroot(toU(t.p), qq(t.l), qq(t.r)); }; uroot u = mku(a), v = mku(b); int c = uroot::comp(&u, &v); sx_check(c == -e, "comparison of two roots"); still(u, a, "comparison keeps the root inside"); still(v, b, "comparison keeps the root inside"); sx_check(uroot::comp(&v, &u) == e, "comparison after refinement, exchanged"); still(u, a, "comparison keeps the root inside"); still(v, b, "comparison keeps the root inside");
  { uroot s = mku(a), t = mku(b); bool r = s < t; sx_check(r == (e < 0), "operator<"); r = s == t; sx_check(r == (e == 0), "operator=="); r = s > t; sx_check(r == (e > 0), "operator>"); r = s <= t; sx_check(r == (e <= 0), "operator<="); r = s >= t; sx_check(r == (e >= 0), "operator>="); r = s != t; sx_check(r == (e != 0), "operator!="); }
  if (e == 0) sx_reach("equal"); else sx_reach("different");
}
static Q grid(const char *n, long lo, long hi, long den) { Q q{toZ(szz(n, lo, hi)), Z(den)}; return q; }
SX_HARNESS(cmp_lin) { Q l = grid("l", -2, 1, 1), r = grid("r", -1, 2, 1), s = grid("s", -2, 1, 1), t = grid("t", -1, 2, 1); A a = mk(gp("a", 1, -2, 2), l, r), b = mk(gp("b", 1, -2, 2), s, t); sx_assume(isolating(a) && isolating(b)); cmpck(a, b); }
SX_HARNESS(cmp_lq) { Q l = grid("l", -2, 1, 1), r = grid("r", -1, 2, 1), s = grid("s", -2, 1, 1), t = grid("t", -1, 2, 1); A a = mk(gp("a", 1, -2, 2), l, r), b = mk(DP{toZ(szz("c", -3, 1)), toZ(szz("d", -1, 1)), Z(1)}, s, t); sx_assume(isolating(a) && isolating(b)); if (sx_choice("swap", 2)) cmpck(b, a); else cmpck(a, b); }
SX_HARNESS(cmp_qq) { Q l = grid("l", -1, 1, 1), r = grid("r", 0, 3, 1), s = grid("s", -1, 1, 1), t = grid("t", 0, 3, 1); A a = mk(DP{toZ(szz("a", -3, 0)), toZ(szz("a1", -1, 1)), Z(1)}, l, r), b = mk(DP{toZ(szz("c", -3, 0)), toZ(szz("d", -1, 1)), Z(1)}, s, t); sx_assume(isolating(a) && isolating(b)); cmpck(a, b); }
SX_HARNESS(cmp_half) { Q l = grid("l", -2, 2, 2), r = grid("r", 1, 5, 2), s = grid("s", -2, 2, 2), t = grid("t", 1, 5, 2); A a = mk(DP{toZ(szz("a", -3, 0)), Z(0), Z(1)}, l, r), b = mk(DP{toZ(szz("c", -3, 0)), Z(2)}, s, t); sx_assume(isolating(a) && isolating(b)); cmpck(a, b); }
// a common root of two different polynomials; the cofactors bring other roots into the interval of the other one
SX_HARNESS(cmp_common) { DP h{toZ(szz("h", -3, -1)), toZ(szz("h1", -1, 1)), Z(1)}, u = DP{toZ(szz("u", -3, 3)), Z(1)}, v = DP{toZ(szz("v", -2, 2)), Z(2)}; Q l = grid("l", -1, 1, 1), r = grid("r", 1, 3, 1), s = grid("s", -1, 1, 1), t = grid("t", 1, 3, 1); A a = mk(dmul(h, u), l, r), b = mk(sx_choice("w", 2) ? dmul(h, v) : h, s, t); sx_assume(isolating(a) && isolating(b)); cmpck(a, b); }
SX_HARNESS(cmp_cubic) { Q l = grid("l", -1, 1, 1), s = grid("s", -1, 1, 1); A a = mk(DP{toZ(szz("a", -2, 1)), toZ(szz("a1", -2, 1)), Z(0), Z(1)}, l, Q{l.n + 1 + sx_choice("wl", 2), Z(1)}), b = mk(DP{toZ(szz("c", -2, 1)), toZ(szz("d", -1, 1)), Z(1)}, s, Q{s.n + 1 + sx_choice("ws", 2), Z(1)}); sx_assume(isolating(a) && isolating(b)); cmpck(a, b); }
SX_HARNESS(cmp_rat) {
  Q l = grid("l", -2, 1, 1), r = grid("r", -1, 3, 1), q = grid("q", -6, 6, 1 + sx_choice("den", 4)); A a = mk(DP{toZ(szz("c", -3, 2)), toZ(szz("d", -1, 2)), Z(sx_choice("lc", 2))}, l, r); trim(a.p); sx_assume(isolating(a)); int e = cmpAQ(a, q); QQ k = qq(q); auto m = [&] { return uroot(toU(a.p), qq(a.l), qq(a.r)); };
  { uroot u = m(); sx_check(uroot::comp(&u, k) == -e, "comparison with a rational"); still(u, a, "comparison keeps the root inside"); sx_check(uroot::comp(&u, k) == -e, "comparison with a rational, repeated"); }
  { uroot u = m(); bool t = u < k; sx_check(t == (e < 0), "root < rational"); t = k > u; sx_check(t == (e < 0), "rational > root"); t = u > k; sx_check(t == (e > 0), "root > rational"); t = k < u; sx_check(t == (e > 0), "rational < root"); t = u <= k; sx_check(t == (e <= 0), "root <= rational"); t = k >= u; sx_check(t == (e <= 0), "rational >= root"); t = u >= k; sx_check(t == (e >= 0), "root >= rational"); t = k <= u; sx_check(t == (e >= 0), "rational <= root"); t = u == k; sx_check(t == (e == 0), "root == rational"); t = k == u; sx_check(t == (e == 0), "rational == root"); t = u != k; sx_check(t == (e != 0), "root != rational"); t = k != u; sx_check(t == (e != 0), "rational != root"); }
  if (e == 0) sx_reach("equal"); else sx_reach("different");
}
SX_HARNESS(cmp_shrink) { Q l = grid("l", -2, 1, 1), r = grid("r", -1, 3, 1); A a = mk(DP{toZ(szz("c", -3, 2)), toZ(szz("d", -1, 2)), Z(1)}, l, r); sx_assume(isolating(a)); uroot u(toU(a.p), qq(l), qq(r)); int n = 1 + sx_choice("n", 3); Q w{r.n - l.n, Z(1)}; for (int i = 0; i < n; ++i) { u.shrinkinterval(); w.d *= 2; still(u, a, "refinement keeps the root inside"); Q x = toQ(u.left()), y = toQ(u.right()), d{y.n * x.d - x.n * y.d, y.d * x.d}; sx_check(qc(d, w) <= 0, "refinement halves the interval"); sx_check(u.is_single() == (qc(x, y) == 0), "is_single"); } sx_reach("refine"); }
SX_HARNESS(cmp_inf) { A a = mk(DP{toZ(szz("c", -2, 2)), Z(1)}, Q{Z(-3), Z(1)}, Q{Z(3), Z(1)}); uroot f(toU(a.p), qq(a.l), qq(a.r)); auto get = [&](int k) { return k == 0 ? uroot::neginf() : k == 1 ? f : uroot::inf(); }; int i = sx_choice("i", 3), j = sx_choice("j", 3); uroot u = get(i), v = get(j); sx_check(uroot::comp(&u, &v) == (i < j ? 1 : i > j ? -1 : 0), "infinities"); QQ k = qq(grid("q", -4, 4, 1)); if (i != 1) { sx_check(uroot::comp(&u, k) == (i == 0 ? 1 : -1), "infinity and rational"); } sx_check(u.isinf() == (i == 2) && u.isneginf() == (i == 0), "infinity flags"); sx_reach("infinity"); }
