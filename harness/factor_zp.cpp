// Factorisation over prime fields.  The inputs are all products d^a*e^b of two solver-chosen polynomials; a factor g
// is irreducible when it divides d or e for every way d*e of writing the input as a product.
#include "alg.hh"
typedef upolynomial_<Zp> UP; typedef std::vector<Z> V; // V: coefficients from degree 0 on, residues in [0,p)
static uint64_t Pr; static Z PZ;
static Z red(const Z &a) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), PZ.get_mpz_t()); return r; }
static void setp(uint64_t p) { Pr = p; PZ = 0; mpz_set_ui(PZ.get_mpz_t(), p); vars({"x"}); }
static V trim(V a) { while (!a.empty() && isz(a.back())) a.pop_back(); return a; }
static V vmul(const V &a, const V &b) { if (a.empty() || b.empty()) return {}; V r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; for (auto &x : r) x = red(x); return r; }
static V vpow(const V &a, int n) { V r{Z(1)}; for (int i = 0; i < n; ++i) r = vmul(r, a); return r; }
static V vmod(V a, const V &g) { while (a.size() >= g.size()) { Z c = a.back(); size_t s = a.size() - g.size(); for (size_t i = 0; i + 1 < g.size(); ++i) a[s + i] = red(a[s + i] - c * g[i]); a.pop_back(); } return a; } // g monic
static bool vzero(const V &a) { Z s = 0; for (auto &x : a) s += x; return isz(s); }
static V vecOf(const UP &u) { V r; for (auto &t : u) { if (r.size() <= (size_t)t.first.deg()) r.resize(t.first.deg() + 1); sx_check(t.second.prime() == Pr, "the modulus is kept"); r[t.first.deg()] = cofZ(t.second); } return r; }
static UP mkU(const V &a) { UP u; for (size_t i = a.size(); i-- > 0;) if (!isz(a[i])) u.push_back({umonomial(i), Zp(fromZ(a[i]), Pr)}); return u; }
static RP toRV(const V &a) { RP r; for (size_t i = 0; i < a.size(); ++i) r.c[{(int64_t)i}] = a[i]; return r; }
static void eqv(V a, V b, const char *m) { size_t n = std::max(a.size(), b.size()); a.resize(n); b.resize(n); for (size_t i = 0; i < n; ++i) eqz(a[i], b[i], m); }
// determinant of the Sylvester matrix of f (monic) and g with the given formal degree
static Z sylv(const V &f, V g, size_t dg) { size_t m = f.size() - 1, n = dg, k = m + n; g.resize(n + 1); std::vector<std::vector<RP>> s(k, std::vector<RP>(k)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= m; ++j) s[i][i + j] = rconst(f[m - j]); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j <= n; ++j) s[n + i][i + j] = rconst(g[n - j]); RP d = rdet(s); Z r = 0; for (auto &x : d.c) r += x.second; return red(r); }
static V sym(const char *n, int deg, bool monic) { V r; uint64_t hi = Pr - 1; for (int i = 0; i <= deg; ++i) { if (i == deg && monic) r.push_back(Z(1)); else r.push_back(toZ(szz(nm(n, i), i == deg ? 1 : 0, hi))); } return r; }
static void monicC(const UP &g, const V &v, const char *m) { canonP(g, "factor is canonical"); sx_check(get_deg(g) > 0, "factor has positive degree"); eqz(v.back(), Z(1), m); }
static void facck(const V &d, const V &e, int a, int b) {
  V f = trim(vmul(vpow(d, a), vpow(e, b))); UP u = mkU(f); auto R = __factor_Zp(u); eqz(cofZ(R.first), f.back(), "leading coefficient"); V pr{f.back()}; std::vector<V> G;
  for (auto &x : R.second) { V g = vecOf(x.first); monicC(x.first, g, "factors are monic"); sx_check(x.second > 0, "multiplicities are positive"); pr = vmul(pr, vpow(g, x.second)); for (auto &h : G) if (h.size() == g.size()) { V w = g; for (size_t i = 0; i < w.size(); ++i) w[i] = red(w[i] - h[i]); sx_check(!vzero(w), "factors are distinct"); } G.push_back(g);
    sx_check(vzero(vmod(d, g)) || vzero(vmod(e, g)), "factors are irreducible"); }
  eqv(pr, f, "the product of the factors is the input"); if (R.second.size() > 1) sx_reach("several factors"); else sx_reach("one factor");
}
#define FZ(name, p, dd, de) SX_HARNESS(name) { setp(p); V d = sym("d", dd, false), e = sym("e", de, true); facck(d, e, 1, 1); }
FZ(fz2_33, 2, 3, 3) FZ(fz2_24, 2, 2, 4) FZ(fz2_15, 2, 1, 5) FZ(fz2_44, 2, 4, 4) FZ(fz3_12, 3, 1, 2) FZ(fz3_22, 3, 2, 2) FZ(fz3_13, 3, 1, 3) FZ(fz5_11, 5, 1, 1) FZ(fz5_12, 5, 1, 2) FZ(fz7_11, 7, 1, 1) FZ(fz13_11, 13, 1, 1)
#define FM(name, p, dd, de, ma, mb) SX_HARNESS(name) { setp(p); V d = sym("d", dd, false), e = sym("e", de, true); facck(d, e, 1 + sx_choice("a", ma), 1 + sx_choice("b", mb)); }
FM(fm2_11, 2, 1, 1, 5, 5) FM(fm2_22, 2, 2, 2, 4, 4) FM(fm3_11, 3, 1, 1, 7, 4) FM(fm3_12, 3, 1, 2, 3, 3) FM(fm5_11, 5, 1, 1, 6, 1)
// large fields: products of linear factors and of x^2-c
SX_HARNESS(fz_large) { static const uint64_t PP[] = {4294967291ull, 18446744073709551557ull, 2147483647ull, 2305843009213693951ull}; setp(PP[sx_choice("p", 4)]); int w = wd(2, 3); V d{toZ(szz("d0", 0, w)), Z(1)}, e{toZ(szz("e0", 0, w)), Z(1)}; if (sx_choice("k", 2)) e = {e[0], Z(0), Z(1)}; facck(d, e, 1, 1); }
// stages
static bool inF(const V &f) { return f.size() > 1; }
static void sqf(const V &f0) { V f = f0; UP u = mkU(f); auto S = __squarefree_Zp(u); V pr{f.back()}; std::vector<V> G; std::vector<uint64_t> E; for (auto &x : S) { V g = vecOf(x.first); monicC(x.first, g, "square-free factors are monic"); pr = vmul(pr, vpow(g, x.second)); V dg; for (size_t i = 1; i < g.size(); ++i) dg.push_back(red(g[i] * (long)i)); if (g.size() > 2) sx_check(!isz(sylv(g, dg, g.size() - 2)), "factors are square-free"); for (size_t i = 0; i < G.size(); ++i) { sx_check(!isz(sylv(g, G[i], G[i].size() - 1)), "factors are coprime"); sx_check(E[i] != x.second, "one factor per multiplicity"); } G.push_back(g); E.push_back(x.second); if (x.second > 1) sx_reach("multiple"); else sx_reach("simple"); } eqv(pr, f, "product of the square-free factors"); }
#define SQ(name, p, dd, de, ma, mb) SX_HARNESS(name) { setp(p); V d = sym("d", dd, true), e = sym("e", de, true); sqf(vmul(vpow(d, 1 + sx_choice("a", ma)), vpow(e, 1 + sx_choice("b", mb)))); }
SQ(sq2_11, 2, 1, 1, 6, 6) SQ(sq2_21, 2, 2, 1, 3, 4) SQ(sq2_22, 2, 2, 2, 2, 2) SQ(sq3_11, 3, 1, 1, 4, 4) SQ(sq3_12, 3, 1, 2, 2, 2) SQ(sq5_11, 5, 1, 1, 6, 1)
static V xpow(int d, const V &g) { V r = vmod({Z(0), Z(1)}, g); for (int i = 0; i < d; ++i) { V s{Z(1)}; s = vmod(s, g); for (uint64_t k = 0; k < Pr; ++k) s = vmod(vmul(s, r), g); r = s; } r.resize(g.size() - 1); return r; }
static void ddf(const V &f) { UP u = mkU(f); auto D = __ddf_Zp(u); V pr{Z(1)}; std::vector<uint64_t> E; for (auto &x : D) { V g = vecOf(x.first); monicC(x.first, g, "distinct-degree factors are monic"); int n = g.size() - 1, k = x.second; for (auto o : E) sx_check(o != (uint64_t)k, "one class per degree"); E.push_back(k); sx_check(k > 0 && n % k == 0, "degree is a multiple of the class"); if (!(k > 0 && n % k == 0)) return; pr = vmul(pr, g);
    V a = vmod({Z(0), Z(1)}, g); a.resize(n); V t = xpow(k, g); eqv(t, a, "every root lies in the field of the class"); for (int j = 1; j < k; ++j) if (k % j == 0) { V w = xpow(j, g); for (int i = 0; i < n; ++i) w[i] = red(w[i] - a[i]); sx_check(!isz(sylv(g, w, n - 1)), "no root lies in a smaller field"); } if (k > 1) sx_reach("higher degree"); else sx_reach("linear"); } eqv(pr, f, "product of the distinct-degree factors"); }
static void ddfIn(int deg) { V f = sym("f", deg, true); V df; for (size_t i = 1; i < f.size(); ++i) df.push_back(red(f[i] * (long)i)); sx_assume(!isz(sylv(f, df, deg - 1))); ddf(f); }
SX_HARNESS(ddf2_5) { setp(2); ddfIn(5); } SX_HARNESS(ddf2_6) { setp(2); ddfIn(6); } SX_HARNESS(ddf3_3) { setp(3); ddfIn(3); } SX_HARNESS(ddf3_4) { setp(3); ddfIn(4); } SX_HARNESS(ddf5_3) { setp(5); ddfIn(3); } SX_HARNESS(ddf7_2) { setp(7); ddfIn(2); }
