// Random generators of the library.  Every draw is a solver choice: the distributions of <random> are replaced by
// stand-ins that return an arbitrary value of the requested range (and check that the range is a range).
#include <bits/stdc++.h>
#include "sx.h"
static int DRAW = 0; // number of draws so far
static int LIM = 1 << 30; // longer histories of draws are not explored
static long CAP = 0; // if nonzero: draws are restricted to the CAP smallest and CAP largest values of the range
static std::string dname() { return "draw" + std::to_string(DRAW++); }
namespace std {
struct sx_rd { typedef unsigned result_type; unsigned operator()() { return 1; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } };
struct sx_mt { typedef unsigned result_type; template <class S> explicit sx_mt(S) {} sx_mt() {} unsigned operator()() { sx_check(false, "a draw bypasses the distributions"); return 0; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } };
template <class T = int> struct sx_uid { typedef T result_type; T a, b; sx_uid(T x = 0, T y = std::numeric_limits<T>::max()) : a(x), b(y) { sx_check(x <= y, "the range of a uniform distribution is not empty"); }
  template <class G> T operator()(G &) { int64_t l = (int64_t)a, h = (int64_t)b; if (l > h || DRAW >= LIM) { sx_assume(false); return a; } int64_t v = sx_int(dname().c_str(), l, h); if (CAP) sx_assume(v < l + CAP || v > h - CAP); return (T)v; } T min() const { return a; } T max() const { return b; } };
struct sx_ber { double p; explicit sx_ber(double q = 0.5) : p(q) { sx_check(q >= 0 && q <= 1, "probabilities lie in [0,1]"); } template <class G> bool operator()(G &) { if (p <= 0) return false; if (p >= 1) return true; return sx_int(dname().c_str(), 0, 1) != 0; } };
}
#define random_device sx_rd
#define mt19937 sx_mt
#define mt19937_64 sx_mt
#define uniform_int_distribution sx_uid
#define bernoulli_distribution sx_ber
#include "common.hh"
static int64_t tdeg(const Ex &e) { int64_t s = 0; for (auto x : e) s += x; return s; }
static int64_t binom(int64_t n, int64_t k) { if (k < 0 || k > n) return 0; int64_t r = 1; for (int64_t i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
static void nvars(int n) { static const char *N[4] = {"x", "y", "z", "t"}; VS.clear(); for (int i = 0; i < n; ++i) VS.push_back(variable(N[i])); }

// unranking: index -> exponent vector, injective, of the right degree
static void unr(bool exact, int n, int64_t d, int64_t tot) { int64_t i = sx_int("i", 0, tot - 1), j = sx_int("j", 0, tot - 1); sx_assume(i < j); auto f = [&](int64_t k) { return exact ? detail::unrank_monomial_exact(k, n, d) : detail::unrank_monomial_upto(k, n, d); }; auto a = f(i), b = f(j); sx_check((int)a.size() == n && (int)b.size() == n, "one exponent per variable"); int64_t s = 0; bool eq = true; for (int k = 0; k < n; ++k) { sx_check(a[k] >= 0, "exponents are not negative"); s += a[k]; if (a[k] != b[k]) eq = false; } sx_check(exact ? s == d : s <= d, "total degree"); sx_check(!eq, "different indices give different monomials"); sx_reach("two indices"); }
SX_HARNESS(unrank_upto) { int n = 1 + sx_choice("n", 3); int64_t d = sx_choice("d", n == 3 ? 4 : 6); int64_t t = binom(d + n, n); sx_check((int64_t)detail::monomial_count_upto(n, d) == t, "number of monomials"); if (t > 1) unr(false, n, d, t); else { auto e = detail::unrank_monomial_upto(0, n, 0); sx_check((int)e.size() == n && tdeg(e) == 0, "the only monomial"); } }
SX_HARNESS(unrank_exact) { int n = 1 + sx_choice("n", 3); int64_t d = sx_choice("d", n == 3 ? 5 : 7); int64_t t = binom(d + n - 1, n - 1); sx_check((int64_t)detail::monomial_count_exact(n, d) == t, "number of monomials"); if (t > 1) unr(true, n, d, t); else { auto e = detail::unrank_monomial_exact(0, n, d); sx_check((int)e.size() == n && tdeg(e) == d, "the only monomial"); } }
SX_HARNESS(unrank_count) { int64_t n = sx_value(sx_int("n", 1, 8)), d = sx_value(sx_int("d", 0, 12)); sx_check((int64_t)detail::monomial_count_upto(n, d) == binom(d + n, n), "number of monomials of degree <= d"); sx_check((int64_t)detail::monomial_count_exact(n, d) == binom(d + n - 1, n - 1), "number of monomials of degree d"); sx_reach("counted"); }
// selections
SX_HARNESS(select_idx) { int m = 1 + sx_choice("m", wd(5, 7)), n = sx_choice("n", 7); DRAW = 0; auto v = random_select(m, n, true); sx_check((int)v.size() == std::min(m, n), "as many indices as requested"); for (size_t i = 0; i < v.size(); ++i) { sx_check(v[i] < (size_t)m, "indices are in range"); if (i) sx_check(v[i - 1] < v[i], "indices are distinct and increasing"); } if (n < m) sx_reach("proper selection"); else sx_reach("everything"); }
SX_HARNESS(select_rep) { int m = 1 + sx_choice("m", 5), n = sx_choice("n", 4); DRAW = 0; auto v = random_select(m, n, false); sx_check((int)v.size() == n, "as many indices as requested"); for (size_t i = 0; i < v.size(); ++i) sx_check(v[i] < (size_t)m, "indices are in range"); sx_reach("with repetition"); }
SX_HARNESS(select_large) { static const int64_t M[] = {2147483647, 2147483648, 2147483650, 4294967295, 4294967296, 4294967300, 1099511627776, 4611686018427387904}; int64_t m = M[sx_choice("m", 8)]; int n = 1 + sx_choice("n", 3); bool r = sx_choice("norepeat", 2); DRAW = 0; auto v = random_select(m, n, r); sx_check((int)v.size() == n, "as many indices as requested"); for (size_t i = 0; i < v.size(); ++i) { sx_check(v[i] < (size_t)m, "indices are in range"); if (i && r) sx_check(v[i - 1] < v[i], "indices are distinct and increasing"); } if (v.size() && v.back() == (size_t)m - 1) sx_reach("the last index is possible"); if (v.size() && v[0] == 0) sx_reach("the first index is possible"); }
SX_HARNESS(sample) { int m = sx_choice("m", 5), n = sx_choice("n", 6); std::vector<int> l; for (int i = 0; i < m; ++i) l.push_back(10 + i); DRAW = 0; auto v = RandomSample(l, n); sx_check((int)v.size() == std::min(m, n), "as many elements as requested"); bool s[5] = {}; for (int x : v) { sx_check(x >= 10 && x < 10 + m, "elements of the list"); if (x >= 10 && x < 10 + m) { sx_check(!s[x - 10], "no position twice"); s[x - 10] = true; } } if (n && n < m) sx_reach("proper sample"); else sx_reach("everything or nothing"); }
// polynomials of given degree and length
template <class P> static void shape(const P &f, uint64_t deg, uint64_t len, int64_t lo, int64_t hi, bool num) { canonP(f, "canonical form"); int n = VS.size(); uint64_t tot = binom(deg + n, n), w = std::min(len, tot); uint64_t k = 0; bool cst = false; int64_t mx = -1; for (auto &t : f) { ++k; Ex e = exOf(t.first); int64_t d = tdeg(e); if (d > mx) mx = d; if (d == 0) cst = true; Z c = cofZ(t.second); sx_check(c >= lo && c <= hi, "coefficients lie in the range"); }
  if (w == 0) { sx_check(f.empty(), "no term is requested"); return; } if (num) sx_check(cst, "the constant term is present"); sx_check(k == w || (num && k == w + 1), "number of terms"); sx_check(mx == (int64_t)deg, "degree"); sx_reach("generated"); }
static void rp(int n, int64_t deg, int64_t len, int lo, int hi, bool num, bool sw = false) { nvars(n); DRAW = 0; auto f = random_polynomial<ZZ>(VS, deg, len, sw ? std::pair<int, int>{hi, lo} : std::pair<int, int>{lo, hi}, num); shape(f, deg, len, lo, hi, num); }
// a coefficient of zero is drawn again: restrict to ranges without it, and cover the redraw separately
SX_HARNESS(rp_1) { int deg = sx_choice("deg", 4); rp(1, deg, sx_choice("len", 6), 1, 3, sx_choice("num", 2)); }
SX_HARNESS(rp_2) { int deg = sx_choice("deg", 4); rp(2, deg, sx_choice("len", wd(4, 5)), 7, 7, sx_choice("num", 2)); }
SX_HARNESS(rp_3) { int deg = 1 + sx_choice("deg", 2); rp(3, deg, sx_choice("len", wd(3, 4)), -5, -5, sx_choice("num", 2)); }
SX_HARNESS(rp_coef) { bool sw = sx_choice("swap", 2); rp(2, 1 + sx_choice("deg", 2), 2, -3, -1, false, sw); }
SX_HARNESS(rp_redraw) { nvars(2); DRAW = 0; LIM = 6; auto f = random_polynomial<ZZ>(VS, 1, 1, {0, 2}); LIM = 1 << 30; shape(f, 1, 1, 0, 2, false); }
SX_HARNESS(rp_wide) { static const int N[3] = {10, 8, 6}, D[3] = {40, 60, 100}; int k = sx_choice("space", 3); VS.clear(); for (int i = 0; i < N[k]; ++i) VS.push_back(variable(nm("w", i))); CAP = 2; DRAW = 0; auto f = random_polynomial<ZZ>(VS, D[k], 2, {1, 1}); CAP = 0; sx_check(f.size() == 2, "number of terms"); int64_t mx = 0; for (auto &t : f) { int64_t d = tdeg(exOf(t.first)); if (d > mx) mx = d; } sx_check(mx == D[k], "degree"); sx_reach("generated"); }
SX_HARNESS(ru) { DRAW = 0; int64_t deg = sx_choice("deg", 4), len = sx_choice("len", 6); auto u = random_upolynomial<ZZ>(deg, len, {2, 3}); vars({"x"}); shape(u, deg, len, 2, 3, false); }
SX_HARNESS(rq) { nvars(2); DRAW = 0; int dm = 1 + sx_choice("den", wd(3, 4)); auto f = random_polynomial_QQ(VS, 1 + sx_choice("deg", wd(1, 2)), 2, {-2, -1}, dm, sx_choice("num", 2)); size_t k = 0; for (auto &t : f) { ++k; sx_check(toZ(t.second.den()) >= 1 && toZ(t.second.den()) <= dm, "denominators lie in the range"); Z n = toZ(t.second.num()) * 1, d = toZ(t.second.den()); sx_check(n < 0, "coefficients have the sign of the range"); Z lo = d * -2; sx_check(n >= lo, "coefficients lie in the range"); Z g; mpz_gcd(g.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); eqz(g, Z(1), "lowest terms"); } sx_check(k >= 2 && k <= 3, "number of terms"); sx_reach("generated"); }
// random density: every monomial of degree <= deg at most once
static void dens(int n, int deg, double p, int lo, int hi, bool sw) { nvars(n); DRAW = 0; auto f = sw ? random_polynomial<ZZ>(VS, deg, p, lo, hi) : random_polynomial<ZZ>(VS, deg, p, hi, lo); canonP(f, "canonical form"); uint64_t k = 0; for (auto &t : f) { ++k; sx_check(tdeg(exOf(t.first)) <= deg, "degree bound"); Z c = cofZ(t.second); sx_check(c >= lo && c <= hi, "coefficients lie in the range"); } uint64_t tot = binom(deg + n, n); sx_check(k <= tot, "each monomial at most once"); if (p >= 1 && lo > 0) { sx_check(k == tot, "probability one gives every monomial"); sx_reach("dense"); } if (p <= 0) { sx_check(k == 0, "probability zero gives nothing"); sx_reach("empty"); } if (p > 0 && p < 1) sx_reach("sparse"); }
SX_HARNESS(rd_all) { int n = 1 + sx_choice("n", 3), d = sx_choice("d", n == 3 ? 3 : 5); dens(n, d, 1.0, 4, 4, sx_choice("swap", 2)); }
SX_HARNESS(rd_none) { int n = 1 + sx_choice("n", 3), d = sx_choice("d", 4); dens(n, d, 0.0, -4, 4, false); }
SX_HARNESS(rd_some) { int n = 1 + sx_choice("n", 2), d = sx_choice("d", n == 2 ? 3 : 5); dens(n, d, 0.5, 3, 3, sx_choice("swap", 2)); }
SX_HARNESS(rd_coef) { dens(1, 2, 1.0, -1, 2, sx_choice("swap", 2)); }
// graphs
SX_HARNESS(rg) { int n = sx_choice("n", 5), q = sx_choice("p", 3); std::vector<int> nd; for (int i = 0; i < n; ++i) nd.push_back(i * 3); DRAW = 0; auto G = random_graph(nd, q / 2.0); sx_check((int)G.size() == n, "nodes"); for (int i = 0; i < n; ++i) { sx_check(G.node(G.index(i * 3)) == i * 3, "nodes"); for (int j = 0; j < n; ++j) { bool e = G.is_edge(i * 3, j * 3); sx_check(e == G.is_edge(j * 3, i * 3), "edges have no direction"); if (i != j) { if (q == 0) sx_check(!e, "probability zero: no edge"); if (q == 2) sx_check(e, "probability one: every edge"); } } } sx_reach("graph"); }
// families of polynomials: the associated graph is a subgraph of the random graph's cliques
SX_HARNESS(rfam) { nvars(3); int q = sx_choice("p", 2) + 1; DRAW = 0; auto L = random_polynomials<ZZ>(VS, 1, q / 2.0, 1.0, 2, 2); if (q == 2) { sx_check(L.size() == 3, "one polynomial per variable with a neighbour"); for (auto &f : L) sx_check(f.size() == 4, "every variable of the clique occurs"); sx_reach("complete"); } for (auto &f : L) { canonP(f, "canonical form"); for (auto &t : f) sx_check(tdeg(exOf(t.first)) <= 1, "degree bound"); } if (L.empty()) sx_reach("no edges"); }
