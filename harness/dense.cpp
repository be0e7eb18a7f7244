// dense and sparse univariate polynomials over Z/p
#include <vector>
#include <cstdint>
#include <cassert>
#include <algorithm>
#include <cstring>
#include <cmath>
#include <random>
#include <unordered_set>
#include <string>
#include <map>
#include <list>
#include <functional>
#include <iostream>
#include <sstream>
#include <gmpxx.h>
#define private public
#include <clpoly/dense_upoly_zp.hh>
#undef private
#include "common.hh"
typedef dense_upoly_zp D;
typedef upolynomial_<Zp> U;
typedef std::vector<Z> V; // reference: coefficients, ascending
static Z um(uint64_t v) { Z r; mpz_set_ui(r.get_mpz_t(), v); return r; }
static Z md(const Z &a, uint64_t p) { Z r, P = um(p); mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), P.get_mpz_t()); return r; }
static V vmul(const V &a, const V &b) { if (a.empty() || b.empty()) return V(); V r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
static V vadd(const V &a, const V &b, int s = 1) { V r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); ++i) { if (i < a.size()) r[i] += a[i]; if (i < b.size()) { if (s > 0) r[i] += b[i]; else r[i] -= b[i]; } } return r; }
// coefficients: integers in [lo,hi] reduced modulo p (the reference keeps the integers)
static U su(const std::string &n, int deg, uint64_t p, int64_t lo, int64_t hi, V *v = nullptr) {
  U f; V w(deg + 1);
  for (int i = deg; i >= 0; --i) { int64_t c = sx_int(nm(n, i).c_str(), lo, hi); w[i] = toZ(ZZ((long)c)); Zp z((int64_t)c, p); if (z.number() != 0) f.push_back({umonomial(i), z}); }
  if (v) *v = w; return f;
}
static V toV(const D &a) { V v(a.size()); for (size_t i = 0; i < a.size(); ++i) v[i] = um(a[i]); return v; }
static V toV(const U &a) { V v; if (!a.empty()) v.resize(a.front().first.deg() + 1); for (auto &t : a) v[t.first.deg()] += um(t.second.number()); return v; }
static void eqv(const V &a, const V &b, uint64_t p, const char *m) { for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) { Z d = (i < a.size() ? a[i] : Z(0)) - (i < b.size() ? b[i] : Z(0)); eqz(md(d, p), Z(0), m); } }
// canonical: coefficients in [0,p), leading one nonzero
static void canon(const D &a, uint64_t p, const char *m) { for (size_t i = 0; i < a.size(); ++i) sx_check(a[i] < p, m); if (a.size()) sx_check(a[a.size() - 1] != 0, m); sx_check(a.prime() == p, m); }
static void canon(const U &a, uint64_t p, const char *m) { int64_t d = INT64_MAX; for (auto &t : a) { sx_check(t.second.number() < p && t.second.number() != 0, m); sx_check(t.second.prime() == p, m); sx_check(t.first.deg() < d, m); d = t.first.deg(); } }
static const uint64_t SP[] = {2, 3, 5, 7};
static const uint64_t BP[] = {4294967311ul, 9223372036854775837ul, 18446744073709551557ul};
static uint64_t sprime(int n) { return SP[sx_choice("p", n)]; }
static uint64_t bprime() { return BP[sx_choice("p", 3)]; }
static void ring(uint64_t p, const U &f, const V &x, const U &g, const V &y) {
  D A(f, p), B(g, p); canon(A, p, "from sparse is canonical"); eqv(toV(A), x, p, "from sparse"); U back = A.to_upoly(); canon(back, p, "to sparse is canonical"); eqv(toV(back), x, p, "to sparse");
  D C(p), S(p), T(p); D::mul(C, A, B); canon(C, p, "product is canonical"); eqv(toV(C), vmul(x, y), p, "product");
  D::add(S, A, B); canon(S, p, "sum is canonical"); eqv(toV(S), vadd(x, y), p, "sum"); D::sub(T, A, B); canon(T, p, "difference is canonical"); eqv(toV(T), vadd(x, y, -1), p, "difference");
  D E = A; D::add(E, E, B); eqv(toV(E), toV(S), p, "sum in place"); E = B; D::add(E, A, E); eqv(toV(E), toV(S), p, "sum in place (right)"); E = A; D::sub(E, E, B); eqv(toV(E), toV(T), p, "difference in place"); E = B; D::sub(E, A, E); eqv(toV(E), toV(T), p, "difference in place (right)");
  E = A; D::mul(E, E, B); eqv(toV(E), toV(C), p, "product in place"); E = A; D::sub(E, E, E); sx_check(E.empty(), "a-a");
  sx_check(A.deg() == (A.empty() ? -1 : (int64_t)A.size() - 1), "degree"); if (!A.empty()) sx_check(A.lead() == A[A.size() - 1], "leading coefficient"); sx_check(A[A.size()] == 0, "coefficient above the degree");
}
SX_HARNESS(dn_ring2) { uint64_t p = sprime(4); V x, y; U f = su("a", 2, p, 0, p - 1, &x), g = su("b", 1, p, 0, p - 1, &y); ring(p, f, x, g, y); sx_reach("ring"); }
SX_HARNESS(dn_ring_big) { uint64_t p = bprime(); V x, y; U f = su("a", 2, p, -2, 2, &x), g = su("b", 1, p, -2, 2, &y); ring(p, f, x, g, y); sx_reach("ring"); }
SX_HARNESS(dn_ring_lazy) { // long dot products of extreme residues: the three-word accumulator
  uint64_t p = bprime(); int n = 12; U f, g; V x(n), y(n); int64_t c = sx_int("c", -3, 3), d = sx_int("d", -3, 3), e = sx_int("e", 1, 2); int k = sx_choice("k", 4);
  for (int i = n - 1; i >= 0; --i) { int64_t u = i == 3 * k ? c : -e, w = i == 5 ? d : -1; x[i] = toZ(ZZ((long)u)); y[i] = toZ(ZZ((long)w)); Zp z(u, p); if (z.number()) f.push_back({umonomial(i), z}); Zp q(w, p); if (q.number()) g.push_back({umonomial(i), q}); }
  D A(f, p), B(g, p), C(p); D::mul(C, A, B); canon(C, p, "product is canonical"); eqv(toV(C), vmul(x, y), p, "product"); sx_reach("lazy");
}
SX_HARNESS(dn_scalar) { bool big = sx_choice("big", 2); uint64_t p = big ? bprime() : sprime(4); V x; U f = su("a", 2, p, big ? -2 : 0, big ? 2 : p - 1, &x); int64_t k = sx_int("k", big ? -3 : 0, big ? 3 : p - 1); Zp kk(k, p); D A(f, p); A.scalar_mul(kk.number()); canon(A, p, "scalar product is canonical"); V e = x; for (auto &c : e) c *= toZ(ZZ((long)k)); eqv(toV(A), e, p, "scalar product"); sx_reach("scalar"); }
// Karatsuba: concrete pseudo-random coefficients with symbolic ones at solver-chosen places
static void kara(int la, int lb, uint64_t p, int64_t lo, int64_t hi) {
  V x(la), y(lb); U f, g; int i0 = sx_choice("i", 3), j0 = sx_choice("j", 3); int ip[3] = {0, la / 2, la - 1}, jp[3] = {0, lb / 2, lb - 1}; int64_t c = sx_int("c", lo, hi), d = sx_int("d", lo, hi); uint64_t s = 12345;
  auto nx = [&]() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (s >> 20) % p; };
  for (int i = la - 1; i >= 0; --i) { Zp z(p); if (i == ip[i0]) { z = Zp(c, p); x[i] = toZ(ZZ((long)c)); } else { z = Zp(nx(), p); x[i] = um(z.number()); } if (z.number()) f.push_back({umonomial(i), z}); }
  for (int i = lb - 1; i >= 0; --i) { Zp z(p); if (i == jp[j0]) { z = Zp(d, p); y[i] = toZ(ZZ((long)d)); } else { z = Zp(nx(), p); y[i] = um(z.number()); } if (z.number()) g.push_back({umonomial(i), z}); }
  D A(f, p), B(g, p), C(p); D::mul(C, A, B); canon(C, p, "product is canonical"); eqv(toV(C), vmul(x, y), p, "product"); sx_reach("karatsuba");
}
SX_HARNESS(dn_kara16) { kara(16, 16, 7, 0, 6); }
SX_HARNESS(dn_kara17) { kara(17, 5, 5, 0, 4); }
SX_HARNESS(dn_kara33) { kara(33, 20, 3, 0, 2); }
SX_HARNESS(dn_kara_big) { kara(19, 18, BP[2], -1, 1); }
static void divr(uint64_t p, const U &f, const V &x, const U &g, const V &y) {
  D A(f, p), B(g, p), Q(p), R(p); if (B.empty()) return; D::divrem(Q, R, A, B); canon(Q, p, "quotient is canonical"); canon(R, p, "remainder is canonical"); eqv(vadd(vmul(toV(Q), y), toV(R)), x, p, "A = Q*B + R"); sx_check(R.deg() < B.deg(), "degree of the remainder");
  D Q2 = A, R2(p); D::divrem(Q2, R2, Q2, B); eqv(toV(Q2), toV(Q), p, "quotient in place"); eqv(toV(R2), toV(R), p, "remainder in place"); D Q3(p), R3 = B; D::divrem(Q3, R3, A, R3); eqv(toV(Q3), toV(Q), p, "quotient, divisor overwritten"); eqv(toV(R3), toV(R), p, "remainder, divisor overwritten");
  if (!R.empty()) sx_reach("remainder"); if (R.empty() && !Q.empty()) sx_reach("exact");
}
SX_HARNESS(dn_div_23) { uint64_t p = sprime(2); V x, y; U f = su("a", 3, p, 0, p - 1, &x), g = su("b", 2, p, 0, p - 1, &y); divr(p, f, x, g, y); }
SX_HARNESS(dn_div_57) { uint64_t p = SP[2 + sx_choice("p", 2)]; V x, y; U f = su("a", 2, p, 0, p - 1, &x), g = su("b", 1, p, 0, p - 1, &y); divr(p, f, x, g, y); }
SX_HARNESS(dn_div_big) { uint64_t p = bprime(); V x, y; U f = su("a", 2, p, -1, 1, &x), g = su("b", 1, p, -2, 2, &y); divr(p, f, x, g, y); }
SX_HARNESS(dn_div_long) { // many lazily accumulated steps
  uint64_t p = BP[2]; V x(9), y(3); U f, g; int64_t c = sx_int("c", -2, 2), d = sx_int("d", -2, 2), l = sx_int("l", 1, 2); for (int i = 8; i >= 0; --i) { int64_t u = i == 4 ? c : -1 - (i & 1); x[i] = toZ(ZZ((long)u)); Zp z(u, p); if (z.number()) f.push_back({umonomial(i), z}); } for (int i = 2; i >= 0; --i) { int64_t u = i == 2 ? -l : i == 1 ? d : 1; y[i] = toZ(ZZ((long)u)); Zp z(u, p); if (z.number()) g.push_back({umonomial(i), z}); } divr(p, f, x, g, y);
}
// ---- sparse univariate division over a field through the generic routine
SX_HARNESS(us_div) { uint64_t p = sprime(3); V x, y; U f = su("a", 2, p, 0, p - 1, &x), g = su("b", 1, p, 0, p - 1, &y); if (g.empty()) return; U q, r; pair_vec_div(q.data(), r.data(), f.data(), g.data(), f.comp()); canon(q, p, "quotient is canonical"); canon(r, p, "remainder is canonical"); eqv(vadd(vmul(toV(q), y), toV(r)), x, p, "A = Q*B + R"); sx_check(r.empty() || get_deg(r) < get_deg(g), "degree of the remainder"); sx_reach("sparse"); }

// ================= gcd =================
static void gcdck(uint64_t p, const U &f, const V &x, const U &g, const V &y) {
  D A(f, p), B(g, p), G(p), Q(p), R(p); D::gcd(G, A, B); canon(G, p, "gcd is canonical");
  if (A.empty() && B.empty()) { sx_check(G.empty(), "gcd(0,0)"); U u = polynomial_GCD(f, g); sx_check(u.empty(), "sparse gcd(0,0)"); sx_reach("both zero"); return; }
  sx_check(!G.empty(), "gcd is not zero"); if (G.empty()) return;
  D::divrem(Q, R, A, G); sx_check(R.empty(), "gcd divides A"); eqv(vmul(toV(Q), toV(G)), x, p, "A = Q*gcd"); D::divrem(Q, R, B, G); sx_check(R.empty(), "gcd divides B"); eqv(vmul(toV(Q), toV(G)), y, p, "B = Q*gcd");
  U u = polynomial_GCD(f, g); canon(u, p, "gcd is canonical"); sx_check(!u.empty() && u.front().second.number() == 1, "gcd is monic"); sx_check(get_deg(u) == G.deg(), "dense and sparse gcd have the same degree"); V gv = toV(G), uv = toV(u), lu; for (auto &c : uv) lu.push_back(c * um(G.lead())); eqv(lu, gv, p, "dense and sparse gcd agree");
  U u2 = polynomial_GCD(g, f); eqv(toV(u2), uv, p, "gcd is symmetric");
  if (f.empty() || g.empty()) { sx_reach("one zero"); return; }
  U s, t, e = polynomial_GCD(f, g, s, t); canon(e, p, "extended gcd is canonical"); canon(s, p, "cofactor is canonical"); canon(t, p, "cofactor is canonical"); eqv(toV(e), uv, p, "extended gcd agrees"); eqv(vadd(vmul(toV(s), x), vmul(toV(t), y)), toV(e), p, "s*A + t*B = gcd");
  if (get_deg(e) > 0) sx_reach("common factor"); else sx_reach("coprime");
}
SX_HARNESS(gcd_2) { uint64_t p = 2; V x, y; U f = su("a", 4, p, 0, 1, &x), g = su("b", 3, p, 0, 1, &y); gcdck(p, f, x, g, y); }
SX_HARNESS(gcd_3) { uint64_t p = 3; V x, y; U f = su("a", 3, p, 0, 2, &x), g = su("b", 2, p, 0, 2, &y); gcdck(p, f, x, g, y); }
SX_HARNESS(gcd_5) { uint64_t p = 5; V x, y; U f = su("a", 2, p, 0, 4, &x), g = su("b", 1, p, 0, 4, &y); gcdck(p, f, x, g, y); }
SX_HARNESS(gcd_7) { uint64_t p = 7; V x, y; U f = su("a", 1, p, 0, 6, &x), g = su("b", 1, p, 0, 6, &y); gcdck(p, f, x, g, y); }
SX_HARNESS(gcd_big) { uint64_t p = bprime(); V x, y; U f = su("a", 2, p, -1, 1, &x), g = su("b", 1, p, -2, 2, &y); gcdck(p, f, x, g, y); }
// (h * u, h * v) with a planted common factor
SX_HARNESS(gcd_planted) { uint64_t p = SP[1 + sx_choice("p", 2)]; V h, u, v; su("h", 1, p, 0, p - 1, &h); su("u", 1, p, 0, p - 1, &u); su("v", 1, p, 0, 1, &v); V x = vmul(h, u), y = vmul(h, v); auto mk = [&](const V &w) { U f; for (int i = (int)w.size() - 1; i >= 0; --i) { Zp z(fromZ(w[i]), p); if (z.number()) f.push_back({umonomial(i), z}); } return f; }; gcdck(p, mk(x), x, mk(y), y); }
// degree gaps
SX_HARNESS(gcd_gap) { uint64_t p = SP[1 + sx_choice("p", 2)]; int da = 5 + sx_choice("da", 2), db = 2 + sx_choice("db", 3); V x(da + 1), y(db + 1); U f, g; int64_t a0 = sx_int("a0", 0, p - 1), a1 = sx_int("a1", 0, p - 1), b0 = sx_int("b0", 0, p - 1), b1 = sx_int("b1", 0, p - 1); x[da] = 1; x[1] = a1; x[0] = a0; y[db] = 2; y[1] = b1; y[0] = b0; x[1] = toZ(ZZ((long)a1)); x[0] = toZ(ZZ((long)a0)); y[1] = toZ(ZZ((long)b1)); y[0] = toZ(ZZ((long)b0)); auto mk = [&](const V &w) { U r; for (int i = (int)w.size() - 1; i >= 0; --i) { Zp z(fromZ(w[i]), p); if (z.number()) r.push_back({umonomial(i), z}); } return r; }; gcdck(p, mk(x), x, mk(y), y); }
// the half-gcd routine called directly on short inputs (gcd() itself selects it from 340 coefficients on)
static void hg(int la, int lb, int lh, uint64_t p, int ns, uint64_t s = 777, int sparse = 0) {
  auto nx = [&]() -> uint64_t { s = s * 6364136223846793005ull + 1442695040888963407ull; if (sparse && (s >> 40) % sparse) return 0; return (s >> 20) % p; };
  auto rnd = [&](int n) { V v(n); for (auto &c : v) c = um(nx()); if (n) v[n - 1] = 1; return v; };
  V h = rnd(lh), u = rnd(la - lh + 1), v = rnd(lb - lh + 1); for (int i = 0; i < ns; ++i) { u[i * (int)(u.size() - 1) / std::max(1, ns)] = toZ(ZZ((long)sx_int(nm("u", i).c_str(), 0, p - 1))); v[(i + 1) * (int)(v.size() - 1) / (ns + 1)] = toZ(ZZ((long)sx_int(nm("v", i).c_str(), 0, p - 1))); }
  auto mk = [&](const V &w) { U r; for (int i = (int)w.size() - 1; i >= 0; --i) { Zp z(fromZ(w[i]), p); if (z.number()) r.push_back({umonomial(i), z}); } return r; };
  V x = vmul(h, u), y = vmul(h, v); D A(mk(x), p), B(mk(y), p); sx_assume(A.size() >= B.size() && B.size() >= 2);
  std::vector<uint64_t> a(A.size()), b(B.size()), g(A.size() + 8, 0); for (size_t i = 0; i < A.size(); ++i) a[i] = A[i]; for (size_t i = 0; i < B.size(); ++i) b[i] = B[i]; size_t lg = 0; A._gcd_hgcd(g.data(), lg, a.data(), a.size(), b.data(), b.size());
  D E(p); D::gcd(E, A, B); sx_check(lg == E.size(), "half-gcd has the degree of the gcd"); if (lg != E.size()) return; sx_check(lg > 0 && g[lg - 1] != 0, "half-gcd is canonical"); V gv(lg), ev = toV(E); for (size_t i = 0; i < lg; ++i) { sx_check(g[i] < p, "half-gcd is reduced"); gv[i] = um(g[i]) * um(E.lead()); ev[i] *= um(g[lg - 1]); } eqv(gv, ev, p, "half-gcd agrees with the Euclidean gcd"); sx_reach("half-gcd");
}
SX_HARNESS(hgcd_small) { hg(8, 7, 1 + sx_choice("h", 3), 3, 2); }
SX_HARNESS(hgcd_mid) { hg(20, 17, 1 + 3 * sx_choice("h", 3), 5, 1); }
SX_HARNESS(hgcd_rec) { hg(210, 205, 1 + 40 * sx_choice("h", 2), 3, 1); }
// sparse operands: zero coefficients in the tails of the intermediate products
SX_HARNESS(hgcd_sparse) { int k = sx_choice("k", 12); hg(12 + 3 * k, 11 + 2 * k, 1 + k % 4, k % 2 ? 3 : 2, 2, 100 + k, 4); }
SX_HARNESS(hgcd_sparse2) { int k = sx_choice("k", 10); hg(40 + 6 * k, 38 + 6 * k - k % 3, 1 + 3 * (k % 4), k % 2 ? 5 : 3, 1, 900 + k, 6); }
SX_HARNESS(hgcd_gap) { int k = sx_choice("k", 8); hg(60 + 7 * k, 33 + 7 * k, 1 + 5 * (k % 3), k % 2 ? 3 : 7, 1, 500 + k, k % 3 ? 5 : 0); }
// through the public entry point, long enough for the half-gcd to be selected
static void pub(int la, int lb, int lh, uint64_t p, uint64_t s, int sparse) {
  auto nx = [&]() -> uint64_t { s = s * 6364136223846793005ull + 1442695040888963407ull; if (sparse && (s >> 40) % sparse) return 0; return (s >> 20) % p; };
  typedef std::vector<uint64_t> W; auto rnd = [&](int n) { W v(n); for (auto &c : v) c = nx(); v[n - 1] = 1; return v; }; W h = rnd(lh), u = rnd(la - lh + 1), v = rnd(lb - lh + 1);
  uint64_t c = sx_int("c", 0, p - 1), d = sx_int("d", 0, p - 1); u[u.size() / 3] = c; v[v.size() / 2] = d; auto mul = [&](const W &a, const W &b) { W r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) if (a[i]) for (size_t j = 0; j < b.size(); ++j) r[i + j] = (r[i + j] + a[i] * b[j]) % p; return r; };
  W x = mul(h, u), y = mul(h, v); auto mk = [&](const W &w) { U r; for (int i = (int)w.size() - 1; i >= 0; --i) { Zp z((int64_t)w[i], p); if (z.number()) r.push_back({umonomial(i), z}); } return r; };
  D A(mk(x), p), B(mk(y), p), G(p); D::gcd(G, A, B); W g(G.size()); for (size_t i = 0; i < g.size(); ++i) g[i] = G[i];
  // the common factor found divides both (remainder of schoolbook division), has at least the planted degree, and is reduced
  sx_check(!g.empty() && g.back() != 0, "gcd is canonical"); if (g.empty()) return; for (auto &z : g) sx_check(z < p, "gcd is reduced"); sx_check((int)g.size() >= lh, "gcd contains the planted factor"); auto rem = [&](W a) { uint64_t iv = 1; while (iv * g.back() % p != 1) ++iv; for (size_t i = a.size(); i-- > 0 && i + 1 >= g.size();) { uint64_t q = a[i] * iv % p; if (q) for (size_t j = 0; j < g.size(); ++j) a[i + 1 - g.size() + j] = (a[i + 1 - g.size() + j] + (p - q) * g[j]) % p; } return a; };
  for (auto &z : rem(x)) sx_check(z == 0, "gcd divides the first argument"); for (auto &z : rem(y)) sx_check(z == 0, "gcd divides the second argument"); sx_reach("half-gcd");
}
SX_HARNESS(hgcd_public) { int k = sx_choice("k", 24); pub(400 + 17 * k, 380 + 15 * k, 5 + 9 * (k % 5), k % 3 == 0 ? 5 : k % 3 == 1 ? 3 : 2, 40 + k, k % 2 ? 5 : 0); }
SX_HARNESS(hgcd_public_gap) { int k = sx_choice("k", 16); pub(360 + 23 * k, 345 + 3 * k, 4 + 11 * (k % 4), k % 2 ? 3 : 7, 140 + k, k % 3 ? 9 : 0); }
