// Univariate factorisation over the integers and rationals, and Hensel lifting.  Inputs are products of solver-chosen
// polynomials; a factor g is irreducible when it divides d or e for every way d*e of writing the input as a product.
#include "fac.hh"
static RP up(const char *n, int deg, int c, int l) { RP r; for (int i = 0; i <= deg; ++i) r.c[{(int64_t)i}] += toZ(szz(nm(n, i), i == deg ? 1 : -c, i == deg ? l : c)); return r; }
SX_HARNESS(fu_11) { vars({"x"}); two<U>(up("d", 1, 6, 4), up("e", 1, 6, 3)); }
SX_HARNESS(fu_22) { vars({"x"}); two<U>(up("d", 2, 2, 2), up("e", 2, 2, wd(1, 2))); }
SX_HARNESS(fu_22m) { vars({"x"}); two<U>(up("d", 2, 3, 1), up("e", 2, wd(3, 5), 1)); }
SX_HARNESS(fu_31) { vars({"x"}); two<U>(up("d", 3, wd(1, 2), 2), up("e", 1, 3, 2)); }
SX_HARNESS(fu_33) { vars({"x"}); two<U>(up("d", 3, 1, 2), up("e", 3, wd(1, 2), 1)); }
SX_HARNESS(fu_42) { vars({"x"}); two<U>(up("d", 4, 1, 1), up("e", 2, wd(1, 2), 1)); }
SX_HARNESS(fu_44) { vars({"x"}); RP d = up("d", 4, 1, 1), e = up("e", 4, 1, 1); d.c[{1}] = 0; two<U>(d, e); }
SX_HARNESS(fu_222) { vars({"x"}); RP a = up("a", 2, 1, 1), b = up("b", 2, 1, 1), c = up("c", 2, 1, 1); RP f = rmul(rmul(a, b), c); facck<U>(f, {a, b, c}, fromR<U>(f)); }
SX_HARNESS(fu_mult) { vars({"x"}); two<U>(up("d", 1, 2, 2), up("e", 1, 2, 1), 1 + sx_choice("a", 3), 1 + sx_choice("b", 2), toZ(szz("k", -2, 2)) * 3 + 1); }
SX_HARNESS(fu_lex) { vars({"x"}); two<PL>(up("d", 2, 1, 2), up("e", 1, 2, 2), 1, 1 + sx_choice("b", 2), Z(-2)); }
SX_HARNESS(fu_grlex) { vars({"x"}); two<PG>(up("d", 2, 1, 2), up("e", 1, 1, 2), 1 + sx_choice("b", 2), 1, Z(-2)); }
SX_HARNESS(fu_all4) { vars({"x"}); RP f; for (int i = 0; i <= 4; ++i) f.c[{(int64_t)i}] += toZ(szz(nm("f", i), i == 4 ? 0 : -2, 2));
  facck<U>(f, {f}, fromR<U>(f)); }
// constants, zero, single terms
template <class P> static void small() { vars({"x"}); RP f; int64_t n = sx_choice("n", 4); Z c = toZ(szz("c", -12, 12)); f.c[{n}] = c; RP x; x.c[{1}] = 1; P p = fromR<P>(f); auto R = factorize(p); eqz(toZ(R.content), c, "content of a single term"); sx_check(R.factors.size() == (isz(c) || n == 0 ? 0u : 1u), "factors of a single term"); if (!R.factors.empty()) { eqr(clean(toR(R.factors[0].first)), x, "the factor is x"); sx_check(R.factors[0].second == (uint64_t)n, "multiplicity"); sx_reach("term"); } else sx_reach("constant"); }
SX_HARNESS(fu_small) { small<U>(); } SX_HARNESS(fu_small_lex) { small<PL>(); }
// polynomials with many factors modulo every prime
static RP xn(int n, const Z &c) { RP r; r.c[{(int64_t)n}] = 1; r.c[{0}] += c; return r; }
SX_HARNESS(fu_binom) { vars({"x"}); static const int N[] = {4, 6, 8}; int n = N[sx_choice("n", 3)]; Z c = toZ(szz("c", 1, wd(16, 64))); int s = sx_choice("s", 2); RP f = xn(n, s ? c : -c); auto G = facck<U>(f, {f}, fromR<U>(f));
  // x^n - c splits as its subfields say: every factorisation d*e of x^n -+ c (binomials in x^(n/2), x^(n/3); Sophie Germain)
  Z r; mpz_sqrt(r.get_mpz_t(), c.get_mpz_t()); std::vector<RP> D; if (!s && isz(r * r - c)) { D.push_back(xn(n / 2, r)); D.push_back(xn(n / 2, -r)); } if (s && n % 4 == 0) for (long k = 1; k <= 4; ++k) if (isz(c - 4 * k * k * k * k)) for (int t = -1; t <= 1; t += 2) { RP q = xn(n / 2, Z(2 * k * k)); q.c[{(int64_t)n / 4}] += 2 * k * t; D.push_back(q); } if (n % 3 == 0) for (long k = 1; k <= 3; ++k) if (isz(c - k * k * k)) { int t = s ? 1 : -1; RP q = xn(n / 3, Z(k * t)), w = xn(2 * n / 3, Z(k * k)); w.c[{(int64_t)n / 3}] -= k * t; D.push_back(q); D.push_back(w); }
  size_t want = D.empty() ? 1 : 2; sx_check(G.size() >= want, "known splittings are found"); for (auto &g : G) { bool d = D.empty(); for (auto &q : D) d |= divides(g, q); sx_check(d, "factors divide the known parts"); } if (D.empty()) sx_reach("irreducible"); else sx_reach("splits"); }
// Swinnerton-Dyer: minimal polynomial of sqrt(a)+sqrt(b)
SX_HARNESS(fu_sd) { vars({"x"}); Z a = toZ(szz("a", -3, wd(12, 25))), b = toZ(szz("b", -3, wd(12, 25))); RP f; f.c[{4}] = 1; f.c[{2}] = (a + b) * -2; f.c[{0}] = (a - b) * (a - b); sx_assume(!isz(a - b) && !isz(a) && !isz(b)); auto sq = [](const Z &v) { if (v < 0) return false; Z r; mpz_sqrt(r.get_mpz_t(), v.get_mpz_t()); Z q = r * r; return isz(q - v); }; bool irr = !sq(a) && !sq(b) && !sq(a * b); auto R = factorize(fromR<U>(f)); RP pr = rconst(toZ(R.content)); size_t n = 0; for (auto &x : R.factors) { n += x.second; for (uint64_t i = 0; i < x.second; ++i) pr = rmul(pr, toR(x.first)); } eqr(pr, f, "product"); sx_check((n == 1) == irr, "irreducible exactly when the roots are independent"); if (irr) sx_reach("irreducible"); else sx_reach("splits"); }
// products of linear factors: many lifted factors
SX_HARNESS(fu_lin) { vars({"x"}); int n = 3 + sx_choice("n", 2); RP f = rconst(1); std::vector<RP> D; for (int i = 0; i < n; ++i) { RP l; l.c[{1}] = i == 0 ? toZ(szz("l", 1, 2)) : Z(1); l.c[{0}] = toZ(szz(nm("r", i), i < 2 ? -2 : 3 * i, i < 2 ? 2 : 3 * i + 1)); D.push_back(l); f = rmul(f, l); } facck<U>(f, D, fromR<U>(f)); }
// coefficients of many words
SX_HARNESS(fu_big) { vars({"x"}); static const char *K[] = {"18446744073709551557", "340282366920938463463374607431768211507"}; Z b(K[sx_choice("k", 2)]); RP d, e; d.c[{2}] = 1; d.c[{1}] = toZ(szz("d1", -1, 1)); d.c[{0}] = b + toZ(szz("d0", -1, 1)); e.c[{2}] = 1 + sx_choice("m", 2); e.c[{1}] = b; e.c[{0}] = toZ(szz("e0", 1, 2)); two<U>(d, e); }
// rational coefficients
template <class P> static void qfac(const RP &d, const RP &e, int a, const Z &den) {
  sx_assume(!rzero(d) && !rzero(e)); RP f = rmul(rpow(d, a), e); P p; for (auto &x : f.c) p.push_back({monoOf<typename P::first_type>(x.first), QQ(fromZ(x.second), fromZ(den))}); p.normalization(); auto R = factorize(p); GR = std::is_same_v<P, QG>;
  // everything over one denominator
  RP pr = rconst(toZ(R.content.get_num())); Z D = toZ(R.content.get_den()); std::vector<RP> G;
  for (auto &x : R.factors) { canonP(x.first, "factor is canonical"); sx_check(x.second > 0 && !x.first.empty(), "factor"); if (x.first.empty()) return; Z l = 1; for (auto &t : x.first) { Z n = toZ(t.second.get_den()); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), n.get_mpz_t()); } RP g; for (auto &t : x.first) { Z v = toZ(t.second.get_num()) * l; Z n = toZ(t.second.get_den()); Z w; mpz_divexact(w.get_mpz_t(), v.get_mpz_t(), n.get_mpz_t()); g.c[exOf(t.first)] += w; } g = clean(g); bool cst = true; for (auto &t : g.c) if (tot(t.first) > 0) cst = false; sx_check(!cst, "factors have positive degree"); for (uint64_t i = 0; i < x.second; ++i) { pr = rmul(pr, g); D = D * l; } sx_check(x.first.front().second == 1, "factors are monic"); G.push_back(g); sx_check(divides(g, clean(d)) || divides(g, clean(e)), "factors are irreducible"); }
  eqr(rscale(pr, den), rscale(f, D), "content times factors is the input"); if (R.factors.size() > 1) sx_reach("several factors"); else sx_reach("one factor");
}
SX_HARNESS(fq_uni) { vars({"x"}); qfac<QL>(up("d", 2, 1, 2), up("e", 1, 2, 2), 1, Z(1 + sx_choice("k", 4))); }
SX_HARNESS(fq_grlex) { vars({"x"}); qfac<QG>(up("d", 1, 2, 3), up("e", 1, 2, 2), 1 + sx_choice("a", 2), Z(sx_choice("k", 4) * 2 - 5)); }
SX_HARNESS(fq_multi) { vars({"y", "x"}); std::reverse(VS.begin(), VS.end()); qfac<QL>(par("d", {{{2, 0}, -1}, {{0, 1}, 2}, {{0, 0}, 1}}), par("e", {{{1, 0}, -2}, {{0, 1}, 1}, {{0, 0}, 2}}), 1, Z(6)); }
SX_HARNESS(fq_multi_gr) { vars({"y", "x"}); qfac<QG>(par("d", {{{1, 1}, 1}, {{0, 1}, 2}, {{0, 0}, -1}}), par("e", {{{2, 0}, -2}, {{0, 1}, 2}, {{0, 0}, 1}}), 1, Z(-4)); }
SX_HARNESS(fq_small) { vars({"x"}); QL p; Z n = toZ(szz("n", -6, 6)); long d = 1 + sx_choice("d", 5); int k = sx_choice("k", 3); if (!isz(n)) p.push_back({monoOf<QL::first_type>({k}), QQ(fromZ(n), ZZ(d))}); auto R = factorize(p); Z l = toZ(R.content.get_num()) * d, r = n * toZ(R.content.get_den()); eqz(l, r, "content of a single term"); sx_check(R.factors.size() == (isz(n) || k == 0 ? 0u : 1u), "factors of a single term"); if (!R.factors.empty()) sx_reach("term"); else sx_reach("constant"); }
// Hensel lifting
static Z fr(const Z &a, const Z &m) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static Z ind(const RP &a, int64_t k) { auto it = a.c.find({k}); return it == a.c.end() ? Z(0) : it->second; }
static upolynomial_<Zp> toZp(const RP &a, uint64_t p) { upolynomial_<Zp> r; for (auto it = a.c.rbegin(); it != a.c.rend(); ++it) { Z v = fr(it->second, Z((unsigned long)p)); if (!isz(v)) r.push_back({umonomial(it->first[0]), Zp(fromZ(v), p)}); } return r; }
static RP mod1(const char *n, int deg, long p) { RP r; for (int i = 0; i < deg; ++i) r.c[{(int64_t)i}] = toZ(szz(nm(n, i), 0, p - 1)); r.c[{(int64_t)deg}] = 1; return r; }
static void coprimeP(const RP &a, const RP &b, const Z &p) { RP r = rres(a, b, 0); Z v = 0; for (auto &x : r.c) v += x.second; sx_assume(!isz(fr(v, p))); }
static void liftck(const std::vector<RP> &G, const Z &lc, const RP &E, long p, int a) {
  Z P = p; for (size_t i = 0; i < G.size(); ++i) for (size_t j = 0; j < i; ++j) coprimeP(G[i], G[j], P); RP f = rconst(lc); for (auto &g : G) f = rmul(f, g); f = radd(f, rscale(E, P)); std::vector<upolynomial_<Zp>> F; for (auto &g : G) F.push_back(toZp(g, p)); U u = fromR<U>(f);
  auto R = __hensel_lift(u, F, p, a); Z m = toZ(R.second), q = 1; if (a) { for (int i = 0; i < a; ++i) q = q * P; sx_check(m >= q, "requested precision is reached"); } else { Z s = 0, b; for (auto &x : f.c) s += x.second * x.second; mpz_sqrt(b.get_mpz_t(), s.get_mpz_t()); sx_check(m > b * lc * 2, "precision exceeds the coefficient bound"); }
  Z t = m; int g = 0; while (g++ < 200 && t > 1 && isz(fr(t, P))) { Z w; mpz_divexact(w.get_mpz_t(), t.get_mpz_t(), P.get_mpz_t()); t = w; } eqz(t, Z(1), "modulus is a power of the prime");
  sx_check(R.first.size() == G.size(), "one lifted factor per factor"); if (R.first.size() != G.size()) return; RP pr = rconst(lc); for (size_t i = 0; i < G.size(); ++i) { canonP(R.first[i], "lifted factor is canonical"); RP h = toR(R.first[i]); for (auto &x : h.c) sx_check(x.second >= 0 && x.second < m, "coefficients are residues"); sx_check(rdeg(h, 0) == rdeg(G[i], 0), "degrees are kept"); eqz(ind(h, rdeg(G[i], 0)), Z(1), "lifted factors are monic"); eqrmod(h, G[i], P, "lifted factors reduce to the initial ones"); pr = rmul(pr, h); } eqrmod(pr, f, m, "the product is the input modulo the prime power"); sx_reach("lifted");
}
static RP err(const char *n, int deg, int c) { RP r; for (int i = 0; i < deg; ++i) r.c[{(int64_t)i}] = toZ(szz(nm(n, i), -c, c)); return r; }
SX_HARNESS(hl_2) { vars({"x"}); liftck({mod1("g", 1, 3), mod1("h", 1, 3)}, Z(1), err("e", 2, wd(4, 10)), 3, 1 + sx_choice("a", 5)); }
SX_HARNESS(hl_2lc) { vars({"x"}); liftck({mod1("g", 1, 3), mod1("h", 2, 2)}, toZ(szz("l", 1, 2)), err("e", 3, 1), 3, 2 + sx_choice("a", 2)); }
SX_HARNESS(hl_3) { vars({"x"}); liftck({mod1("g", 1, 5), mod1("h", 1, 5), mod1("k", 1, 5)}, Z(1 + sx_choice("l", 2)), err("e", 2, 1), 5, sx_choice("a", 3) * 2); }
SX_HARNESS(hl_4) { vars({"x"}); RP a, b, c, d; int t = sx_choice("t", 3); a.c[{0}] = t; b.c[{0}] = t + 1; c.c[{0}] = t + 2; d.c[{0}] = t + 3; for (RP *q : {&a, &b, &c, &d}) q->c[{1}] = 1; liftck({a, b, c, d}, Z(1 + sx_choice("l", 3)), err("e", 4, 1), 7, sx_choice("a", 4)); }
SX_HARNESS(hl_5) { vars({"x"}); std::vector<RP> G; for (int i = 0; i < 5; ++i) { RP a; a.c[{0}] = i * 2; a.c[{1}] = 1; G.push_back(a); } liftck(G, toZ(szz("l", 1, 2)), err("e", 3, 2), 11, sx_choice("a", 4)); }
SX_HARNESS(hl_bin) { vars({"x"}); liftck({mod1("g", 1, 2), mod1("h", 2, 2)}, toZ(szz("l", 0, 2)) * 2 + 1, err("e", 3, 2), 2, sx_choice("a", 6)); }
// linear lifting steps
SX_HARNESS(hl_linear) { vars({"x"}); long p = 5; std::vector<RP> G{mod1("g", 1, 5), mod1("h", 1, 5)}; RP k; k.c[{0}] = toZ(szz("k", 0, 1)); k.c[{1}] = 0; k.c[{2}] = 1; G.push_back(k); Z P = p; for (size_t i = 0; i < G.size(); ++i) for (size_t j = 0; j < i; ++j) coprimeP(G[i], G[j], P); RP f = rconst(1); for (auto &g : G) f = rmul(f, g); f = radd(f, rscale(err("e", 2, 2), P)); std::vector<upolynomial_<Zp>> F; for (auto &g : G) F.push_back(toZp(g, p)); U u = fromR<U>(f); auto N = __hensel_tree_build(F, p); ZZ m(p); for (int s = 0; s < 3; ++s) { __hensel_lift_linear_recursive(N, 0, u, m, p); m = m * ZZ(p); std::vector<U> O; __hensel_extract_factors(N, 0, O); sx_check(O.size() == 3, "three factors"); if (O.size() != 3) return; RP pr = rconst(1); for (int i = 0; i < 3; ++i) { RP h = toR(O[i]); eqrmod(h, G[i], P, "lifted factors reduce to the initial ones"); sx_check(rdeg(h, 0) == rdeg(G[i], 0), "degrees are kept"); pr = rmul(pr, h); } eqrmod(pr, f, toZ(m), "the product is the input modulo the prime power"); } sx_reach("lifted"); }
// bounds used by the lifting
SX_HARNESS(hl_bounds) { vars({"x"}); Z n = toZ(szz("n", 0, 2000)); Z r = toZ(__isqrt_ceil(fromZ(n))); sx_check(r * r >= n, "square root bound is an upper bound"); sx_check(isz(n) || (r - 1) * (r - 1) < n, "square root bound is tight"); sx_reach("root"); }
SX_HARNESS(hl_sym) { vars({"x"}); Z a = toZ(szz("a", -60, 60)), m = toZ(szz("m", 1, 13)); Z r = toZ(__symmetric_mod(fromZ(a), fromZ(m))); eqz(fr(a - r, m), Z(0), "symmetric residue is congruent"); sx_check(r * 2 <= m && r * 2 > -m, "symmetric residue lies in (-m/2, m/2]"); sx_reach("residue"); }
