// Multivariate Hensel lifting: Taylor coefficients, Vandermonde systems, Diophantine equations over prime fields, leading
// coefficient distribution and the lifts themselves, on products of solver-chosen polynomials.
#include "fac.hh"
typedef polynomial_<Zp, lex> PZ; typedef upolynomial_<Zp> UZ;
static PZ zpoly(const RP &r, uint64_t p) { PZ f; for (auto &x : r.c) { Zp c(fromZ(x.second), p); if (c.number()) f.push_back({monoOf<basic_monomial<lex>>(x.first), c}); } f.normalization(); return f; }
static UZ zupoly(const RP &r, uint64_t p) { UZ f; for (auto &x : r.c) { Zp c(fromZ(x.second), p); if (c.number()) f.push_back({umonomial(x.first[0]), c}); } f.normalization(); return f; }
static U upoly(const RP &r) { U f; for (auto &x : r.c) f.push_back({umonomial(x.first[0]), fromZ(x.second)}); f.normalization(); return f; }
static void can(const UZ &f, uint64_t p, const char *m) { canonP(f, m); for (auto &t : f) sx_check(t.second.prime() == p && t.second.number() < p, m); }
static void can(const PZ &f, uint64_t p, const char *m) { canonP(f, m); for (auto &t : f) sx_check(t.second.prime() == p && t.second.number() < p, m); }
static RP rmodp(const RP &a, long p) { RP r; for (auto &x : a.c) { Z v; mpz_fdiv_r_ui(v.get_mpz_t(), x.second.get_mpz_t(), p); if (!isz(v)) r.c[x.first] = v; } return r; }
static bool copr(const RP &a, const RP &b, long p) { RP r = rres(a, b, 0); Z v = 0; for (auto &x : r.c) v += x.second; mpz_fdiv_r_ui(v.get_mpz_t(), v.get_mpz_t(), p); return !isz(v); }
static RP prodx(const std::vector<RP> &F, size_t skip) { RP r = rconst(1); for (size_t l = 0; l < F.size(); ++l) if (l != skip) r = rmul(r, F[l]); return r; }
static RP lin(int v, const Z &a) { return radd(rvar(v), rconst(a), -1); }
// sum_j c_j (x_k - a)^j = f
static void tay(bool zp) { vars({"x", "y"}); static const std::vector<Ex> S = {{0, 0}, {1, 1}, {0, 2}, {2, 1}, {1, 3}}; long p = zp ? 7 : 0; RP r = rgen("c", S, zp ? 5 : -wd(5, 50), zp ? wd(6, 9) : wd(5, 50)); int64_t a = sx_value(sx_int("a", zp ? 0 : -3, zp ? wd(3, 6) : 3)); int k = sx_choice("k", 2); RP s; RP pw = rconst(1), l = lin(k, Z((long)a)); for (int j = 0; j <= 4; ++j) { RP c; if (zp) { PZ t = __taylor_coeff_zp(zpoly(r, p), VS[k], Zp(a, p), j); can(t, p, "coefficient is canonical"); c = toR(t); } else { PL t = __taylor_coeff(fromR<PL>(r), VS[k], ZZ(a), j); canonP(t, "coefficient is canonical"); c = toR(t); } sx_check(rdeg(c, k) <= 0, "the variable is eliminated"); s = radd(s, rmul(c, pw)); pw = rmul(pw, l); } if (zp) eqrmod(s, r, p, "the expansion is the polynomial"); else eqr(s, r, "the expansion is the polynomial"); sx_reach("expanded"); }
SX_HARNESS(lf_taylor) { tay(false); }
SX_HARNESS(lf_taylor_zp) { tay(true); }
// sum_t c_t theta_t^l = v_l for l = 1..s
SX_HARNESS(lf_vander) { static const long P[3] = {3, 5, 7}; long p = P[sx_choice("p", 3)]; int s = 1 + sx_choice("s", p == 7 ? 2 : 3); std::vector<Zp> v, th, c; std::vector<int64_t> tv, vv; for (int i = 0; i < s; ++i) { tv.push_back(sx_value(sx_int(nm("t", i).c_str(), 0, p - 1))); vv.push_back(sx_int(nm("v", i).c_str(), 0, p - 1)); th.push_back(Zp(tv[i], p)); v.push_back(Zp(vv[i], p)); } bool ok = __si_vandermonde_solve(v, th, c); bool reg = true; for (int i = 0; i < s; ++i) { if (tv[i] == 0) reg = false; for (int j = 0; j < i; ++j) if (tv[i] == tv[j]) reg = false; } if (!reg) { sx_check(!ok, "nodes that are not distinct and nonzero are reported"); sx_reach("singular"); return; } sx_check(ok && (int)c.size() == s, "distinct nonzero nodes are solved"); if (!ok) return; for (int l = 1; l <= s; ++l) { Z w = 0; for (int t = 0; t < s; ++t) { Z q = cofZ(c[t]); for (int e = 0; e < l; ++e) q = q * (long)tv[t]; w += q; } w -= (long)vv[l - 1]; Z m; mpz_fdiv_r_ui(m.get_mpz_t(), w.get_mpz_t(), p); eqz(m, Z(0), "the system is satisfied"); } sx_reach("solved"); }
// images[l-1] = f(x, b^l)
SX_HARNESS(lf_theta) { vars({"x", "y", "z"}); long p = 11; RP r = rgen("c", {{0, 0, 0}, {1, 1, 0}, {1, 0, 2}, {2, 1, 1}}, wd(9, 5), 12); int64_t b0 = sx_value(sx_int("b0", 1, wd(5, 10))), b1 = sx_value(sx_int("b1", 1, wd(2, 10))); std::vector<UZ> im; __si_theta_array_eval(zpoly(r, p), VS[0], {VS[1], VS[2]}, {Zp(b0, p), Zp(b1, p)}, 3, im); sx_check(im.size() == 3, "one image per point"); Z e0 = 1, e1 = 1; for (size_t l = 0; l < im.size(); ++l) { e0 = e0 * (long)b0 % p; e1 = e1 * (long)b1 % p; can(im[l], p, "image is canonical"); eqrmod(toR(im[l]), rsubst(rsubst(r, 1, e0), 2, e1), p, "image at the powers of the point"); } sx_reach("images"); }
// univariate equation: sum s_i prod_{l!=i} F_l = c
static void uni(long p, std::vector<RP> F, const RP &c) { vars({"x"}); std::vector<UZ> f, s; int64_t d = 0; for (auto &x : F) { f.push_back(zupoly(x, p)); d += rdeg(x, 0); } bool cop = true; for (size_t i = 0; i < F.size(); ++i) for (size_t j = 0; j < i; ++j) if (!copr(F[i], F[j], p)) cop = false; UZ cc = zupoly(c, p); bool ok = __mtshl_zp_univar_mdp(f, cc, s); if (!cop) { sx_check(!ok || cc.empty(), "factors with a common divisor are reported"); sx_reach("not coprime"); return; } sx_check(ok && s.size() == F.size(), "coprime factors are solved"); if (!ok || s.size() != F.size()) return; RP t; for (size_t i = 0; i < F.size(); ++i) { can(s[i], p, "solution is canonical"); RP q = toR(s[i]); sx_check(rdeg(q, 0) < rdeg(F[i], 0), "degrees of the solution"); t = radd(t, rmul(q, prodx(F, i))); } eqrmod(t, c, p, "the equation holds"); sx_reach("solved"); }
static RP mon(const char *n, int d, long p, long lc = 1) { RP r; for (int i = 0; i < d; ++i) r.c[{i}] += (long)sx_int(nm(n, i).c_str(), 0, p - 1); r.c[{d}] += lc; return r; }
SX_HARNESS(lf_uni2) { vars({"x"}); static const long P[2] = {5, 7}; long p = P[sx_choice("p", 2)]; uni(p, {mon("f", 1, p, 1 + sx_choice("lf", 2)), mon("g", 2, p, 1 + sx_choice("lg", 2))}, rgen("c", {{0}, {1}, {2}}, 0, 1)); }
SX_HARNESS(lf_uni3) { vars({"x"}); long p = 7; uni(p, {mon("f", 1, p), mon("g", 1, p, 2), mon("h", 1, p)}, rgen("c", {{0}, {1}, {2}}, 0, 2)); }
// bivariate and multivariate equations with a known solution: c = sum s_i prod_{l!=i} F_l
static void multi(int which, long p, const std::vector<RP> &F, const std::vector<RP> &S, const std::vector<int64_t> &al, const std::vector<std::vector<Ex>> &forms = {}) {
  RP c; for (size_t i = 0; i < F.size(); ++i) c = radd(c, rmul(S[i], prodx(F, i))); c = rmodp(c, p); std::vector<RP> E; for (auto &f : F) { RP e = f; for (size_t k = 0; k < al.size(); ++k) e = rsubst(e, k + 1, Z((long)al[k])); e = rmodp(e, p); sx_assume(rdeg(e, 0) == rdeg(f, 0)); E.push_back(e); }
  if (which == 1) { RP a = F[0], b = F[1]; for (size_t k = 1; k < al.size(); ++k) { a = rsubst(a, k + 1, Z((long)al[k])); b = rsubst(b, k + 1, Z((long)al[k])); } sx_assume(rdeg(rmodp(rres(a, b, 0), p), 1) > 0); } // otherwise the solution may have a higher degree than c
  if (which < 2) for (size_t i = 0; i < F.size(); ++i) for (size_t j = 0; j < i; ++j) sx_assume(copr(E[i], E[j], p)); std::vector<RP> s; for (auto &x : S) s.push_back(rmodp(x, p)); for (size_t k = 1; k < VS.size(); ++k) { for (auto &x : s) sx_assume(rdeg(x, k) <= rdeg(c, k) || x.c.empty()); }
  std::vector<PZ> f, r; for (auto &x : F) f.push_back(zpoly(x, p)); PZ cc = zpoly(c, p); bool ok; std::vector<variable> aux(VS.begin() + 1, VS.end()); std::vector<Zp> az; for (auto a : al) az.push_back(Zp(a, p));
  if (which == 0) ok = __mtshl_multi_bdp(f, cc, VS[0], VS[1], az[0], r); else if (which == 1) ok = __mtshl_wmds(f, cc, VS[0], aux, az, r); else { std::vector<std::vector<basic_monomial<lex>>> fm; for (auto &l : forms) { fm.emplace_back(); for (auto &e : l) fm.back().push_back(monoOf<basic_monomial<lex>>(e)); } ok = __mtshl_sparse_int(f, cc, fm, VS[0], aux, (uint64_t)p, r); if (!ok) { sx_reach("unlucky point"); return; } }
  sx_check(ok && r.size() == F.size(), "the equation is solved"); if (!ok || r.size() != F.size()) return; for (size_t i = 0; i < F.size(); ++i) { can(r[i], p, "solution is canonical"); eqrmod(toR(r[i]), s[i], p, "the unique solution of small degree"); } sx_reach("solved"); }
SX_HARNESS(lf_bdp) { vars({"x", "y"}); long p = sx_choice("p", 2) ? 11 : 5; int64_t a = sx_value(sx_int("a", 0, wd(1, 4))); multi(0, p, {radd(rvar(0), rgen("f", {{0, 1}, {0, 0}}, 0, 1)), radd(rvar(0), rgen("g", {{0, 2}, {0, 0}}, wd(0, -1), 1))}, {rgen("s", {{0, 0}, {0, 1}}, -1, 1), rgen("t", {{0, 0}, {0, 2}}, -wd(0, 1), 1)}, {a}); }
SX_HARNESS(lf_bdp3) { vars({"x", "y"}); long p = 13; int64_t a = sx_value(sx_int("a", wd(1, 0), 2)); multi(0, p, {radd(rvar(0), rgen("f", {{0, 1}}, -1, 1)), radd(rvar(0), rgen("g", {{0, 1}, {0, 0}}, 1, 2)), radd(rmul(rvar(0), rvar(0)), rgen("h", {{1, 1}, {0, 0}}, 1, 2))}, {rgen("s", {{0, 1}}, -1, 1), rgen("t", {{0, 0}}, -1, 1), rgen("u", {{1, 1}, {0, 0}}, -wd(0, 1), 1)}, {a}); }
SX_HARNESS(lf_wmds) { vars({"x", "y", "z"}); long p = 17; int64_t a = sx_value(sx_int("a", 0, wd(1, 2))), b = sx_value(sx_int("b", 0, wd(1, 2))); multi(1, p, {radd(rvar(0), rgen("f", {{0, 1, 0}, {0, 0, 1}}, -1, 1)), radd(rvar(0), rgen("g", {{0, 1, 1}, {0, 0, 0}}, 1, 2))}, {rgen("s", {{0, 0, 1}, {0, 1, 0}}, -wd(0, 1), 1), rgen("t", {{0, 0, 0}, {0, 1, 1}}, -wd(0, 1), 1)}, {a, b}); }
SX_HARNESS(lf_sparse) { vars({"x", "y", "z"}); long p = sx_choice("p", 2) ? 10007 : 101; SEED = sx_choice("seed", wd(2, 12)) * 7 + 1; std::vector<Ex> fs = {{0, 0, 1}, {0, 1, 0}}, ft = {{0, 0, 0}, {0, 1, 1}, {1, 0, 1}}; if (sx_choice("superset", 2)) { fs.push_back({0, 0, 0}); ft.push_back({0, 2, 0}); } multi(2, p, {radd(rvar(0), rgen("f", {{0, 1, 0}, {0, 0, 1}}, 1, 2)), radd(rmul(rvar(0), rvar(0)), rgen("g", {{0, 1, 1}, {0, 0, 0}}, 1, 2))}, {rgen("s", {{0, 0, 1}, {0, 1, 0}}, -wd(0, 1), 1), rgen("t", {{0, 0, 0}, {0, 1, 1}, {1, 0, 1}}, -wd(0, 1), 1)}, {}, {fs, ft}); }
// reductions
SX_HARNESS(lf_reduce) { vars({"x", "y"}); static const long P[3] = {2, 7, 101}; long p = P[sx_choice("p", 3)]; RP r = rgen("c", {{2, 0}, {1, 1}, {0, 0}}, -wd(60, 300), wd(60, 300)); PL f = fromR<PL>(r); PZ g = __polynomial_to_zp(f, (uint64_t)p); can(g, p, "reduction is canonical"); eqrmod(toR(g), r, p, "reduction modulo p"); PL h = __symmetric_mod_poly(g, (uint64_t)p); canonP(h, "representative is canonical"); RP s = toR(h); eqrmod(s, r, p, "representative modulo p"); for (auto &x : s.c) { Z a = x.second * 2; sx_check(a <= p && a > -p - 1, "the representative of least absolute value"); } int64_t a = sx_value(sx_int("a", 0, 1)); PZ e = __assign_partial_zp(f, {VS[1]}, {Zp(a, p)}, (uint64_t)p); can(e, p, "partial value is canonical"); eqrmod(toR(e), rsubst(r, 1, Z((long)a)), p, "partial value modulo p"); sx_reach("reduced"); }
// common powers of variables
SX_HARNESS(lf_content) { vars({"x", "y", "z"}); RP r = rgen("c", {{2, 0, 1}, {1, 1, 2}, {3, 2, 0}}, -2, 2); Ex m(3); for (int i = 0; i < 3; ++i) m[i] = sx_value(sx_int(nm("m", i).c_str(), 0, 2)); RP f = rzero(r) ? r : mulx(clean(r), m, 1); std::vector<std::pair<variable, int64_t>> vf; PL g = __extract_monomial_content(fromR<PL>(f), vf); canonP(g, "cofactor is canonical"); Ex e(3, 0); for (auto &x : vf) { int k = 0; while (k < 3 && VS[k].serial() != x.first.serial()) ++k; sx_check(k < 3 && x.second > 0, "variables with positive exponents"); if (k < 3) { sx_check(e[k] == 0, "every variable once"); e[k] = x.second; } } RP q = toR(g); eqr(mulx(q, e, 1), f, "the product is the polynomial"); if (!q.c.empty()) for (int i = 0; i < 3; ++i) { bool z = false; for (auto &t : q.c) if (t.first[i] == 0) z = true; sx_check(z, "no variable is left in every term"); } sx_reach("split"); }
// lc(g)^k f = q g + rem
SX_HARNESS(lf_prem) { vars({"x", "y"}); RP f = rgen("f", {{3, 0}, {2, 1}, {1, 0}, {0, 2}}, -1, 1), g; g.c[{2, 0}] = (long)sx_int("l", 1, 3); g.c[{1, 0}] = (long)sx_int("g1", -1, 1); g.c[{0, 0}] = (long)sx_int("g0", -2, 2); auto R = __pseudo_remainder_x1(fromR<PL>(f), upoly(g), VS[0]); canonP(R.first, "remainder is canonical"); RP r = toR(R.first); sx_check(rdeg(r, 0) < 2, "degree of the remainder"); RP d = clean(radd(rscale(f, toZ(R.second)), r, -1)); sx_check(toZ(R.second) != 0, "the scale is not zero"); GR = false; sx_check(d.c.empty() || rnf(d, RL{g}).c.empty(), "scale*f - remainder is a multiple of g"); sx_reach("remainder"); }
// lifts of f = prod G_i from the factors at the point
static std::vector<Ex> sup(const RP &r) { std::vector<Ex> v; for (auto &x : r.c) v.push_back(x.first); return v; }
static void lift(int which, const std::vector<RP> &G, const std::vector<int64_t> &al, long p) {
  RP f = rconst(1); std::vector<RP> E; std::vector<PL> lt; std::vector<U> v; std::map<variable, ZZ> ev; for (size_t k = 0; k < al.size(); ++k) ev[VS[k + 1]] = ZZ(al[k]);
  for (auto &g0 : G) { RP g = clean(g0); f = rmul(f, g); RP e = g; for (size_t k = 0; k < al.size(); ++k) e = rsubst(e, k + 1, Z((long)al[k])); int64_t d = rdeg(g, 0); sx_assume(d > 0); RP l = rcoef(g, 0, d); RP le = rmodp(rcoef(e, 0, d), p); sx_assume(!le.c.empty()); E.push_back(clean(e)); RP ev2; for (auto &x : E.back().c) ev2.c[x.first] = x.second; v.push_back(upoly(ev2)); lt.push_back(fromR<PL>(l)); }
  for (size_t i = 0; i < G.size(); ++i) for (size_t j = 0; j < i; ++j) sx_assume(copr(E[i], E[j], p)); PL F = fromR<PL>(clean(f)); sx_assume(get_variables(F).size() == VS.size());
  auto R = which ? __mtshl_lift(F, v, lt, ev, VS[0], (uint64_t)p) : __multivar_hensel_lift(F, v, lt, ev, VS[0]);
  if (R.empty()) { sx_check(false, "the lift succeeds"); return; } sx_check(R.size() == G.size(), "one factor per image"); for (size_t i = 0; i < G.size() && i < R.size(); ++i) { canonP(R[i], "lifted factor is canonical"); eqr(toR(R[i]), G[i], "the lifted factor is the factor of the product"); } sx_reach("lifted"); }
static const long BP = 2147483647;
SX_HARNESS(lf_lift2) { vars({"x", "y"}); int64_t a = sx_value(sx_int("a", 0, 2)); lift(1, {radd(rmul(rvar(0), rvar(0)), rgen("f", {{1, 1}, {0, 2}, {0, 0}}, -1, 1)), radd(rvar(0), rgen("g", {{0, 1}, {0, 0}}, -2, 2))}, {a}, BP); }
SX_HARNESS(lf_lift2lc) { vars({"x", "y"}); int64_t a = sx_value(sx_int("a", 0, 2)); lift(1, {rgen("f", {{2, 1}, {1, 0}, {0, 1}, {0, 0}}, -1, 1), rgen("g", {{1, 1}, {1, 0}, {0, 1}, {0, 0}}, -1, 1)}, {a}, BP); }
SX_HARNESS(lf_lift3) { vars({"x", "y", "z"}); int64_t a = sx_value(sx_int("a", 0, 2)), b = sx_value(sx_int("b", 0, 1)); lift(1, {radd(rvar(0), rgen("f", {{0, 1, 1}, {0, 1, 0}, {0, 0, 0}}, -1, 1)), radd(rmul(rvar(0), rvar(0)), rgen("g", {{1, 0, 1}, {0, 2, 0}, {0, 0, 0}}, -1, 1))}, {a, b}, BP); }
SX_HARNESS(lf_lift3lc) { vars({"x", "y", "z"}); lift(1, {radd(rmul(rvar(0), rvar(1)), rgen("f", {{0, 1, 1}, {0, 0, 1}, {0, 0, 0}}, -1, 1)), radd(rmul(rvar(0), radd(rvar(2), rconst(3))), rgen("g", {{0, 2, 0}, {0, 0, 0}}, -1, 1))}, {2, 1}, BP); }
SX_HARNESS(lf_lift3f) { vars({"x", "y"}); lift(1, {radd(rvar(0), rgen("f", {{0, 1}, {0, 0}}, -1, 1)), radd(rvar(0), rgen("g", {{0, 2}, {0, 0}}, -1, 1)), radd(rmul(rvar(0), rvar(1)), rgen("h", {{0, 0}}, 1, 3))}, {2}, BP); }
// coefficients beyond the prime: recovered digit by digit
SX_HARNESS(lf_padic) { vars({"x", "y"}); static const long P[2] = {10007, 1000003}; long p = P[sx_choice("p", 2)]; SEED = 11 + sx_choice("seed", 2); Z big = 1; for (int i = 0; i < (int)wd(12, 30); ++i) big = big * 10; RP f, g; f.c[{1, 0}] = 1; f.c[{0, 1}] = big + (long)sx_int("f0", -3, 3); f.c[{0, 0}] = (long)sx_int("f1", 1, 2); g.c[{1, 0}] = 1; g.c[{0, 2}] = (long)sx_int("g0", 1, 3); g.c[{0, 0}] = big * 3 + (long)sx_int("g1", -2, 2); lift(1, {f, g}, {sx_value(sx_int("a", 1, 2))}, p); }
SX_HARNESS(lf_hensel2) { vars({"x", "y"}); int64_t a = sx_value(sx_int("a", 0, 2)); lift(0, {radd(rmul(rvar(0), rvar(0)), rgen("f", {{1, 1}, {0, 2}, {0, 0}}, -1, 1)), radd(rvar(0), rgen("g", {{0, 1}, {0, 0}}, -2, 2))}, {a}, BP); }
// distribution of the leading coefficient
SX_HARNESS(lf_lc) { vars({"x", "y"}); int64_t a = sx_value(sx_int("a", 2, 6)); RP l1 = sx_choice("l1", 2) ? rvar(1) : rconst(sx_choice("k1", 2) + 1), l2 = sx_choice("l2", 2) ? radd(rvar(1), rconst(5)) : rmul(rvar(1), rvar(1)); RP f = radd(rmul(rvar(0), l1), rgen("f", {{0, 1}, {0, 0}}, -1, 1)), g = radd(rmul(rmul(rvar(0), rvar(0)), l2), rgen("g", {{0, 1}, {0, 0}}, 1, 2)); RP h = rmul(f, g); std::map<variable, ZZ> ev; ev[VS[1]] = ZZ(a); RP e = rsubst(h, 1, Z((long)a)); U e0 = upoly(clean(e)); auto uf = factorize(e0); sx_assume(uf.factors.size() == 2); std::vector<U> v; for (auto &x : uf.factors) { sx_assume(x.second == 1); v.push_back(x.first); } PL H = fromR<PL>(clean(h)); auto R = __wang_leading_coeff(H, v, ev, VS[0], uf.content); if (!R.success) { sx_reach("another point is requested"); return; }
  RP L = rconst(1), V = rconst(1); for (int i = 0; i < 2; ++i) { L = rmul(L, toR(R.lc_targets[i])); RP vi = toR(R.scaled_factors[i]); V = rmul(V, vi); RP t = rsubst(toR(R.lc_targets[i]), 1, Z((long)a)); eqr(t, rcoef(vi, 0, rdeg(vi, 0)), "target leading coefficients match the factors at the point"); } RP fs = toR(R.f_scaled); eqr(L, rcoef(fs, 0, 3), "the leading coefficient is distributed completely"); eqr(V, rsubst(fs, 1, Z((long)a)), "the factors at the point multiply to the polynomial"); bool pr = false; RP x = clean(fs), y = clean(h); Z c1 = x.c.begin()->second, c2 = y.c.begin()->second; eqr(rscale(x, c2), rscale(y, c1), "scaled by a constant"); sx_reach("distributed"); }
// evaluation points keep the degree and stay square-free
SX_HARNESS(lf_point) { vars({"x", "y"}); RP f = rmul(rgen("f", {{1, 1}, {1, 0}, {0, 0}}, wd(0, -1), 1), rgen("g", {{1, 0}, {0, 1}, {0, 0}}, -1, wd(1, 2))); RP h = clean(f); sx_assume(rdeg(h, 0) == 2 && rdeg(h, 1) > 0); RP A = rcoef(h, 0, 2), B = rcoef(h, 0, 1), C = rcoef(h, 0, 0); RP D = radd(rmul(B, B), rscale(rmul(A, C), 4), -1); sx_assume(!rzero(D)); auto ev = __select_eval_point(fromR<PL>(h), VS[0], (int)sx_choice("skip", 3)); sx_check(ev.size() == 1 && ev.count(VS[1]), "a value for every other variable"); if (ev.size() != 1) return; Z a = toZ(ev.begin()->second); sx_check(!rzero(rsubst(A, 1, a)), "the leading coefficient does not vanish"); sx_check(!rzero(rsubst(D, 1, a)), "the image is square-free"); sx_reach("point"); }
