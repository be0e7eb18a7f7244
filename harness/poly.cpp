#include "common.hh"
typedef polynomial_<ZZ, lex> PL; typedef polynomial_<ZZ, univariate_priority_order> PU; typedef polynomial_<ZZ, lex_<custom_var_order>> PC;
template <class P> static void is(const P &p, const RP &r, const char *m) { eqr(toR(p), r, m); canonP(p, m); }
template <class P> static void isp(const P &p, const RP &r, const Z &q, const char *m) { RP x = toR(p); eqrmod(x, r, q, m); for (auto &t : x.c) sx_check(t.second < q, m); canonP(p, m); }
static RP rneg(const RP &a) { return rscale(a, -1); }
// polynomial over an explicit comparator, with the given exponents
template <class P, class C> static P genc(const C *c, const char *n, const std::vector<Ex> &es, long lo, long hi, RP *r = nullptr) {
  P p(c); RP q;
  for (size_t i = 0; i < es.size(); ++i) { ZZ k = szz(nm(n, (int)i), lo, hi); q.c[es[i]] += toZ(k); typename P::monomial_type m(c); std::vector<std::pair<variable, int64_t>> v; for (size_t j = 0; j < VS.size(); ++j) v.push_back({VS[j], es[i][j]}); m = v; p.push_back({m, k}); }
  p.normalization(); if (r) *r = q; return p;
}
template <class P> static void ringops(const P &a, const P &b, const RP &x, const RP &y) {
  is(a, x, "construction"); is(b, y, "construction"); RP xy = rmul(x, y), s = radd(x, y), d = radd(x, y, -1);
  is(a + b, s, "a+b"); is(a - b, d, "a-b"); is(b - a, rneg(d), "b-a"); is(-a, rneg(x), "-a"); is(+a, x, "+a"); is(a * b, xy, "a*b"); is(b * a, xy, "b*a");
  sx_check((a == b) == (toR(a - b).c.empty()), "equality iff difference is zero"); is(a, x, "operands unchanged"); is(b, y, "operands unchanged"); sx_reach("ring");
}
static const std::vector<Ex> LIN2 = {{1, 0}, {0, 1}, {0, 0}}, QUAD2 = {{2, 0}, {1, 1}, {0, 0}}, DENSE2 = {{2, 0}, {1, 1}, {0, 2}, {1, 0}, {0, 1}, {0, 0}};
static const std::vector<Ex> U2 = {{2}, {1}, {0}}, U3 = {{3}, {2}, {1}, {0}};
SX_HARNESS(ring_grlex) { vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("a", LIN2, -2, 2, &x), b = gen<polynomial_ZZ>("b", QUAD2, -2, 2, &y); ringops(a, b, x, y); }
SX_HARNESS(ring_lex) { vars({"x", "y"}); RP x, y; auto a = gen<PL>("a", LIN2, -2, 2, &x), b = gen<PL>("b", {{0, 2}, {1, 0}, {0, 1}}, -2, 2, &y); ringops(a, b, x, y); }
SX_HARNESS(ring_up) { vars({"x", "y"}); univariate_priority_order c(VS[1]); RP x, y; auto a = genc<PU>(&c, "a", LIN2, -2, 2, &x), b = genc<PU>(&c, "b", {{2, 0}, {1, 1}, {0, 1}}, -2, 2, &y); ringops(a, b, x, y); }
SX_HARNESS(ring_custom) { vars({"x", "y"}); lex_<custom_var_order> c(custom_var_order({VS[1], VS[0]})); RP x, y; auto a = genc<PC>(&c, "a", LIN2, -2, 2, &x), b = genc<PC>(&c, "b", {{2, 0}, {1, 1}, {0, 1}}, -2, 2, &y); ringops(a, b, x, y); }
SX_HARNESS(ring_uni) { vars({"x"}); RP x, y; auto a = gen<polynomial_ZZ>("a", U2, -3, 3, &x), b = gen<polynomial_ZZ>("b", U2, -3, 3, &y); ringops(a, b, x, y); }
template <class T> static upolynomial_<T> ugen(const char *n, const std::vector<Ex> &es, long lo, long hi, RP *r) { upolynomial_<T> p; RP q; for (size_t i = 0; i < es.size(); ++i) { ZZ k = szz(nm(n, (int)i), lo, hi); q.c[es[i]] += toZ(k); p.push_back({umonomial(es[i][0]), k}); } p.normalization(); *r = q; return p; }
SX_HARNESS(ring_upoly) { vars({"x"}); RP x, y; auto a = ugen<ZZ>("a", U2, -3, 3, &x), b = ugen<ZZ>("b", U2, -3, 3, &y); ringops(a, b, x, y); ZZ k = szz("k", -2, 2); is(a * k, rscale(x, toZ(k)), "a*k"); is(k * b, rscale(y, toZ(k)), "k*b"); }
// coefficients beyond the machine word: cancellation and promotion inside sums and products
SX_HARNESS(ring_big) {
  vars({"x", "y"}); RP x, y; polynomial_ZZ a, b; std::vector<Ex> ea = {{1, 0}, {0, 1}}, eb = {{1, 0}, {0, 1}};
  for (int i = 0; i < 2; ++i) { ZZ k = sbig(nm("a", i), "-100000000000000000000", "100000000000000000000"), l = sbig(nm("b", i), "-100000000000000000000", "100000000000000000000"); x.c[ea[i]] += toZ(k); y.c[eb[i]] += toZ(l); monomial m; for (int j = 0; j < 2; ++j) if (ea[i][j]) m.push_back({VS[j], ea[i][j]}); a.push_back({m, k}); b.push_back({m, l}); }
  a.normalization(); b.normalization(); is(a + b, radd(x, y), "a+b"); is(a - b, radd(x, y, -1), "a-b"); is(a * b, rmul(x, y), "a*b"); sx_reach("big");
}
// supports chosen by the solver: two terms each with symbolic exponents
SX_HARNESS(ring_support) {
  vars({"x", "y"}); RP x, y; std::vector<Ex> ea(2, Ex(2)), eb(2, Ex(2)); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { ea[i][j] = sx_int(nm(nm("ea", i) + "_", j).c_str(), 0, 2); eb[i][j] = sx_int(nm(nm("eb", i) + "_", j).c_str(), 0, 1); }
  auto a = gen<polynomial_ZZ>("a", ea, -1, 2, &x), b = gen<polynomial_ZZ>("b", eb, -1, 1, &y); is(a, x, "construction"); is(a + b, radd(x, y), "a+b"); is(a - b, radd(x, y, -1), "a-b"); is(a * b, rmul(x, y), "a*b"); sx_reach("support");
}
SX_HARNESS(ring_support_lex) {
  vars({"x", "y"}); RP x, y; std::vector<Ex> ea(2, Ex(2)), eb(2, Ex(2)); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { ea[i][j] = sx_int(nm(nm("ea", i) + "_", j).c_str(), 0, 2); eb[i][j] = sx_int(nm(nm("eb", i) + "_", j).c_str(), 0, 1); }
  auto a = gen<PL>("a", ea, -1, 2, &x), b = gen<PL>("b", eb, -1, 1, &y); is(a, x, "construction"); is(a + b, radd(x, y), "a+b"); is(a - b, radd(x, y, -1), "a-b"); is(a * b, rmul(x, y), "a*b"); sx_reach("support");
}
// many terms meeting in one monomial: heap product chains
SX_HARNESS(ring_chain) { vars({"x"}); RP x, y; auto a = gen<polynomial_ZZ>("a", {{4}, {3}, {2}, {1}, {0}}, -1, 1, &x), b = gen<polynomial_ZZ>("b", {{2}, {1}, {0}}, -1, 1, &y); is(a * b, rmul(x, y), "a*b"); is(b * a, rmul(x, y), "b*a"); sx_reach("chain"); }
SX_HARNESS(ring_alias) { // operands that are one object, results stored over operands
  vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("a", LIN2, -3, 3, &x), b = gen<polynomial_ZZ>("b", {{1, 0}, {0, 0}}, -3, 3, &y); is(a + a, rscale(x, 2), "a+a"); is(a - a, RP(), "a-a"); is(a * a, rmul(x, x), "a*a");
  auto t = a; t = t + b; is(t, radd(x, y), "t=t+b"); t = a; t = t * b; is(t, rmul(x, y), "t=t*b"); t = a; pair_vec_add(t.data(), t.data(), b.data(), t.comp()); is(t, radd(x, y), "add into first"); t = b; pair_vec_add(t.data(), a.data(), t.data(), t.comp()); is(t, radd(x, y), "add into second");
  t = a; pair_vec_sub(t.data(), t.data(), b.data(), t.comp()); is(t, radd(x, y, -1), "sub into first"); t = b; pair_vec_sub(t.data(), a.data(), t.data(), t.comp()); is(t, radd(x, y, -1), "sub into second"); t = a; pair_vec_multiplies(t.data(), t.data(), b.data(), t.comp()); is(t, rmul(x, y), "mul into first"); t = b; pair_vec_multiplies(t.data(), a.data(), t.data(), t.comp()); is(t, rmul(x, y), "mul into second"); sx_reach("alias");
}
SX_HARNESS(ring_pow) { vars({"x", "y"}); RP x; auto a = gen<polynomial_ZZ>("a", LIN2, -2, 2, &x); int n = sx_choice("n", 6); if (n == 0 && a.empty()) { is(pow(a, 0), rconst(1), "0^0"); return; } is(pow(a, n), rpow(x, n), "pow"); is(a, x, "base unchanged"); sx_reach("pow"); }
SX_HARNESS(ring_pow_lex) { vars({"x", "y"}); RP x; auto a = gen<PL>("a", {{1, 0}, {0, 2}}, -3, 3, &x); int n = sx_choice("n", 8); is(pow(a, n), rpow(x, n), "pow"); sx_reach("pow"); }
SX_HARNESS(ring_pow_u) { vars({"x"}); RP x; auto a = ugen<ZZ>("a", {{1}, {0}}, -3, 3, &x); int n = sx_choice("n", 8); is(pow(a, n), rpow(x, n), "pow"); sx_reach("pow"); }
SX_HARNESS(ring_scalar) { vars({"x", "y"}); RP x; auto a = gen<polynomial_ZZ>("a", QUAD2, -3, 3, &x); ZZ k = szz("k", -4, 4); is(a * k, rscale(x, toZ(k)), "a*k"); is(a * polynomial_ZZ(k), rscale(x, toZ(k)), "a*poly(k)"); polynomial_ZZ s = a + polynomial_ZZ(k); is(s, radd(x, rconst(toZ(k))), "a+poly(k)"); sx_reach("scalar"); }
// prime fields and rationals
template <class P> static P genp(const char *n, const std::vector<Ex> &es, uint64_t p, RP *r) {
  P f; RP q; for (size_t i = 0; i < es.size(); ++i) { int64_t k = sx_int(nm(n, (int)i).c_str(), 0, p - 1); Z z = (long)k; q.c[es[i]] += z; Zp c(p); c = k; typename P::monomial_type m; for (size_t j = 0; j < VS.size(); ++j) if (es[i][j]) m.push_back({VS[j], es[i][j]}); m.normalization(); f.push_back({m, c}); } f.normalization(); *r = q; return f;
}
static const uint64_t PR[] = {2, 3, 5, 7};
SX_HARNESS(ring_zp) { vars({"x", "y"}); uint64_t p = PR[sx_choice("p", 4)]; Z q = (unsigned long)p; RP x, y; auto a = genp<polynomial_<Zp>>("a", LIN2, p, &x), b = genp<polynomial_<Zp>>("b", {{1, 0}, {0, 0}}, p, &y); isp(a, x, q, "construction"); isp(a + b, radd(x, y), q, "a+b"); isp(a - b, radd(x, y, -1), q, "a-b"); isp(b - a, radd(y, x, -1), q, "b-a"); isp(a * b, rmul(x, y), q, "a*b"); isp(-a, rneg(x), q, "-a"); sx_reach("field"); }
SX_HARNESS(ring_zp_pow) { vars({"x"}); uint64_t p = PR[sx_choice("p", 3)]; Z q = (unsigned long)p; RP x; auto a = genp<polynomial_<Zp>>("a", U2, p, &x); if (a.empty()) return; int n = sx_choice("n", 6); isp(pow(a, n), rpow(x, n), q, "pow"); sx_reach("pow"); }
static void eqq(const polynomial_QQ &f, const RP &r, const Z &S, const char *m) { // f == r/S
  std::map<Ex, int> seen; for (auto &t : f) { Ex e = exOf(t.first); Z l = toZ(t.second.num()) * S, rr = r.c.count(e) ? r.c.at(e) : Z(0); Z R = rr * toZ(t.second.den()); eqz(l, R, m); seen[e] = 1; sx_check(t.second.den() > ZZ(0), m); } for (auto &t : r.c) if (!seen.count(t.first)) eqz(t.second, Z(0), m); canonP(f, m);
}
static polynomial_QQ genq(const char *n, const std::vector<Ex> &es, RP *r) { polynomial_QQ f; RP q; for (size_t i = 0; i < es.size(); ++i) { int k = sx_choice((std::string("d") + nm(n, (int)i)).c_str(), 3) + 1; ZZ c = szz(nm(n, (int)i), -3, 3); Z v = toZ(c) * (6 / k); q.c[es[i]] += v; monomial m; for (size_t j = 0; j < VS.size(); ++j) if (es[i][j]) m.push_back({VS[j], es[i][j]}); f.push_back({m, QQ(c, ZZ(k))}); } f.normalization(); *r = q; return f; }
SX_HARNESS(ring_qq) { vars({"x"}); RP x, y; auto a = genq("a", {{1}, {0}}, &x), b = genq("b", {{1}, {0}}, &y); eqq(a, x, 6, "construction"); eqq(a + b, radd(x, y), 6, "a+b"); eqq(a - b, radd(x, y, -1), 6, "a-b"); eqq(a * b, rmul(x, y), 36, "a*b"); eqq(-a, rneg(x), 6, "-a"); sx_reach("rational"); }
// ---- P02: large exponents and many variables ------------------------------------------------------------------
template <class P> static void bigexp(const P &a, const P &b, const RP &x, const RP &y) { is(a * b, rmul(x, y), "product with large exponents"); is(b * a, rmul(x, y), "product with large exponents"); sx_reach("large"); }
template <class P> static void bx(int nv, int64_t hi) { // symbolic exponents of the leading variable straddling the packing limit
  static const char *N[] = {"x", "y", "z", "w"}; VS.clear(); for (int i = 0; i < nv; ++i) VS.push_back(variable(N[i])); RP x, y; std::vector<Ex> ea, eb; Ex o(nv, 0); Ex s = o, t = o; s[0] = sx_int("s", 0, hi); t[nv - 1] = sx_int("t", 0, hi); Ex u = o; u[nv - 1] = 1; ea = {s, u}; eb = {t, o}; if (nv > 2) { eb.push_back(o); eb[2][1] = 1; }
  P a, b; auto mk = [&](P &p, std::vector<Ex> &es, const char *n, RP &r) { for (size_t i = 0; i < es.size(); ++i) { Z c = (long)(i + 2); r.c[es[i]] += c; typename P::monomial_type m; std::vector<std::pair<variable, int64_t>> v; for (int j = 0; j < nv; ++j) v.push_back({VS[j], es[i][j]}); m = v; p.push_back({m, fromZ(c)}); } p.normalization(); };
  mk(a, ea, "a", x); mk(b, eb, "b", y); bigexp(a, b, x, y);
}
// maximal exponents chosen by the solver among the values around the packing limits of 2..4 variables
static int64_t edge(const char *n) { static const int L[] = {12, 15, 16, 20, 21, 31, 32, 33, 40}; int64_t b = int64_t(1) << L[sx_choice((std::string(n) + "l").c_str(), 9)]; return b / 2 + sx_int((std::string(n) + "d").c_str(), -1, 1) + (sx_choice((std::string(n) + "h").c_str(), 2) ? b / 2 : 0); }
template <class P> static void edges(int nv, bool div) {
  static const char *N[] = {"x", "y", "z", "w"}; VS.clear(); for (int i = 0; i < nv; ++i) VS.push_back(variable(N[i])); int64_t s = edge("s"), t = edge("t"); int i = sx_choice("i", nv), j = sx_choice("j", nv); RP x, y; std::vector<Ex> ea, eb; Ex o(nv, 0), p = o, q = o, u = o; p[i] = s; q[j] = t; u[nv - 1] = 1; u[0] += 1;
  auto mk = [&](P &f, std::vector<Ex> es, RP &r, int k0) { for (size_t k = 0; k < es.size(); ++k) { Z c = (long)(k + k0); r.c[es[k]] += c; typename P::monomial_type m; std::vector<std::pair<variable, int64_t>> v; for (int l = 0; l < nv; ++l) v.push_back({VS[l], es[k][l]}); m = v; f.push_back({m, fromZ(c)}); } f.normalization(); };
  P a, b; mk(a, {p, u, o}, x, 1); mk(b, {q, u}, y, 1); if (!div) { bigexp(a, b, x, y); return; }
  P ab = a * b; is(ab, rmul(x, y), "product"); is(ab / b, x, "exact quotient with large exponents"); is(ab / a, y, "exact quotient with large exponents"); sx_reach("large");
}
SX_HARNESS(exp_grlex2) { edges<polynomial_ZZ>(2, false); } SX_HARNESS(exp_lex2) { edges<PL>(2, false); } SX_HARNESS(exp_grlex3) { edges<polynomial_ZZ>(3, false); } SX_HARNESS(exp_lex3) { edges<PL>(3, false); } SX_HARNESS(exp_lex4) { edges<PL>(4, false); }
SX_HARNESS(expdiv_grlex2) { edges<polynomial_ZZ>(2, true); } SX_HARNESS(expdiv_lex2) { edges<PL>(2, true); } SX_HARNESS(expdiv_grlex3) { edges<polynomial_ZZ>(3, true); } SX_HARNESS(expdiv_lex4) { edges<PL>(4, true); }
SX_HARNESS(exp_sym_grlex) { bx<polynomial_ZZ>(2, int64_t(1) << 40); } SX_HARNESS(exp_sym_lex) { bx<PL>(2, int64_t(1) << 40); } SX_HARNESS(exp_sym_grlex3) { bx<polynomial_ZZ>(3, int64_t(1) << 40); }
SX_HARNESS(exp_uni) { // one variable: a field of 64 bits
  vars({"x"}); int64_t e = sx_int("e", 3, int64_t(1) << 60); RP x, y; polynomial_ZZ a, b; a.push_back({pow(VS[0], e), ZZ(1)}); a.push_back({VS[0], ZZ(2)}); b.push_back({pow(VS[0], e - 1), ZZ(3)}); b.push_back({monomial(), ZZ(1)}); x.c[Ex{e}] += 1; x.c[Ex{1}] += 2; y.c[Ex{e - 1}] += 3; y.c[Ex{0}] += 1; is(a * b, rmul(x, y), "product"); sx_reach("uni");
}
SX_HARNESS(expdiv_uni) { vars({"x"}); static const int64_t T[] = {int64_t(1) << 31, (int64_t(1) << 31) + 5, int64_t(1) << 32, int64_t(3) << 31, int64_t(1) << 50}; int64_t e = T[sx_choice("e", 5)] + sx_int("d", 0, 2); polynomial_ZZ q, b; q.push_back({pow(VS[0], e), ZZ(1)}); q.push_back({VS[0], ZZ(1)}); b.push_back({VS[0], ZZ(1)}); b.push_back({monomial(), ZZ(1)}); polynomial_ZZ a = q * b; sx_check(a / b == q, "exact quotient"); sx_check((q * q) / q == q, "exact quotient"); sx_reach("uni"); }
template <class P> static void many(int nv) { // many variables: one bit (or less) per packed field
  VS.clear(); for (int i = 0; i < nv; ++i) VS.push_back(variable(nm("v", i))); int i = sx_choice("i", nv), j = sx_choice("j", 3); int64_t e = sx_int("e", 1, 3); P a, b; RP x, y; Ex o(nv, 0); a.clear();
  typename P::monomial_type one; for (int k = 0; k < nv; ++k) { typename P::monomial_type m(VS[k]); Ex t = o; t[k] = k == i ? e : 1; if (k == i) { std::vector<std::pair<variable, int64_t>> v{{VS[k], e}}; m = v; } a.push_back({m, ZZ(1)}); x.c[t] += 1; } a.push_back({one, ZZ(1)}); x.c[o] += 1; a.normalization();
  Ex t = o; t[nv - 1 - j] = 1; b.push_back({typename P::monomial_type(VS[nv - 1 - j]), ZZ(1)}); b.push_back({one, ZZ(2)}); y.c[t] += 1; y.c[o] += 2; b.normalization(); P ab = a * b; is(ab, rmul(x, y), "product"); is(ab / b, x, "exact quotient"); sx_reach("many");
}
SX_HARNESS(many_grlex_31) { many<polynomial_ZZ>(31); } SX_HARNESS(many_lex_32) { many<PL>(32); } SX_HARNESS(many_grlex_64) { many<polynomial_ZZ>(64); } SX_HARNESS(many_lex_65) { many<PL>(65); } SX_HARNESS(many_grlex_7) { many<polynomial_ZZ>(7); }
SX_HARNESS(rem_lex_grow) { // division with remainder under lex where the exponents of the remainder outgrow the dividend
  vars({"x", "y"}); int n = 1 + sx_choice("n", 5); static const int64_t T[] = {3, (int64_t(1) << 30), (int64_t(1) << 31) - 1, (int64_t(1) << 31), int64_t(1) << 40}; int64_t k = T[sx_choice("k", 5)]; long c = sx_int("c", -2, 2); RP x, y; PL a, b, q, r; x.c[Ex{n, 0}] += 1; a.push_back({basic_monomial<lex>({{VS[0], n}}), ZZ(1)}); b.push_back({basic_monomial<lex>(VS[0]), ZZ(1)}); b.push_back({basic_monomial<lex>({{VS[1], k}}), ZZ(c)}); b.normalization(); y.c[Ex{1, 0}] += 1; y.c[Ex{0, k}] += c; pair_vec_div(q.data(), r.data(), a.data(), b.data(), a.comp()); is(q * b + r, x, "a == q*b + r"); sx_check(degree(r, VS[0]) == 0, "remainder is reduced"); sx_reach("grow");
}
// many terms: the merging heap of products and exact quotients grows to the number of terms.  Coefficients are positive, so
// no path splits; supports come from a list of patterns.
static std::vector<Ex> pattern(int k, int n, int nv, int who) { std::vector<Ex> r; for (int i = 0; i < n; ++i) { Ex e(nv, 0); int j = who ? n - 1 - i : i; switch (k) { case 0: e[0] = i; break; case 1: e[0] = who ? i * n : i; break; case 2: e[0] = i * i; break; case 3: e[0] = (i * 7) % 13 + (i / 13) * 13; break; case 4: e[0] = i; if (nv > 1) e[1] = n - i; break; case 5: e[0] = i % 4; e[nv - 1] += (i / 4) * 4; break; case 6: e[0] = (j * 5) % 11 + j / 11 * 11; if (nv > 1) e[1] = (j * 3) % 7; break; default: e[0] = 1 << (i % 10); if (nv > 1) e[1] = i / 10 + (who ? i : 0); } r.push_back(e); } std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
template <class P> static void heapck(int n, int m, std::initializer_list<const char *> v, bool quo) { vars(v); int k = sx_choice("pattern", 8); RP x, y; auto a = gen<P>("a", pattern(k, n, VS.size(), 0), 1, 1000000, &x), b = gen<P>("b", pattern(k, m, VS.size(), 1), 1, 1000000, &y); RP z = rmul(x, y); if (!quo) { P p = a * b; is(p, z, "a*b"); P q = b * a; is(q, z, "b*a"); } else { auto w = x; P f = a * b; is(f, z, "a*b"); P q = f / b; is(q, x, "a*b/b"); P s = f / a; is(s, y, "a*b/a"); } sx_reach("many terms"); }
typedef upolynomial_<ZZ> UH;
SX_HARNESS(heap_u) { heapck<UH>(wd(12, 24), wd(12, 20), {"x"}, false); }
SX_HARNESS(heap_grlex) { heapck<polynomial_ZZ>(wd(14, 22), wd(12, 20), {"x", "y"}, false); }
SX_HARNESS(heap_lex) { heapck<PL>(wd(12, 22), wd(14, 20), {"x", "y"}, false); }
SX_HARNESS(heap_lex3) { heapck<PL>(wd(12, 18), wd(12, 18), {"x", "y", "z"}, false); }
SX_HARNESS(heapq_u) { heapck<UH>(wd(10, 16), wd(10, 16), {"x"}, true); }
SX_HARNESS(heapq_grlex) { heapck<polynomial_ZZ>(wd(10, 16), wd(10, 14), {"x", "y"}, true); }
SX_HARNESS(heapq_lex) { heapck<PL>(wd(10, 16), wd(10, 14), {"x", "y"}, true); }
