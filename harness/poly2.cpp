#include "common.hh"
typedef polynomial_<ZZ, lex> PL; typedef polynomial_<ZZ, univariate_priority_order> PU; typedef polynomial_<ZZ, lex_<custom_var_order>> PC; typedef polynomial_<Zp> PZp; typedef polynomial_<Zp, lex> PZpL; typedef polynomial_<QQ, lex> PQL;
static RP rneg(const RP &a) { return rscale(a, -1); }
template <class P> static void is(const P &p, const RP &r, const char *m) { eqr(toR(p), r, m); canonP(p, m); }
template <class P> static void isp(const P &p, const RP &r, uint64_t q, const char *m) { RP x = toR(p); Z Q = (unsigned long)q; eqrmod(x, r, Q, m); for (auto &t : x.c) sx_check(t.second < Q, m); canonP(p, m); }
template <class M> static M mkm(const Ex &e, const typename M::compare_type *c = &M::compare_type::init) { M m(c); std::vector<std::pair<variable, int64_t>> v; for (size_t j = 0; j < VS.size(); ++j) v.push_back({VS[j], e[j]}); m = v; return m; }
template <class P, class C> static P genc(const C *c, const char *n, const std::vector<Ex> &es, long lo, long hi, RP *r = nullptr) {
  P p(c); RP q; for (size_t i = 0; i < es.size(); ++i) { ZZ k = szz(nm(n, (int)i), lo, hi); q.c[es[i]] += toZ(k); p.push_back({mkm<typename P::monomial_type>(es[i], c), k}); } p.normalization(); if (r) *r = q; return p;
}
template <class P> static P genp(const char *n, const std::vector<Ex> &es, uint64_t p, RP *r) {
  P f; RP q; for (size_t i = 0; i < es.size(); ++i) { int64_t k = sx_int(nm(n, (int)i).c_str(), 0, p - 1); Z z = (long)k; q.c[es[i]] += z; Zp c(p); c = k; f.push_back({mkm<typename P::monomial_type>(es[i]), c}); } f.normalization(); *r = q; return f;
}
template <class T> static upolynomial_<T> ugen(const char *n, const std::vector<Ex> &es, long lo, long hi, RP *r) { upolynomial_<T> p; RP q; for (size_t i = 0; i < es.size(); ++i) { ZZ k = szz(nm(n, (int)i), lo, hi); q.c[es[i]] += toZ(k); p.push_back({umonomial(es[i][0]), k}); } p.normalization(); *r = q; return p; }
static void eqq(const polynomial_QQ &f, const RP &r, const Z &S, const char *m) { std::map<Ex, int> seen; for (auto &t : f) { Ex e = exOf(t.first); Z l = toZ(t.second.num()) * S, rr = r.c.count(e) ? r.c.at(e) : Z(0); Z R = rr * toZ(t.second.den()); eqz(l, R, m); seen[e] = 1; sx_check(t.second.den() > ZZ(0), m); } for (auto &t : r.c) if (!seen.count(t.first)) eqz(t.second, Z(0), m); canonP(f, m); }
static RP mono(const Ex &e) { RP r; r.c[e] = 1; return r; }
static void clean(RP &r) { for (auto it = r.c.begin(); it != r.c.end();) if (isz(it->second)) it = r.c.erase(it); else ++it; }
static int64_t rdeg(const RP &r, int v) { int64_t d = 0; for (auto &t : r.c) d = std::max(d, t.first[v]); return d; } // r cleaned
static RP rcoef(const RP &r, int v, int64_t d) { RP o; for (auto &t : r.c) if (t.first[v] == d) { Ex e = t.first; e[v] = 0; o.c[e] += t.second; } return o; }
// ---- P03 ------------------------------------------------------------------------------------------------------
SX_HARNESS(expr_monomials) { // sums, differences and multiples of two solver-chosen monomials and any machine integer
  vars({"x", "y"}); Ex e(2), f(2); for (int i = 0; i < 2; ++i) { e[i] = sx_int(nm("e", i).c_str(), 0, 3); f[i] = sx_int(nm("f", i).c_str(), 0, 3); } monomial a = mkm<monomial>(e), b = mkm<monomial>(f); RP A = mono(e), B = mono(f);
  is(a + b, radd(A, B), "m+m"); is(a - b, radd(A, B, -1), "m-m"); is(-a, rneg(A), "-m"); sx_reach("monomials");
}
SX_HARNESS(expr_int) {
  vars({"x", "y"}); Ex e(2); for (int i = 0; i < 2; ++i) e[i] = sx_int(nm("e", i).c_str(), 0, 2); monomial a = mkm<monomial>(e); int64_t k = sx_int("k", I64MIN, I64MAX); Z z = (long)k; RP A = mono(e), K = rconst(z);
  is(a + k, radd(A, K), "m+k"); is(a - k, radd(A, K, -1), "m-k"); is(k + a, radd(K, A), "k+m"); is(k - a, radd(K, A, -1), "k-m"); is(a * k, rscale(A, z), "m*k"); is(k * a, rscale(A, z), "k*m"); ZZ c(k); is(a * c, rscale(A, z), "m*ZZ"); is(c * a, rscale(A, z), "ZZ*m"); sx_reach("integers");
}
SX_HARNESS(expr_vars) { vars({"x", "y"}); int i = sx_choice("i", 2), j = sx_choice("j", 2); int n = sx_choice("n", 4); variable a = VS[i], b = VS[j]; RP A = rvar(i), B = rvar(j); is(a + b, radd(A, B), "v+v"); is(a - b, radd(A, B, -1), "v-v"); is(polynomial_ZZ(a * b), rmul(A, B), "v*v"); is(polynomial_ZZ(pow(a, n)), rpow(A, n), "pow(v,n)"); is(pow(a, n) + b, radd(rpow(A, n), B), "v^n+w"); is(pow(a, n) * b - b * a + 1, radd(radd(rmul(rpow(A, n), B), rmul(A, B), -1), rconst(1)), "mixed"); is(2 * pow(a, 2) - 3 * a * b + b - 5, radd(radd(radd(rscale(rpow(A, 2), 2), rscale(rmul(A, B), 3), -1), B), rconst(-5)), "expression"); sx_reach("variables"); }
SX_HARNESS(expr_poly_num) { // polynomial (op) number in both positions
  vars({"x", "y"}); RP A; auto a = gen<polynomial_ZZ>("a", {{1, 0}, {0, 1}, {0, 0}}, -2, 2, &A); int64_t k = sx_int("k", -4, 4); ZZ c(k); Z z = (long)k; RP K = rconst(z);
  is(a + k, radd(A, K), "p+k"); is(k + a, radd(A, K), "k+p"); is(a - k, radd(A, K, -1), "p-k"); is(k - a, radd(K, A, -1), "k-p"); is(a + c, radd(A, K), "p+ZZ"); is(c + a, radd(A, K), "ZZ+p"); is(a - c, radd(A, K, -1), "p-ZZ"); is(c - a, radd(K, A, -1), "ZZ-p"); is(a * c, rscale(A, z), "p*ZZ"); sx_reach("numbers");
}
SX_HARNESS(expr_poly_big) { // constants that leave the machine word
  vars({"x"}); ZZ c = sbig("c", "-40000000000000000000", "40000000000000000000"), d = sbig("d", "-40000000000000000000", "40000000000000000000"); sx_assume(c != ZZ(0)); polynomial_ZZ a; a.push_back({monomial(VS[0]), ZZ(1)}); a.push_back({monomial(), c}); RP A; A.c[Ex{1}] = 1; A.c[Ex{0}] = toZ(c); is(a + d, radd(A, rconst(toZ(d))), "p+ZZ"); is(a - d, radd(A, rconst(toZ(d)), -1), "p-ZZ"); is(d - a, radd(rconst(toZ(d)), A, -1), "ZZ-p"); is(a * d, rscale(A, toZ(d)), "p*ZZ"); int64_t k = sx_int("k", I64MIN, I64MAX); is(a - k, radd(A, rconst((long)k), -1), "p-k"); is(k - a, radd(rconst((long)k), A, -1), "k-p"); sx_reach("big");
}
SX_HARNESS(expr_poly_mono) { // polynomial (op) monomial
  vars({"x", "y"}); RP A; auto a = gen<polynomial_ZZ>("a", {{1, 1}, {0, 1}, {0, 0}}, -1, 1, &A); Ex e(2); for (int i = 0; i < 2; ++i) e[i] = sx_int(nm("e", i).c_str(), 0, 2); monomial m = mkm<monomial>(e); RP M = mono(e);
  is(a + m, radd(A, M), "p+m"); is(m + a, radd(A, M), "m+p"); is(a - m, radd(A, M, -1), "p-m"); is(m - a, radd(M, A, -1), "m-p"); is(a * m, rmul(A, M), "p*m"); is(m * a, rmul(M, A), "m*p"); is(a * polynomial_ZZ(m), rmul(A, M), "p*poly(m)"); sx_reach("monomials");
}
SX_HARNESS(expr_list) { // initialiser lists: any order, repeated and cancelling terms
  vars({"x", "y"}); std::vector<std::pair<monomial, ZZ>> t; RP r; for (int i = 0; i < 4; ++i) { static const Ex S[] = {{0, 0}, {1, 0}, {1, 1}}; int k = sx_choice(nm("m", i).c_str(), 3); ZZ c = szz(nm("c", i), -2, 2); r.c[S[k]] += toZ(c); t.push_back({mkm<monomial>(S[k]), c}); }
  is(polynomial_ZZ(t), r, "from terms"); polynomial_ZZ q({t[0], t[1], t[2], t[3]}); is(q, r, "initialiser list"); polynomial_ZZ s; s = {t[3], t[1], t[0], t[2]}; is(s, r, "assigned list"); sx_reach("list");
}
SX_HARNESS(expr_list_lex) { vars({"x", "y"}); std::vector<std::pair<basic_monomial<lex>, ZZ>> t; RP r; for (int i = 0; i < 4; ++i) { static const Ex S[] = {{0, 2}, {1, 0}, {1, 1}}; int k = sx_choice(nm("m", i).c_str(), 3); ZZ c = szz(nm("c", i), -1, 1); r.c[S[k]] += toZ(c); t.push_back({mkm<basic_monomial<lex>>(S[k]), c}); } is(PL(t), r, "from terms"); sx_reach("list"); }
SX_HARNESS(expr_list_sort) { // long term lists, every pattern of ties
  vars({"x"}); std::vector<std::pair<monomial, ZZ>> t; RP r; for (int i = 0; i < 6; ++i) { int64_t e = sx_int(nm("e", i).c_str(), 0, 2); r.c[Ex{e}] += i % 2 ? -1 : 1; t.push_back({mkm<monomial>(Ex{e}), ZZ(i % 2 ? -1 : 1)}); } is(polynomial_ZZ(t), r, "from terms"); sx_reach("list");
}
SX_HARNESS(expr_qq) { vars({"x"}); int64_t n = sx_int("n", -4, 4); int d = sx_choice("d", 3) + 1; QQ q = QQ(ZZ(n)) / QQ(ZZ(d)); monomial x(VS[0]); polynomial_QQ p = x * q; RP r; r.c[Ex{1}] = (long)n; eqq(p, r, d, "m*QQ"); eqq(q * x, r, d, "QQ*m"); polynomial_QQ s = p + q; RP r2 = r; r2.c[Ex{0}] = (long)n; eqq(s, r2, d, "p+QQ"); eqq(s - q, r, d, "p-QQ"); eqq(q - p, radd(rconst((long)n), r, -1), d, "QQ-p"); polynomial_QQ u; poly_convert(q, u); eqq(u, rconst((long)n), d, "constant"); sx_reach("rational"); }
SX_HARNESS(expr_convert_num) { vars({"x"}); ZZ c = szz("c", -3, 3); polynomial_ZZ p; p = c; is(p, rconst(toZ(c)), "p=ZZ"); int k = sx_int("k", -3, 3); p = k; is(p, rconst(k), "p=int"); p = VS[0]; is(p, rvar(0), "p=variable"); p = monomial(VS[0]) * monomial(VS[0]); is(p, rpow(rvar(0), 2), "p=monomial"); sx_check(tonum(polynomial_ZZ(c)) == c, "tonum"); bool th = false; try { tonum(p); } catch (const std::invalid_argument &) { th = true; } sx_check(th, "tonum of a non-constant"); sx_reach("convert"); }
// ---- P04 ------------------------------------------------------------------------------------------------------
template <class P> static void exact(const P &a, const P &b, const RP &A, const RP &B) { if (b.empty()) return; P ab = a * b; is(ab / b, A, "exact quotient"); P q, r; polynomial_div(q, ab, b); is(q, A, "exact quotient (function)"); polynomial_div(q, r, ab, b); is(q, A, "quotient with remainder, exact case"); is(r, RP(), "zero remainder"); is(b, B, "operand unchanged"); sx_reach("exact"); }
static const std::vector<Ex> LIN2 = {{1, 0}, {0, 1}, {0, 0}}, Q2 = {{2, 0}, {1, 1}, {0, 0}};
SX_HARNESS(div_grlex) { vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("a", Q2, -2, 2, &x), b = gen<polynomial_ZZ>("b", LIN2, -2, 2, &y); exact(a, b, x, y); }
SX_HARNESS(div_lex) { vars({"x", "y"}); RP x, y; auto a = gen<PL>("a", {{0, 2}, {1, 0}, {0, 1}}, -2, 2, &x), b = gen<PL>("b", LIN2, -2, 2, &y); exact(a, b, x, y); }
SX_HARNESS(div_up) { vars({"x", "y"}); univariate_priority_order c(VS[1]); RP x, y; auto a = genc<PU>(&c, "a", LIN2, -2, 2, &x), b = genc<PU>(&c, "b", {{2, 0}, {0, 1}, {0, 0}}, -2, 2, &y); exact(a, b, x, y); }
SX_HARNESS(div_upoly) { vars({"x"}); RP x, y; auto a = ugen<ZZ>("a", {{2}, {1}, {0}}, -3, 3, &x), b = ugen<ZZ>("b", {{2}, {1}, {0}}, -3, 3, &y); exact(a, b, x, y); }
SX_HARNESS(div_zp) { vars({"x", "y"}); static const uint64_t PR[] = {2, 3, 5}; uint64_t p = PR[sx_choice("p", 3)]; RP x, y; auto a = genp<PZp>("a", LIN2, p, &x), b = genp<PZp>("b", {{1, 0}, {0, 1}}, p, &y); if (b.empty()) return; isp((a * b) / b, x, p, "exact quotient"); sx_reach("exact"); }
// over a field: A = Q*B + R, no term of R divisible by the leading term of B
template <class P> static void divrem_p(const P &a, const P &b, const RP &x, const RP &y, uint64_t p) { if (b.empty()) return; P q, r; polynomial_div(q, r, a, b); isp(q * b + r, x, p, "A = Q*B + R"); canonP(q, "quotient canonical"); canonP(r, "remainder canonical"); for (auto &t : r) { typename P::monomial_type m; sx_check(!is_divexact(m, t.first, b.front().first), "remainder is reduced"); } sx_reach("remainder"); }
SX_HARNESS(rem_zp) { vars({"x", "y"}); static const uint64_t PR[] = {2, 3}; uint64_t p = PR[sx_choice("p", 2)]; RP x, y; auto a = genp<PZp>("a", {{2, 0}, {1, 1}, {0, 1}, {0, 0}}, p, &x), b = genp<PZp>("b", LIN2, p, &y); divrem_p(a, b, x, y, p); }
SX_HARNESS(rem_zp_lex) { vars({"x", "y"}); static const uint64_t PR[] = {2, 3}; uint64_t p = PR[sx_choice("p", 2)]; RP x, y; auto a = genp<PZpL>("a", {{2, 0}, {1, 1}, {0, 1}, {0, 0}}, p, &x), b = genp<PZpL>("b", {{1, 0}, {0, 2}, {0, 0}}, p, &y); divrem_p(a, b, x, y, p); }
SX_HARNESS(rem_zp_uni) { vars({"x"}); static const uint64_t PR[] = {2, 3, 5}; uint64_t p = PR[sx_choice("p", 3)]; RP x, y; auto a = genp<PZp>("a", {{3}, {2}, {1}, {0}}, p, &x), b = genp<PZp>("b", {{2}, {1}, {0}}, p, &y); divrem_p(a, b, x, y, p); }
// over the integers: division with remainder keeps the identity and canonical parts whatever the coefficients
SX_HARNESS(rem_zz) { vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("a", {{2, 0}, {1, 1}, {0, 1}}, -2, 2, &x), b = gen<polynomial_ZZ>("b", LIN2, -2, 2, &y); if (b.empty()) return; polynomial_ZZ q, r; polynomial_div(q, r, a, b); is(q * b + r, x, "A = Q*B + R"); canonP(q, "quotient"); canonP(r, "remainder"); sx_reach("remainder"); }
// the same on the paths which do not pack exponents into one word: univariate type, exponents beyond 32 bits
template <class P> static void remck(const P &a, const P &b, const RP &x) { if (b.empty()) return; P q, r; polynomial_div(q, r, a, b); is(q * b + r, x, "A = Q*B + R"); canonP(q, "quotient"); canonP(r, "remainder"); sx_reach("remainder"); }
SX_HARNESS(rem_zz_u) { vars({"x"}); RP x, y; auto a = gen<upolynomial_<ZZ>>("a", {{3}, {1}, {0}}, -3, 3, &x), b = gen<upolynomial_<ZZ>>("b", {{1}, {0}}, -3, 3, &y); remck(a, b, x); }
static std::vector<Ex> wide(std::vector<Ex> v) { for (auto &e : v) for (auto &k : e) k *= int64_t(1) << 33; return v; }
SX_HARNESS(rem_zz_wide) { vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("a", wide({{2, 0}, {1, 1}, {0, 1}}), -2, 2, &x), b = gen<polynomial_ZZ>("b", wide(LIN2), -2, 2, &y); remck(a, b, x); }
SX_HARNESS(rem_zz_wide_lex) { vars({"x", "y"}); RP x, y; auto a = gen<PL>("a", wide({{2, 0}, {1, 1}, {0, 2}}), -2, 2, &x), b = gen<PL>("b", wide(LIN2), -2, 2, &y); remck(a, b, x); }
SX_HARNESS(div_wide) { vars({"x", "y"}); RP x, y; auto a = gen<PL>("a", wide({{2, 0}, {1, 1}, {0, 0}}), -2, 2, &x), b = gen<PL>("b", wide({{1, 0}, {0, 2}}), -2, 2, &y); if (b.empty()) return; PL c = a * b; is(c, rmul(x, y), "product"); PL q = c / b; is(q, x, "exact quotient"); sx_reach("exact"); }
SX_HARNESS(rem_zp_wide) { vars({"x", "y"}); static const uint64_t PR[] = {2, 3}; uint64_t p = PR[sx_choice("p", 2)]; RP x, y; auto a = genp<PZp>("a", wide({{2, 0}, {1, 1}, {0, 1}}), p, &x), b = genp<PZp>("b", wide({{1, 0}, {0, 1}, {0, 0}}), p, &y); divrem_p(a, b, x, y, p); }
SX_HARNESS(rem_zz_monic) { vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("a", {{2, 0}, {1, 1}, {0, 1}, {0, 0}}, -2, 2, &x), b = gen<polynomial_ZZ>("b", {{0, 1}, {0, 0}}, -2, 2, &y); b = b + monomial(VS[0]); y = radd(y, rvar(0)); polynomial_ZZ q, r; polynomial_div(q, r, a, b); is(q * b + r, x, "A = Q*B + R"); canonP(q, "quotient"); canonP(r, "remainder"); for (auto &t : r) { monomial m; sx_check(!is_divexact(m, t.first, b.front().first), "remainder is reduced"); } sx_reach("remainder"); }
SX_HARNESS(div_mono) { // quotient by a single term (separate code path)
  vars({"x", "y"}); RP x; auto a = gen<polynomial_ZZ>("a", {{2, 1}, {1, 1}, {0, 2}, {0, 0}}, -3, 3, &x); ZZ k = szz("k", -3, 3); if (!k) return; int i = sx_choice("e", 3); static const Ex S[] = {{0, 0}, {0, 1}, {1, 1}}; polynomial_ZZ b, q, r; b.push_back({mkm<monomial>(S[i]), k}); polynomial_ZZ ab = a * b; is(ab / b, x, "exact quotient"); polynomial_div(q, r, ab, b); is(q, x, "quotient"); is(r, RP(), "remainder"); polynomial_div(q, r, a, b); is(q * b + r, x, "A = Q*B + R"); sx_reach("term");
}
SX_HARNESS(div_zero) { vars({"x"}); RP x; auto a = gen<polynomial_ZZ>("a", {{1}, {0}}, -1, 1, &x); polynomial_ZZ z, q, r; bool t = false; try { a / z; } catch (const std::exception &) { t = true; } sx_check(t, "division by the zero polynomial is reported"); t = false; try { polynomial_div(q, r, a, z); } catch (const std::exception &) { t = true; } sx_check(t, "division with remainder by the zero polynomial is reported"); upolynomial_ZZ ua, uz; ua.push_back({umonomial(1), ZZ(1)}); t = false; try { ua / uz; } catch (const std::exception &) { t = true; } sx_check(t, "univariate division by zero is reported"); sx_reach("zero"); }
SX_HARNESS(div_alias) { // destinations that are operands
  vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("a", LIN2, -2, 2, &x), b = gen<polynomial_ZZ>("b", {{1, 0}, {0, 0}}, -2, 2, &y); if (b.empty()) return; polynomial_ZZ ab = a * b, t, r; t = ab; polynomial_div(t, t, b); is(t, x, "quotient stored over the dividend"); t = b; polynomial_div(t, ab, t); is(t, x, "quotient stored over the divisor"); t = ab; t = t / b; is(t, x, "t=t/b"); polynomial_ZZ q; t = a; polynomial_div(q, t, t, b); is(q * b + t, x, "remainder over the dividend"); t = b; polynomial_div(q, t, a, t); is(q * b + t, x, "remainder over the divisor"); sx_reach("alias");
}
SX_HARNESS(div_big) { vars({"x"}); ZZ c = sbig("c", "-30000000000000000000", "30000000000000000000"); RP x; x.c[Ex{1}] = 3; x.c[Ex{0}] = toZ(c); polynomial_ZZ a, b; a.push_back({monomial(VS[0]), ZZ(3)}); if (c) a.push_back({monomial(), c}); b.push_back({monomial(VS[0]), ZZ(1)}); b.push_back({monomial(), ZZ(7)}); is((a * b) / b, x, "exact quotient"); sx_reach("big"); }
// ---- P05 ------------------------------------------------------------------------------------------------------
template <class P, class F> static void pseudo(const P &g, const P &f, const RP &G0, const RP &F0, int v, F eq, bool zp = false) {
  RP G = G0, Fr = F0; (void)zp; clean(Fr); clean(G); if (Fr.c.empty()) { bool t = false; try { prem(g, f, VS[v]); } catch (const std::invalid_argument &) { t = true; } sx_check(t, "zero divisor is reported"); return; }
  int64_t m = rdeg(G, v), l = rdeg(Fr, v), d = std::max<int64_t>(m - l + 1, 0); RP c = rcoef(Fr, v, l);
  P r = prem(g, f, VS[v]); P q, r2; q = pquo(r2, g, f, VS[v]); P q3 = pquo(g, f, VS[v]); canonP(r, "prem canonical"); canonP(q, "pquo canonical"); canonP(r2, "pquo remainder canonical");
  if (l == 0) sx_check(r.empty(), "remainder by a polynomial free of the variable"); else if (!r.empty()) sx_check(degree(r, VS[v]) < l, "deg prem < deg F");
  eq(radd(toR(r), toR(r2), -1), RP(), "prem and pquo agree on the remainder"); eq(radd(toR(q), toR(q3), -1), RP(), "both pquo forms agree"); eq(radd(rmul(toR(q), Fr), toR(r)), rmul(rpow(c, d), G), "lc(F)^(m-l+1) G = pquo F + prem"); sx_reach("pseudo");
  P s = prem(g, f, VS[v], false); bool any = false; RP qs; P s2, qf = pquo(s2, g, f, VS[v], false); eq(radd(toR(s), toR(s2), -1), RP(), "sparse pseudo-remainders agree"); if (l > 0 && m >= l) { if (!s.empty()) sx_check(degree(s, VS[v]) < l, "deg prem < deg F"); RP lhs = radd(rmul(toR(qf), Fr), toR(s)); for (int64_t k = 0; k <= d && !any; ++k) { RP dd = radd(lhs, rmul(rpow(c, k), G), -1); clean(dd); any = dd.c.empty(); } sx_check(any, "lc(F)^k G = pquo F + prem for some k"); }
}
static void eqexact(const RP &a, const RP &b, const char *m) { eqr(a, b, m); }
SX_HARNESS(prem_uni) { vars({"x"}); RP x, y; auto a = gen<polynomial_ZZ>("g", {{3}, {2}, {1}, {0}}, -2, 2, &x), b = gen<polynomial_ZZ>("f", {{2}, {1}, {0}}, -2, 2, &y); pseudo(a, b, x, y, 0, eqexact); }
SX_HARNESS(prem_grlex) { vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("g", {{2, 0}, {1, 1}, {0, 1}}, -2, 2, &x), b = gen<polynomial_ZZ>("f", {{1, 1}, {1, 0}, {0, 1}, {0, 0}}, -1, 1, &y); pseudo(a, b, x, y, sx_choice("v", 2), eqexact); }
SX_HARNESS(prem_lex) { vars({"x", "y"}); RP x, y; auto a = gen<PL>("g", {{2, 0}, {1, 1}, {0, 1}}, -2, 2, &x), b = gen<PL>("f", {{1, 1}, {1, 0}, {0, 1}, {0, 0}}, -1, 1, &y); pseudo(a, b, x, y, sx_choice("v", 2), eqexact); }
SX_HARNESS(prem_lex_gap) { vars({"x", "y"}); RP x, y; auto a = gen<PL>("g", {{4, 0}, {2, 1}, {0, 0}}, -1, 1, &x), b = gen<PL>("f", {{2, 0}, {1, 1}, {0, 1}}, -1, 1, &y); pseudo(a, b, x, y, 0, eqexact); }
SX_HARNESS(prem_up) { vars({"x", "y"}); univariate_priority_order c(VS[1]); RP x, y; auto a = genc<PU>(&c, "g", {{0, 2}, {1, 1}, {1, 0}}, -2, 2, &x), b = genc<PU>(&c, "f", {{1, 1}, {0, 1}, {0, 0}}, -2, 2, &y); pseudo(a, b, x, y, 1, eqexact); }
SX_HARNESS(prem_qq) { vars({"x"}); RP x, y; auto az = gen<polynomial_ZZ>("g", {{2}, {1}, {0}}, -2, 2, &x), bz = gen<polynomial_ZZ>("f", {{2}, {1}, {0}}, -2, 2, &y); if (bz.empty()) return; polynomial_QQ a, b, q, r; poly_convert(az, a); poly_convert(bz, b); RP F = y; clean(F); clean(x); int64_t m = rdeg(x, 0), l = rdeg(F, 0), d = std::max<int64_t>(m - l + 1, 0); q = pquo(r, a, b, VS[0]); eqq(prem(a, b, VS[0]) - r, RP(), 1, "prem"); RP cc = rmul(rpow(rcoef(F, 0, l), d), x); eqq(q * b + r, cc, 1, "identity"); sx_reach("rational"); }
SX_HARNESS(uprem) { vars({"x"}); RP x, y; auto a = ugen<ZZ>("g", {{3}, {2}, {1}, {0}}, -2, 2, &x), b = ugen<ZZ>("f", {{2}, {1}, {0}}, -2, 2, &y); if (b.empty()) return; upolynomial_ZZ r; upoly_prem(r, a, b, VS[0]); clean(x); clean(y); polynomial_ZZ A, B; poly_convert(a, A, VS[0]); poly_convert(b, B, VS[0]); is(r, toR(prem(A, B, VS[0])), "univariate prem"); sx_reach("uprem"); }
// ---- P06 ------------------------------------------------------------------------------------------------------
static const std::vector<Ex> S6 = {{2, 1}, {1, 1}, {0, 2}, {1, 0}, {0, 0}};
template <class P> static void evals(const P &a, const RP &A0) {
  RP A = A0; clean(A); ZZ c = szz("c", -3, 3); Z z = toZ(c); int v = sx_choice("v", 3); is(assign(a, VS[v], c), rsubst(A, v, z), "assign"); std::map<variable, ZZ> m; m[VS[v]] = c; m[VS[(v + 1) % 3]] = ZZ(2); is(assign(a, m), rsubst(rsubst(A, v, z), (v + 1) % 3, 2), "assign several"); sx_reach("assign");
}
template <class P> static void coefs(const P &a, const RP &A0) {
  RP A = A0; clean(A); int v = sx_choice("v", 3); is(derivative(a, VS[v]), rderiv(A, v), "derivative"); int64_t d = rdeg(A, v); sx_check(degree(a, VS[v]) == d, "degree in a variable"); auto co = coeff(a, VS[v]); sx_check((int64_t)co.size() == d + 1, "number of coefficients"); for (int64_t k = 0; k <= d; ++k) is(co[k], rcoef(A, v, k), "coefficient"); is(leadcoeff(a, VS[v]), rcoef(A, v, d), "leading coefficient");
  int64_t td = 0; for (auto &t : A.c) { int64_t s = 0; for (auto e : t.first) s += e; td = std::max(td, s); } sx_check(degree(a) == td && a.degree() == td && get_deg(a) == td, "total degree"); auto vs = a.variables(); size_t n = 0; for (int k = 0; k < 3; ++k) { int64_t dk = rdeg(A, k); bool f = false; for (auto &x : vs) if (x.first == VS[k]) { f = true; sx_check(x.second == dk, "variable degree"); } sx_check(f == (dk > 0), "variables"); n += f; } sx_check(n == vs.size(), "no further variables"); sx_check(is_number(a) == (td == 0), "is_number"); sx_reach("coefficients");
}
#define D3 {{2, 1, 0}, {1, 1, 0}, {0, 2, 0}, {1, 0, 0}, {0, 0, 0}}
SX_HARNESS(assign_grlex) { vars({"x", "y", "z"}); RP A; auto a = gen<polynomial_ZZ>("a", D3, -2, 2, &A); evals(a, A); }
SX_HARNESS(assign_lex) { vars({"x", "y", "z"}); RP A; auto a = gen<PL>("a", D3, -2, 2, &A); evals(a, A); }
SX_HARNESS(assign_up) { vars({"x", "y", "z"}); univariate_priority_order c(VS[1]); RP A; auto a = genc<PU>(&c, "a", D3, -2, 2, &A); evals(a, A); }
SX_HARNESS(coef_grlex) { vars({"x", "y", "z"}); RP A; auto a = gen<polynomial_ZZ>("a", D3, -2, 2, &A); coefs(a, A); }
SX_HARNESS(coef_lex) { vars({"x", "y", "z"}); RP A; auto a = gen<PL>("a", D3, -2, 2, &A); coefs(a, A); sx_check(get_first_deg(a) == (a.empty() ? 0 : rdeg(toR(a), 0) ? rdeg(toR(a), 0) : rdeg(toR(a), 1)), "main degree"); RP R = toR(a); int mv = rdeg(R, 0) ? 0 : rdeg(R, 1) ? 1 : -1; if (mv >= 0) { sx_check(get_first_var(a) == VS[mv], "main variable"); is(leadcoeff(a), rcoef(R, mv, rdeg(R, mv)), "initial"); is(derivative(a), rderiv(R, mv), "derivative in the main variable"); } }
SX_HARNESS(coef_up) { vars({"x", "y", "z"}); univariate_priority_order c(VS[1]); RP A; auto a = genc<PU>(&c, "a", D3, -2, 2, &A); coefs(a, A); RP R = toR(a); sx_check(get_up_deg(a) == rdeg(R, 1), "degree in the priority variable"); auto co = coeff(a); sx_check((int64_t)co.size() == rdeg(R, 1) + 1, "coefficients"); for (size_t k = 0; k < co.size(); ++k) is(co[k], rcoef(R, 1, k), "coefficient"); PU lc(&c); sx_check(leadcoeff(lc, a) == rdeg(R, 1), "leadcoeff degree"); is(lc, rcoef(R, 1, rdeg(R, 1)), "leadcoeff"); }
SX_HARNESS(deriv_zp) { vars({"x", "y"}); static const uint64_t PR[] = {2, 3, 5}; uint64_t p = PR[sx_choice("p", 3)]; RP A; auto a = genp<PZp>("a", {{3, 0}, {2, 1}, {0, 2}, {1, 0}}, p, &A); int v = sx_choice("v", 2); isp(derivative(a, VS[v]), rderiv(A, v), p, "derivative"); PZp g; int64_t k = sx_int("c", 0, (int64_t)p - 1); Zp c(p); c = k; isp(assign(a, VS[v], c), rsubst(A, v, (long)k), p, "assign"); sx_reach("field"); }
SX_HARNESS(deriv_zp_u) { vars({"x"}); static const uint64_t PR[] = {2, 3, 5}; uint64_t p = PR[sx_choice("p", 3)]; RP A; auto a = genp<PZp>("a", {{5}, {3}, {2}, {1}, {0}}, p, &A); upolynomial_<Zp> u; poly_convert(a, u); isp(u, A, p, "conversion"); isp(derivative(u), rderiv(A, 0), p, "derivative"); int64_t k = sx_int("c", 0, (int64_t)p - 1); Zp c(p); c = k; Zp e = assign(u, c); RP s = rsubst(A, 0, (long)k); Z r = s.c[Ex{0}] % Z((unsigned long)p); sx_check(cofZ(e) == r, "evaluation"); sx_reach("field"); }
SX_HARNESS(upoly_eval) { vars({"x"}); RP A; auto u = ugen<ZZ>("a", {{4}, {2}, {1}, {0}}, -3, 3, &A); ZZ c = szz("c", -3, 3); RP s = rsubst(A, 0, toZ(c)); eqz(assign(u, c), s.c[Ex{0}], "evaluation"); is(derivative(u), rderiv(A, 0), "derivative"); clean(A); sx_check(get_deg(u) == rdeg(A, 0) && degree(u) == rdeg(A, 0), "degree"); sx_check(is_number(u) == (rdeg(A, 0) == 0), "is_number"); sx_reach("univariate"); }
SX_HARNESS(upoly_eval_qq) { vars({"x"}); RP A; auto u = ugen<ZZ>("a", {{3}, {1}, {0}}, -3, 3, &A); upolynomial_<QQ> q; poly_convert(u, q); int64_t n = sx_int("n", -3, 3); int d = sx_choice("d", 3) + 1; QQ v = QQ(ZZ(n)) / QQ(ZZ(d)); QQ e = assign(q, v); Z D = d, N = (long)n; Z ex = A.c[Ex{3}] * N * N * N + A.c[Ex{1}] * N * D * D + A.c[Ex{0}] * D * D * D; Z l = toZ(e.num()) * D * D * D, r = ex * toZ(e.den()); eqz(l, r, "evaluation at a rational"); QQ e2 = assign<QQ>(u, v); sx_check(e == e2, "integer polynomial at a rational"); upolynomial_ZZ b; poly_convert(q, b); is(b, A, "round trip"); sx_reach("rational"); }
SX_HARNESS(mod_p) { vars({"x", "y"}); static const uint64_t PR[] = {2, 3, 7, 4294967291ull}; uint64_t p = PR[sx_choice("p", 4)]; RP A; auto a = gen<polynomial_ZZ>("a", {{2, 0}, {0, 1}, {0, 0}}, -20, 20, &A); isp(polynomial_mod(a, p), A, p, "reduction"); polynomial_ZZ t = a; isp(polynomial_mod(std::move(t), p), A, p, "reduction (move)"); sx_reach("mod"); }
SX_HARNESS(mod_p_u) { vars({"x"}); static const uint64_t PR[] = {2, 3, 7, 4294967291ull}; uint64_t p = PR[sx_choice("p", 4)]; RP A; auto a = ugen<ZZ>("a", {{2}, {1}, {0}}, -20, 20, &A); auto m = polynomial_mod(a, p); isp(m, A, p, "reduction"); upolynomial_ZZ z; poly_convert(m, z); eqrmod(toR(z), A, Z((unsigned long)p), "lift"); canonP(z, "lift"); for (auto &t : z) sx_check(t.second > ZZ(0) && t.second < ZZ((uint64_t)p), "lifted representative"); sx_reach("mod"); }
SX_HARNESS(mod_p_big) { vars({"x"}); ZZ c = sbig("c", "-40000000000000000000", "40000000000000000000"), d = sbig("d", "-40000000000000000000", "40000000000000000000"); static const uint64_t PR[] = {2, 3, 4294967291ull, 18446744073709551557ull}; uint64_t p = PR[sx_choice("p", 4)]; upolynomial_ZZ a; if (c) a.push_back({umonomial(1), c}); if (d) a.push_back({umonomial(0), d}); RP A; A.c[Ex{1}] = toZ(c); A.c[Ex{0}] = toZ(d); isp(polynomial_mod(a, p), A, p, "reduction"); sx_reach("mod"); }
SX_HARNESS(convert) { // between monomial orders and back, including in place and moved-from
  vars({"x", "y", "z"}); RP A; auto a = gen<polynomial_ZZ>("a", {{1, 0, 2}, {2, 0, 0}, {0, 3, 0}, {0, 1, 1}, {0, 0, 0}}, -2, 2, &A); int v = sx_choice("v", 3); univariate_priority_order c(VS[v]); lex_<custom_var_order> cc(custom_var_order({VS[2], VS[0], VS[1]})); PL l; poly_convert(a, l); is(l, A, "lex"); PU u(&c); poly_convert(a, u); is(u, A, "univariate priority"); PC k(&cc); poly_convert(l, k); is(k, A, "custom order"); polynomial_ZZ b; poly_convert(k, b); is(b, A, "back"); sx_check(a == b, "round trip"); PU u2(&c); u2 = l; is(u2, A, "assignment"); poly_convert(std::move(u2), b); is(b, A, "moved"); poly_convert(a, a); is(a, A, "onto itself"); polynomial_QQ q; poly_convert(a, q); eqq(q, A, 1, "rationals"); poly_convert(q, b); is(b, A, "from rationals"); sx_reach("convert");
}
SX_HARNESS(convert_qq) { vars({"x"}); ZZ a = szz("a", -3, 3), b = szz("b", -3, 3); int d = sx_choice("d", 4) + 1, e = sx_choice("e", 4) + 1; polynomial_QQ q; QQ r = QQ(a) / QQ(ZZ(d)), s = QQ(b) / QQ(ZZ(e)); if (r) q.push_back({monomial(VS[0]), r}); if (s) q.push_back({monomial(), s}); polynomial_ZZ z; poly_convert(q, z); canonP(z, "canonical"); sx_check(z.size() == q.size(), "same support"); Z den = 0; RP R = toR(z), A; A.c[Ex{1}] = toZ(a) * e; A.c[Ex{0}] = toZ(b) * d; Z x = R.c[Ex{1}] * A.c[Ex{0}], y = R.c[Ex{0}] * A.c[Ex{1}]; eqz(x, y, "proportional to the rational polynomial"); Z pr = R.c[Ex{1}] * A.c[Ex{1}] + R.c[Ex{0}] * A.c[Ex{0}]; if (!q.empty()) sx_check(pr > 0, "positive multiple"); sx_reach("denominators"); }
SX_HARNESS(convert_u) { vars({"x"}); RP A; auto a = gen<polynomial_ZZ>("a", {{3}, {1}, {0}}, -3, 3, &A); upolynomial_ZZ u; poly_convert(a, u); is(u, A, "to univariate"); polynomial_ZZ b; poly_convert(u, b, VS[0]); is(b, A, "back"); univariate_priority_order c(VS[0]); PU w(&c); poly_convert(u, w, VS[0]); is(w, A, "univariate priority"); sx_reach("convert"); }
// ---- P07 ------------------------------------------------------------------------------------------------------
SX_HARNESS(eq_pairs) { vars({"x", "y"}); RP x, y; auto a = gen<polynomial_ZZ>("a", {{1, 0}, {0, 1}, {0, 0}}, -2, 2, &x), b = gen<polynomial_ZZ>("b", {{0, 1}, {1, 0}, {0, 0}}, -2, 2, &y); RP d = radd(x, y, -1); clean(d); bool e = d.c.empty(); sx_check((a == b) == e && (b == a) == e && (a != b) != e, "equality is mathematical"); if (e) { sx_check(!(a < b) && !(a > b) && a <= b && a >= b, "equal polynomials are not ordered"); sx_reach("equal"); } else { sx_check((a < b) != (b < a), "total order"); sx_check((a > b) == (b < a) && (a >= b) == (b <= a), "converse"); sx_reach("different"); } }
SX_HARNESS(eq_order) { vars({"x", "y"}); static const std::vector<Ex> S = {{1, 0}, {0, 1}, {0, 0}}; auto a = gen<polynomial_ZZ>("a", S, -1, 1), b = gen<polynomial_ZZ>("b", S, -1, 1), c = gen<polynomial_ZZ>("c", S, -1, 1); if (a < b && b < c) { sx_check(a < c, "transitive"); sx_reach("chain"); } }
SX_HARNESS(eq_history) { // one polynomial along several construction histories
  vars({"x", "y"}); RP A, B; auto a = gen<polynomial_ZZ>("a", {{2, 0}, {1, 1}, {0, 0}}, -2, 2, &A), b = gen<polynomial_ZZ>("b", {{1, 0}, {0, 1}, {0, 0}}, -1, 1, &B); std::vector<polynomial_ZZ> h; h.push_back((a + b) - b); h.push_back(-(b - (a + b))); h.push_back(a * polynomial_ZZ(ZZ(1))); if (!b.empty()) h.push_back((a * b) / b); h.push_back(a * b - a * (b - 1)); PL l; poly_convert(a, l); polynomial_ZZ t; poly_convert(l, t); h.push_back(t); std::vector<std::pair<monomial, ZZ>> v(a.data().rbegin(), a.data().rend()); h.push_back(polynomial_ZZ(v)); polynomial_QQ q; poly_convert(a, q); poly_convert(q, t); h.push_back(t);
  size_t ha = hash_value(a); for (auto &p : h) { sx_check(p == a, "equal"); sx_check(!(p != a) && !(p < a) && !(a < p), "not ordered"); sx_check(hash_value(p) == ha && std::hash<polynomial_ZZ>()(p) == ha, "equal polynomials hash alike"); sx_check(p.is_normal(), "is_normal"); } sx_reach("history");
}
SX_HARNESS(eq_big) { vars({"x"}); ZZ c = sbig("c", "-40000000000000000000", "40000000000000000000"); sx_assume(c != ZZ(0)); ZZ big = fromZ(Z("100000000000000000000")); polynomial_ZZ a, b; a.push_back({monomial(VS[0]), c}); b.push_back({monomial(VS[0]), c + big}); polynomial_ZZ d; d.push_back({monomial(VS[0]), big}); polynomial_ZZ e = b - d; sx_check(e == a, "equal after leaving and re-entering the machine word"); sx_check(e.front().second.is_small() == a.front().second.is_small(), "same representation"); sx_reach("big"); }
SX_HARNESS(normal_form) { // is_normal accepts exactly the canonical forms
  vars({"x", "y"}); polynomial_ZZ p; int n = sx_choice("n", 4); static const Ex S[] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}}; bool ok = true; int prev = 9; for (int i = 0; i < n; ++i) { int k = sx_choice(nm("m", i).c_str(), 4); ZZ c = szz(nm("c", i), -1, 1); p.data().push_back({mkm<monomial>(S[k]), c}); ok = ok && k < prev && bool(c); prev = k; } sx_check(p.is_normal() == ok, "is_normal"); if (n && ok) sx_reach("normal"); if (!ok) sx_reach("not normal"); p.normalization(); canonP(p, "normalization"); sx_check(p.is_normal(), "normal after normalization");
}
SX_HARNESS(normal_mono) { vars({"x", "y"}); monomial m; int n = sx_choice("n", 3); bool ok = true; int prev = -1; for (int i = 0; i < n; ++i) { int k = sx_choice(nm("v", i).c_str(), 2); int64_t e = sx_int(nm("e", i).c_str(), 0, 2); m.push_back({VS[k], e}); ok = ok && k > prev && e > 0; prev = k; } if (ok) sx_check(m.is_normal(), "normal monomial accepted"); else { bool pos = m.is_normal(); sx_check(!pos, "abnormal monomial rejected"); } sx_reach("monomial"); polynomial_ZZ p; p.data().push_back({m, ZZ(1)}); sx_check(p.is_normal() == ok, "polynomial with that monomial"); }
