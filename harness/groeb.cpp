// Groebner bases against a textbook Buchberger algorithm on the reference polynomials (no criteria, no sugar).
#include "gb.hh"
// rational coefficients: a polynomial times its common denominator
static Z num(const QQ &q) { return toZ(q.num()); }
static Z den(const QQ &q) { return toZ(q.den()); }
template <class P> static RP intOf(const P &p) { RP r; Z l = 1; for (auto &t : p) l *= den(t.second); for (auto &t : p) { Z v = num(t.second) * l; Z q; Z d = den(t.second); mpz_divexact(q.get_mpz_t(), v.get_mpz_t(), d.get_mpz_t()); r.c[exOf(t.first)] += q; } return r; }
template <class O> static RP intOf(const polynomial_<ZZ, O> &p) { return toR(p); }
template <class P> static void lc1(const P &g) { if constexpr (std::is_same_v<typename P::second_type, QQ>) { eqz(num(g.front().second), Z(1), "leading coefficient is 1"); eqz(den(g.front().second), Z(1), "leading coefficient is 1"); } else { sx_check(mpz_sgn(toZ(g.front().second).get_mpz_t()) > 0, "leading coefficient is positive"); Z c = 0; for (auto &t : g) { Z v = toZ(t.second); mpz_gcd(c.get_mpz_t(), c.get_mpz_t(), v.get_mpz_t()); } eqz(c, Z(1), "basis element is primitive"); } }
template <class P> static void basisck(const std::vector<P> &F, const RL &R) {
  auto G = groebner_basis(F); RL W = rgb(R); sx_check(G.size() == W.size(), "the reduced basis is unique"); if (G.size() != W.size()) return;
  for (auto &g : G) { canonP(g, "basis element is canonical"); sx_check(!g.empty(), "basis element is not zero"); if (g.empty()) return; lc1(g); RP a = clean(intOf(g)); Ex e = lead(a); const RP *m = nullptr; for (auto &w : W) if (lead(w) == e) m = &w; sx_check(m != nullptr, "leading monomials of the reduced basis"); if (!m) return; prop(a, *m, "element of the reduced basis"); }
  for (auto &f : F) { P r = normal_form(f, G); sx_check(r.empty(), "generators reduce to zero"); }
  for (size_t i = 0; i < G.size(); ++i) for (size_t j = 0; j < i; ++j) sx_check(normal_form(s_polynomial(G[i], G[j]), G).empty(), "S-polynomials reduce to zero");
  if (G.size() == 1 && G[0].size() == 1 && G[0].front().first.deg() == 0) sx_reach("whole ring"); else sx_reach("basis");
}
template <class P> static void both(const RL &R) { std::vector<P> F; for (auto &r : R) F.push_back(fromR<P>(r)); basisck(F, R); }
typedef polynomial_<ZZ, lex> ZL; typedef polynomial_<ZZ, grlex> ZG; typedef polynomial_<QQ, lex> QL; typedef polynomial_<QQ, grlex> QG;
template <class P> static P qq(const RP &r, const ZZ &d) { P p; for (auto &x : r.c) p.push_back({monoOf<typename P::first_type>(x.first), QQ(fromZ(x.second), d)}); p.normalization(); return p; }
SX_HARNESS(gb_uni) { vars({"x"}); RL R{par("f", {{{3}, -2}, {{2}, 2}, {{1}, 1}, {{0}, 1}}), par("g", {{{2}, 2}, {{1}, 1}, {{0}, 1}})}; both<ZG>(R); }
SX_HARNESS(gb_linear) { vars({"x", "y", "z"}); RL R; for (int i = 0; i < 2; ++i) R.push_back(par(nm("f", i).c_str(), {{{1, 0, 0}, 1}, {{0, 1, 0}, 1}, {{0, 0, 1}, 1}, {{0, 0, 0}, i}})); R.push_back(par("g", {{{1, 0, 0}, -1}, {{0, 1, 0}, 1}, {{0, 0, 0}, -2}})); both<ZG>(R); }
SX_HARNESS(gb_grlex) { vars({"x", "y"}); GR = true; both<ZG>({par("f", {{{2, 0}, -1}, {{1, 1}, 2}, {{0, 1}, 2}, {{0, 0}, 2}}), par("g", {{{1, 1}, -2}, {{0, 2}, 1}, {{1, 0}, 1}})}); }
SX_HARNESS(gb_lex) { vars({"x", "y"}); GR = false; both<ZL>({par("f", {{{2, 0}, -1}, {{1, 1}, 2}, {{0, 1}, 2}, {{0, 0}, 2}}), par("g", {{{1, 1}, -2}, {{0, 2}, 1}, {{1, 0}, 1}})}); }
SX_HARNESS(gb_lead) { vars({"x", "y"}); both<ZG>({par("f", {{{2, 0}, 2}, {{0, 1}, 1}, {{0, 0}, 1}}), par("g", {{{1, 1}, 2}, {{1, 0}, 1}})}); }
SX_HARNESS(gb_3) { vars({"x", "y", "z"}); both<ZG>({par("f", {{{1, 1, 0}, -1}, {{0, 0, 1}, 2}, {{0, 0, 0}, 2}}), par("g", {{{0, 1, 1}, -1}, {{1, 0, 0}, 2}}), par("h", {{{1, 0, 1}, -1}, {{0, 1, 0}, 1}})}); }
SX_HARNESS(gb_3lex) { vars({"x", "y", "z"}); GR = false; both<ZL>({par("f", {{{1, 1, 0}, -1}, {{0, 0, 1}, 2}, {{0, 0, 0}, 2}}), par("g", {{{0, 1, 1}, -1}, {{1, 0, 0}, 2}}), par("h", {{{1, 0, 1}, -1}, {{0, 1, 0}, 1}})}); }
// binomials and monomials with solver-chosen exponents: leading monomials in every relation
static Ex sx3(const char *n, int m) { Ex e; for (size_t i = 0; i < VS.size(); ++i) e.push_back(sx_value(sx_int(nm(n, (int)i).c_str(), 0, m))); return e; }
static RP bin(const Ex &a, const Ex &b, const Z &c) { RP r; r.c[a] += 1; r.c[b] += c; return r; }
SX_HARNESS(gb_bin2) { vars({"x", "y"}); both<ZG>({bin(sx3("a", 2), sx3("b", 1), Z(-1)), bin(sx3("c", 2), {0, 1}, toZ(szz("k", -1, 1)))}); }
SX_HARNESS(gb_bin2lex) { vars({"x", "y"}); GR = false; both<ZL>({bin(sx3("a", 2), sx3("b", 1), Z(-1)), bin(sx3("c", 2), {0, 1}, toZ(szz("k", -1, 1)))}); }
SX_HARNESS(gb_bin3) { vars({"x", "y", "z"}); both<ZG>({bin(sx3("a", 1), {0, 0, 1}, Z(-1)), bin(sx3("b", 1), {1, 0, 0}, Z(1)), bin({0, 2, 1}, sx3("c", 1), Z(-1))}); }
SX_HARNESS(gb_bin4) { vars({"x", "y", "z"}); Ex c = sx3("c", 2); both<ZG>({bin({2, 1, 0}, {0, 0, 1}, Z(-1)), bin({0, 2, 1}, {1, 0, 0}, Z(1)), bin({1, 0, 2}, {0, 1, 0}, Z(-1)), bin(c, {0, 0, 0}, toZ(szz("k", -1, 1)))}); }
SX_HARNESS(gb_bin5) { vars({"x", "y", "z"}); auto e = [](const char *n) { return 1 + sx_value(sx_int(n, 0, 1)); }; both<ZG>({bin({e("a"), 1, 0}, {0, 0, e("b")}, Z(-1)), bin({0, e("c"), 1}, {1, 0, 0}, Z(1)), bin({1, 0, e("d")}, {0, e("e"), 0}, toZ(szz("k", -1, 0))), bin({1, 1, 1}, {0, 0, 0}, toZ(szz("l", -1, 1)))}); }
SX_HARNESS(gb_bin5lex) { vars({"x", "y", "z"}); GR = false; auto e = [](const char *n) { return 1 + sx_value(sx_int(n, 0, 1)); }; both<ZL>({bin({e("a"), 1, 0}, {0, 0, e("b")}, Z(-1)), bin({0, e("c"), 1}, {1, 0, 0}, Z(1)), bin({1, 1, 1}, {0, 0, e("d")}, toZ(szz("l", -1, 1)))}); }
SX_HARNESS(gb_mono3) { vars({"x", "y", "z"}); RL R; for (int i = 0; i < 4; ++i) { RP r; r.c[sx3(nm("m", i).c_str(), 1)] = i + 1; r.c[Ex{0, 0, 0}] += i == 3 ? toZ(szz("k", 0, 1)) : Z(0); R.push_back(r); } both<ZG>(R); }
SX_HARNESS(gb_mono) { vars({"x", "y"}); RL R; for (int i = 0; i < 3; ++i) { RP r; r.c[sx3(nm("m", i).c_str(), 2)] = i + 1; R.push_back(r); } both<ZG>(R); }
SX_HARNESS(gb_qq) { vars({"x", "y"}); int d = 1 + sx_choice("d", 3), e = 1 + sx_choice("e", 2); RL R{par("f", {{{2, 0}, 1}, {{0, 1}, 2}}), par("g", {{{1, 1}, -3}, {{0, 0}, 2}})}; std::vector<QG> F{qq<QG>(R[0], ZZ(d)), qq<QG>(R[1], ZZ(-e))}; basisck(F, R); }
SX_HARNESS(gb_qq_lex) { vars({"x", "y"}); GR = false; int d = 1 + sx_choice("d", 3); RL R{par("f", {{{2, 0}, -2}, {{0, 1}, 2}, {{0, 0}, 1}}), par("g", {{{0, 2}, -3}, {{1, 0}, 1}, {{0, 0}, 1}})}; std::vector<QL> F{qq<QL>(R[0], ZZ(d)), qq<QL>(R[1], ZZ(2))}; basisck(F, R); }
SX_HARNESS(gb_trivial) { vars({"x", "y"}); int k = sx_choice("k", 4); std::vector<ZG> F; RL R; for (int i = 0; i < k; ++i) { RP r = par(nm("f", i).c_str(), {{{1, 0}, i == 2 ? 0 : 1}, {{0, 0}, 1}}); R.push_back(r); F.push_back(fromR<ZG>(r)); } basisck(F, R); }
SX_HARNESS(gb_order) { vars({"x", "y"}); RL R{par("f", {{{2, 0}, -1}, {{0, 1}, 1}, {{0, 0}, 1}}), par("g", {{{1, 1}, -1}, {{1, 0}, 1}}), par("h", {{{0, 2}, 1}, {{0, 0}, 1}})}; int a = sx_choice("a", 3), b = sx_choice("b", 2); RL S{R[a], R[(a + 1 + b) % 3], R[(a + 2 - b) % 3]}; both<ZG>(S); }
// normal forms modulo arbitrary lists, and the operations of an ideal
template <class P> static void nfck(const RP &f, const RL &G) { P F = fromR<P>(f); std::vector<P> L; RL N; for (auto &g : G) { P p = fromR<P>(g); L.push_back(p); RP c = clean(g); if (!c.c.empty()) N.push_back(c); } P r = normal_form(F, L); canonP(r, "normal form is canonical"); RP rr = clean(intOf(r)); for (auto &t : rr.c) for (auto &g : N) sx_check(!divs(lead(g), t.first), "normal form is irreducible"); prop(rr, rnf(clean(f), N), "normal form by the first divisor that applies"); if (rr.c.empty()) sx_reach("zero"); else sx_reach("not zero"); }
SX_HARNESS(nf_grlex) { vars({"x", "y"}); nfck<ZG>(par("f", {{{2, 1}, 1}, {{1, 1}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}), {par("g", {{{1, 1}, 2}, {{0, 1}, 1}}), par("h", {{{2, 0}, -3}, {{0, 0}, 1}})}); }
SX_HARNESS(nf_lex) { vars({"x", "y"}); GR = false; nfck<ZL>(par("f", {{{2, 1}, 1}, {{1, 1}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}), {par("g", {{{1, 1}, 2}, {{0, 2}, 1}}), par("h", {{{0, 1}, -2}, {{0, 0}, 1}})}); }
template <class P> static void idealck(const RL &R, const RP &f, const RP &c0, const RP &c1) {
  std::vector<P> F; for (auto &r : R) F.push_back(fromR<P>(r)); Ideal<typename P::second_type, typename P::compare_type> I(F); RL W = rgb(R);
  RP in = radd(rmul(R[0], c0), rmul(R[1], c1)); sx_check(I.contains(fromR<P>(in)), "combinations of the generators are members"); P p = fromR<P>(f); RP n = rnf(clean(f), W); bool mem = n.c.empty(); sx_check(I.contains(p) == mem, "membership"); P r = I.reduce(p); prop(intOf(r), n, "representative of the class"); sx_check(I.generators() == F, "generators"); sx_check(I.groebner_basis() == groebner_basis(F), "cached basis"); P s = I.reduce(fromR<P>(radd(f, in))); prop(intOf(s), n, "representative does not depend on the element of the class"); sx_reach(mem ? "member" : "not a member"); }
SX_HARNESS(ideal_grlex) { vars({"x", "y"}); idealck<ZG>({par("f", {{{2, 0}, -1}, {{0, 1}, 1}}), par("g", {{{1, 1}, -1}, {{0, 0}, 1}})}, par("p", {{{1, 1}, 1}, {{0, 2}, 1}, {{0, 0}, 1}}), par("c", {{{1, 0}, 1}}), rconst(2)); }
SX_HARNESS(spoly) { vars({"x", "y"}); RP f = par("f", {{{2, 1}, 2}, {{1, 0}, 1}, {{0, 0}, 1}}), g = par("g", {{{1, 2}, 2}, {{0, 1}, 2}}); ZG F = fromR<ZG>(f), G = fromR<ZG>(g); if (F.empty() || G.empty()) return; ZG s = s_polynomial(F, G); canonP(s, "S-polynomial is canonical"); prop(toR(s), rspoly(clean(f), clean(g)), "S-polynomial"); sx_reach("S-polynomial"); }
