// Resultants, subresultant chains and discriminants against their determinant definitions.
#include "common.hh"
#include "alg.hh"
typedef polynomial_<ZZ, lex> PL;
typedef polynomial_<ZZ, grlex> PG;
// reference: determinant polynomial of index j of f, g (m = deg f, n = deg g in variable 0)
static RP xk(const RP &a, int64_t k) { RP r; for (auto &x : a.c) { Ex e = x.first; e[0] += k; r.c[e] = x.second; } return r; }
static RP subr(const RP &f, const RP &g, int j) {
  int m = rdeg(f, 0), n = rdeg(g, 0), N = m + n - 2 * j; std::vector<std::vector<RP>> M;
  auto row = [&](const RP &c, int s) { std::vector<RP> r; for (int k = 0; k < N - 1; ++k) { int i = m + n - j - 1 - k - s; r.push_back(i >= 0 ? rcoef(c, 0, i) : RP()); } RP l; for (int64_t i = 0; i + s <= j; ++i) { RP q = rcoef(c, 0, i); if (!q.c.empty()) l = radd(l, xk(q, i + s)); } r.push_back(l); M.push_back(r); };
  for (int s = n - j - 1; s >= 0; --s) row(f, s); for (int s = m - j - 1; s >= 0; --s) row(g, s); return N == 0 ? rconst(1) : rdet(M);
}
template <class P> static void resck(const RP &f, const RP &g) {
  P F = fromR<P>(f), G = fromR<P>(g); if (F.empty() || G.empty()) { if (F.empty() && !G.empty() && rdeg(clean(g), 0) > 0) { P r = resultant(F, G, VS[0]); sx_check(r.empty(), "resultant with zero"); r = resultant(G, F, VS[0]); sx_check(r.empty(), "resultant with zero"); } return; }
  RP a = clean(f), b = clean(g); int m = rdeg(a, 0), n = rdeg(b, 0);
  P r = resultant(F, G, VS[0]); canonP(r, "resultant is canonical"); RP e = m == 0 ? rpow(a, n) : n == 0 ? rpow(b, m) : subr(a, b, 0); eqr(toR(r), e, "resultant = determinant of the Sylvester matrix"); if (rzero(e)) sx_reach("vanishes"); else sx_reach("resultant");
}
template <class P> static void chainck(const RP &f, const RP &g) {
  P F = fromR<P>(f), G = fromR<P>(g); if (F.empty() || G.empty()) return; RP a = clean(f), b = clean(g); int m = rdeg(a, 0), n = rdeg(b, 0); if (n == 0 || m < n) return;
  auto L = subresultant(F, G, VS[0]); int u = m > n ? m : m + 1; sx_check((int)L.size() == u + 1, "length of the chain"); if ((int)L.size() != u + 1) return;
  eqr(toR(L[u]), a, "first element of the chain"); eqr(toR(L[u - 1]), b, "second element of the chain"); int gaps = 0;
  for (int j = 0; j < u - 1; ++j) { canonP(L[j], "chain element is canonical"); RP e; if (j < n) e = subr(a, b, j); else if (j == n) { e = rcoef(b, 0, n); e = rmul(rpow(e, m - n - 1), b); } eqr(toR(L[j]), e, "subresultant = determinant polynomial"); e = clean(e); if (j < n && rdeg(e, 0) < j) ++gaps; }
  auto S = subresultant(F, G, VS[0], false); sx_check(S.size() >= 1, "short form"); eqr(toR(S[0]), subr(a, b, 0), "short form gives the resultant"); if (gaps) sx_reach("defective"); else sx_reach("regular");
}
template <class P> static void discck(const RP &f) {
  P F = fromR<P>(f); if (F.empty()) return; RP a = clean(f); int m = rdeg(a, 0); P D = discriminant(F, VS[0]); canonP(D, "discriminant is canonical"); if (m == 0) { sx_check(D.empty(), "discriminant of a constant"); return; } if (m == 1) { eqr(toR(D), rconst(1), "discriminant of a linear polynomial"); return; }
  RP d = clean(rderiv(a, 0)); RP l = rmul(toR(D), rcoef(a, 0, m)); if ((m * (m - 1) / 2) & 1) l = rscale(l, -1); eqr(l, subr(a, d, 0), "(-1)^(m(m-1)/2) lc D = res(F, F')"); sx_reach("discriminant");
}
static RP dense(const char *n, int d, long lo, long hi) { std::vector<Ex> es; for (int i = d; i >= 0; --i) { Ex e(VS.size(), 0); e[0] = i; es.push_back(e); } return rgen(n, es, lo, hi); }
SX_HARNESS(res_22) { vars({"x"}); resck<PL>(dense("f", 2, -2, 2), dense("g", 2, -2, 2)); }
SX_HARNESS(res_31) { vars({"x"}); RP f = dense("f", 3, -2, 2), g = dense("g", 1, -2, 2); if (sx_choice("swap", 2)) resck<PL>(g, f); else resck<PL>(f, g); }
SX_HARNESS(res_32) { vars({"x"}); RP f = dense("f", 3, -1, 1), g = dense("g", 2, -1, 1); if (sx_choice("swap", 2)) resck<PG>(g, f); else resck<PG>(f, g); }
SX_HARNESS(res_33) { vars({"x"}); resck<PG>(dense("f", 3, -1, 1), dense("g", 3, -1, 1)); }
SX_HARNESS(res_sparse) { vars({"x"}); int m = 3 + sx_choice("m", 3), n = 3 + sx_choice("n", 3), i = sx_choice("i", 3), j = sx_choice("j", 3); resck<PL>(rgen("f", {{m}, {i}, {0}}, -1, 1), rgen("g", {{n}, {j}}, -1, 1)); }
SX_HARNESS(chain_22) { vars({"x"}); chainck<PL>(dense("f", 2, -2, 2), dense("g", 2, -2, 2)); }
SX_HARNESS(chain_32) { vars({"x"}); chainck<PL>(dense("f", 3, -1, 1), dense("g", 2, -1, 1)); }
SX_HARNESS(chain_33) { vars({"x"}); chainck<PG>(dense("f", 3, -1, 1), dense("g", 3, -1, 1)); }
SX_HARNESS(chain_41) { vars({"x"}); int n = 1 + sx_choice("n", 2); chainck<PL>(dense("f", 4, -1, 1), dense("g", n, -1, 1)); }
// f = q g + r with a low-degree remainder: degree gaps in the chain
static void gapfg(RP &f, RP &g, int dg, int dq, int dr) { std::vector<Ex> eg, eq, er; eg = {{dg}, {dg / 2}, {0}}; eq = {{dq}, {0}}; er = {{dr}, {0}}; g = rgen("g", eg, -1, 1); g.c[{dg}] = Z(1) + g.c[{dg}] * 2; RP q = rgen("q", eq, -1, 1), r = rgen("r", er, -1, 1); f = radd(rmul(q, g), r); }
SX_HARNESS(chain_gap) { vars({"x"}); RP f, g; int dg = 3 + sx_choice("dg", 3), dr = sx_choice("dr", 2); gapfg(f, g, dg, 1, dr); chainck<PL>(f, g); }
SX_HARNESS(chain_gap0) { vars({"x"}); RP f, g; int dg = 3 + sx_choice("dg", 2), dr = sx_choice("dr", 3); gapfg(f, g, dg, 0, dr); chainck<PL>(f, g); }
SX_HARNESS(chain_gap2) { vars({"x"}); RP f, g; int dg = 2 + sx_choice("dg", 2), dr = sx_choice("dr", 2); gapfg(f, g, dg, 2, dr); chainck<PG>(f, g); }
SX_HARNESS(res_gap) { vars({"x"}); RP f, g; int dg = 2 + sx_choice("dg", 3), dr = sx_choice("dr", 2); gapfg(f, g, dg, sx_choice("dq", 2), dr); if (sx_choice("swap", 2)) resck<PL>(g, f); else resck<PL>(f, g); }
// gap in a later step: g = q2 r + s, f = q1 g + r
SX_HARNESS(chain_gap_late) { vars({"x"}); int dr = 3 + sx_choice("dr", 2), ds = sx_choice("ds", 2); RP r = rgen("r", {{1}, {0}}, -1, 1); r.c[{dr}] = Z(1) + toZ(szz("l", 0, 1)); RP s = rgen("s", {{ds}, {0}}, -1, 1), q = rgen("q", {{1}, {0}}, -1, 1), p = rgen("p", {{1}}, 1, 2); RP g = radd(rmul(p, r), s), f = radd(rmul(q, g), r); chainck<PL>(f, g); resck<PL>(f, g); }
// parameters: coefficients a + b y (+ c z)
static RP par(const char *n, std::vector<std::pair<Ex, int>> es) { RP r; int k = 0; for (auto &x : es) { if (x.second >= 0) r.c[x.first] += toZ(szz(nm(n, k++), -x.second, x.second)); else r.c[x.first] += -x.second; } return r; }
SX_HARNESS(res_xy) { vars({"x", "y"}); RP f = par("f", {{{2, 0}, 1}, {{1, 1}, 1}, {{1, 0}, 1}, {{0, 2}, 1}, {{0, 0}, -1}}), g = par("g", {{{2, 1}, 1}, {{1, 0}, 1}, {{0, 1}, 1}}); if (sx_choice("swap", 2)) resck<PL>(g, f); else resck<PL>(f, g); }
SX_HARNESS(res_xy_grlex) { vars({"x", "y"}); RP f = par("f", {{{3, 0}, 1}, {{1, 1}, 1}, {{0, 2}, 1}, {{0, 0}, 1}}), g = par("g", {{{2, 0}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}); resck<PG>(f, g); }
SX_HARNESS(chain_xy) { vars({"x", "y"}); RP f = par("f", {{{3, 0}, -1}, {{2, 1}, 1}, {{1, 0}, 1}, {{0, 1}, 1}}), g = par("g", {{{2, 1}, 1}, {{2, 0}, 1}, {{1, 0}, 1}, {{0, 0}, 1}}); chainck<PL>(f, g); }
SX_HARNESS(chain_xy_gap) { vars({"x", "y"}); RP g = par("g", {{{3, 0}, 1}, {{3, 1}, -1}, {{1, 0}, 1}, {{0, 0}, 1}}), q = par("q", {{{1, 0}, 1}, {{0, 1}, 1}}), r = par("r", {{{1, 0}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}); RP f = radd(rmul(q, g), r); chainck<PG>(f, g); }
SX_HARNESS(res_xyz) { vars({"x", "y", "z"}); RP f = par("f", {{{2, 0, 0}, 1}, {{1, 1, 0}, 1}, {{0, 0, 1}, 1}, {{0, 0, 0}, 1}}), g = par("g", {{{2, 0, 1}, 1}, {{1, 0, 0}, 1}, {{0, 1, 0}, 1}}); resck<PL>(f, g); }
// four and more variables: determinant of the Bezout matrix
SX_HARNESS(res_bez22) { vars({"x", "y", "z", "w"}); RP f = par("f", {{{2, 0, 0, 0}, 1}, {{2, 1, 0, 0}, -1}, {{1, 0, 1, 0}, 1}, {{0, 0, 0, 1}, 1}}), g = par("g", {{{2, 0, 0, 0}, 1}, {{1, 0, 0, 1}, 1}, {{0, 1, 0, 0}, -1}, {{0, 0, 1, 0}, -1}}); if (sx_choice("swap", 2)) resck<PL>(g, f); else resck<PL>(f, g); }
SX_HARNESS(res_bez31) { vars({"x", "y", "z", "w"}); int m = 2 + sx_choice("m", 3); RP f = par("f", {{{m, 0, 0, 0}, 1}, {{1, 1, 0, 0}, 1}, {{0, 0, 1, 0}, -1}, {{m - 1, 0, 0, 0}, 1}}), g = par("g", {{{1, 0, 0, 0}, 1}, {{1, 0, 1, 0}, 1}, {{0, 0, 0, 1}, -1}}); if (sx_choice("swap", 2)) resck<PG>(g, f); else resck<PG>(f, g); }
SX_HARNESS(res_bez33) { vars({"x", "y", "z", "w"}); RP f = par("f", {{{3, 0, 0, 0}, 1}, {{3, 1, 0, 0}, -1}, {{1, 0, 1, 0}, 1}, {{0, 0, 0, 0}, 1}}), g = par("g", {{{3, 0, 0, 0}, 1}, {{2, 0, 0, 0}, 1}, {{1, 0, 0, 1}, -1}, {{0, 0, 0, 0}, 1}}); resck<PL>(f, g); }
SX_HARNESS(res_bez42) { vars({"x", "y", "z", "w"}); RP f = par("f", {{{4, 0, 0, 0}, -1}, {{2, 1, 0, 0}, 1}, {{0, 0, 1, 0}, 1}, {{0, 0, 0, 0}, 1}}), g = par("g", {{{2, 0, 0, 0}, -2}, {{1, 0, 0, 1}, 1}, {{0, 0, 0, 0}, 1}}); resck<PL>(f, g); }
SX_HARNESS(disc_3) { vars({"x"}); discck<PL>(dense("f", 3, -2, 2)); }
SX_HARNESS(disc_4) { vars({"x"}); discck<PL>(dense("f", 4, -1, 1)); }
SX_HARNESS(disc_sparse) { vars({"x"}); int m = 3 + sx_choice("m", 5), i = sx_choice("i", 3); discck<PG>(rgen("f", {{m}, {i}, {0}}, -2, 2)); }
SX_HARNESS(disc_xy) { vars({"x", "y"}); RP f = par("f", {{{2, 0}, 1}, {{2, 1}, 1}, {{1, 1}, 1}, {{1, 0}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}); discck<PL>(f); }
SX_HARNESS(disc_param) { vars({"x", "y", "z", "w"}); int m = 2 + sx_choice("m", 2); RP f = par("f", {{{m, 0, 0, 0}, 1}, {{m, 0, 0, 1}, -1}, {{1, 1, 0, 0}, 1}, {{0, 0, 1, 0}, 1}, {{0, 0, 0, 0}, 1}}); discck<PG>(f); }
SX_HARNESS(res_big) { vars({"x"}); RP f, g; f.c[{2}] = sz("a", BIGLO, BIGHI); f.c[{0}] = toZ(szz("b", -2, 2)); g.c[{1}] = toZ(szz("c", 1, 2)); g.c[{0}] = toZ(szz("d", -2, 2)) + Z("18446744073709551616") * sx_choice("e", 2); sx_assume(!isz(f.c[{2}])); resck<PL>(f, g); }
