// Characteristic sets and triangular decompositions.  VS lists the variables from the greatest to the least.
#include "gb.hh"
typedef lex_<custom_var_order> CO; typedef polynomial_<ZZ, CO> P; typedef std::vector<P> PL_;
static CO *ORD = nullptr;
static void setup(std::initializer_list<const char *> l, bool rev) { vars(l); if (rev) std::reverse(VS.begin(), VS.end()); ORD = new CO(custom_var_order(VS)); }
static P mk(const RP &r) { P p(ORD); for (auto &x : r.c) { basic_monomial<CO> m(ORD); for (size_t k = 0; k < VS.size(); ++k) if (x.first[k]) m.push_back({VS[k], x.first[k]}); m.normalization(); p.push_back({m, fromZ(x.second)}); } p.normalization(); return p; }
static int cls(const RP &f) { for (size_t i = 0; i < VS.size(); ++i) if (rdeg(f, i) > 0) return (int)i; return -1; } // index of the main variable
static RP rprem(RP f, const RP &g, int v) { int64_t n = rdeg(g, v); RP c = rcoef(g, v, n); for (f = clean(f); rdeg(f, v) >= n && !f.c.empty();) { int64_t d = rdeg(f, v); RP l = rcoef(f, v, d); Ex e(VS.size(), 0); e[v] = d - n; f = clean(radd(rmul(c, f), rmul(mulx(g, e, Z(1)), l), -1)); } return f; }
static RL chainR(const PL_ &C) { RL r; for (auto &c : C) { canonP(c, "chain element is canonical"); r.push_back(clean(toR(c))); } return r; }
static bool isnum(const RP &f) { return cls(f) < 0; }
static void charck(const RL &R) {
  PL_ F; RL N; for (auto &r : R) { F.push_back(mk(r)); RP c = clean(r); if (!c.c.empty()) N.push_back(c); } auto C = charset(F); RL K = chainR(C); sx_check(K.empty() == N.empty(), "the chain is empty exactly when every input is zero"); if (K.empty()) return; GR = true; RL W = rgb(N);
  for (auto &k : K) sx_check(rnf(k, W).c.empty(), "chain elements lie in the ideal"); for (auto &k : K) sx_check(!k.c.empty(), "chain elements are not zero");
  if (isnum(K[0])) { sx_check(K.size() == 1, "a contradictory chain is one constant"); sx_reach("contradictory"); return; }
  for (size_t i = 0; i < K.size(); ++i) { sx_check(!isnum(K[i]), "chain elements have a main variable"); for (size_t j = 0; j < i; ++j) { sx_check(cls(K[i]) < cls(K[j]), "main variables increase"); sx_check(rdeg(K[i], cls(K[j])) < rdeg(K[j], cls(K[j])), "reduced with respect to the predecessors"); } if (isnum(K[i])) return; }
  for (auto f : N) { for (size_t i = K.size(); i-- > 0;) f = rprem(f, K[i], cls(K[i])); sx_check(f.c.empty(), "inputs have pseudo-remainder zero"); } if (K.size() > 1) sx_reach("chain"); else sx_reach("one element");
  // the elementary queries
  for (size_t i = 0; i < F.size(); ++i) for (size_t j = 0; j < F.size(); ++j) { RP a = clean(R[i]), b = clean(R[j]); if (a.c.empty() || b.c.empty()) continue; int x = cls(a), y = cls(b); bool lower = x < 0 ? y >= 0 : (y >= 0 && (x > y || (x == y && rdeg(a, x) < rdeg(b, y)))); sx_check(rankcompare(F[i], F[j]) == lower, "rank comparison"); if (x >= 0 && y >= 0) sx_check(is_reduced(F[i], F[j]) == (rdeg(a, y) < rdeg(b, y)), "reducedness"); }
}
SX_HARNESS(cs_uni) { setup({"x"}, false); charck({par("f", {{{2}, 1}, {{1}, 1}, {{0}, 1}}), par("g", {{{2}, 1}, {{1}, 1}, {{0}, 2}})}); }
SX_HARNESS(cs_lin) { setup({"y", "x"}, true); charck({par("f", {{{1, 0}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}), par("g", {{{1, 0}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}), par("h", {{{0, 1}, 1}, {{0, 0}, 1}})}); }
SX_HARNESS(cs_2) { setup({"y", "x"}, false); charck({par("f", {{{2, 0}, 2}, {{1, 1}, 2}, {{0, 1}, 1}, {{0, 0}, -1}}), par("g", {{{1, 1}, 1}, {{1, 0}, 1}, {{0, 2}, 1}})}); }
SX_HARNESS(cs_2rev) { setup({"y", "x"}, true); charck({par("f", {{{2, 0}, 2}, {{1, 1}, 2}, {{0, 1}, 1}, {{0, 0}, -1}}), par("g", {{{1, 1}, 1}, {{1, 0}, 1}, {{0, 2}, 1}})}); }
SX_HARNESS(cs_gap) { setup({"y", "x"}, false); charck({par("f", {{{3, 0}, 1}, {{0, 2}, 1}, {{0, 0}, 1}}), par("g", {{{1, 1}, 1}, {{0, 0}, 1}}), par("h", {{{0, 2}, 1}, {{0, 0}, 2}})}); }
SX_HARNESS(cs_3) { setup({"z", "y", "x"}, false); charck({par("f", {{{1, 1, 0}, 2}, {{0, 0, 1}, -1}, {{0, 0, 0}, 2}}), par("g", {{{0, 1, 1}, -1}, {{1, 0, 0}, 1}}), par("h", {{{1, 0, 1}, 1}, {{0, 1, 0}, 1}})}); }
SX_HARNESS(cs_zero) { setup({"y", "x"}, false); RL R; int k = sx_choice("k", 4); for (int i = 0; i < k; ++i) R.push_back(par(nm("f", i).c_str(), {{{1, 0}, i == 1 ? 0 : 1}, {{0, 1}, i == 2 ? 0 : 1}})); charck(R); }
// points: every polynomial evaluated exactly at integer points
static Z evp(const RP &f, const std::vector<Z> &p) { Z s = 0; for (auto &t : f.c) { Z v = t.second; for (size_t i = 0; i < p.size(); ++i) for (int64_t k = 0; k < t.first[i]; ++k) v = v * p[i]; s += v; } return s; }
static bool van(const RL &C, const std::vector<Z> &p) { for (auto &f : C) if (!isz(evp(f, p))) return false; return true; }
static RL chainR(const std::vector<PL_> &Ws, std::vector<RL> &out) { for (auto &w : Ws) out.push_back(chainR(w)); return {}; }
static void wuck(const RL &R, int lo, int hi) {
  PL_ F; for (auto &r : R) F.push_back(mk(r)); auto W = Wucharset(F); std::vector<RL> K; chainR(W, K); int n = VS.size(), m = hi - lo + 1, tot = 1; for (int i = 0; i < n; ++i) tot *= m;
  for (int q = 0; q < tot; ++q) { std::vector<Z> p; int t = q; for (int i = 0; i < n; ++i) { p.push_back(Z(lo + t % m)); t /= m; } bool z = van(R, p), in = false; for (auto &C : K) { bool ok = van(C, p); for (auto &f : C) if (ok) { int v = cls(f); if (v < 0 || isz(evp(rcoef(f, v, rdeg(f, v)), p))) ok = false; } in |= ok; } sx_check(z == in, "zeros of the system = zeros of the chains outside their initials"); if (z) sx_reach("zero"); }
}
SX_HARNESS(wu_2) { setup({"y", "x"}, false); wuck({par("f", {{{1, 1}, 2}, {{0, 1}, 1}, {{0, 0}, 1}}), par("g", {{{1, 0}, 2}, {{0, 2}, -1}, {{0, 0}, 1}})}, -1, 1); }
SX_HARNESS(wu_deg) { setup({"y", "x"}, true); wuck({par("f", {{{1, 1}, -1}, {{0, 1}, 2}, {{0, 0}, 1}}), par("g", {{{2, 0}, 1}, {{1, 0}, 2}, {{0, 0}, 2}})}, -1, 1); }
SX_HARNESS(wu_3) { setup({"z", "y", "x"}, false); wuck({par("f", {{{1, 1, 0}, -1}, {{0, 0, 1}, 2}, {{0, 0, 0}, 1}}), par("g", {{{1, 0, 1}, 1}, {{0, 1, 0}, 2}})}, -1, 1); }
// triangular sets with known zeros: products of linear forms
struct Tri { RL T; std::vector<std::vector<Z>> pts; };
static RP lin(const Z &a, const Z &b, const Z &c) { RP r; r.c[{1, 0}] += a; r.c[{0, 1}] += b; r.c[{0, 0}] += c; return r; }
static Tri tri(int na, int nb, int lo, int hi, bool distinct) { Tri t; RP A = rconst(1), B = rconst(1); std::vector<Z> a; std::vector<std::pair<Z, Z>> b; for (int i = 0; i < na; ++i) { Z v = toZ(szz(nm("a", i), lo, hi)); for (auto &u : a) sx_assume(!isz(u - v)); a.push_back(v); A = rmul(A, lin(Z(0), Z(1), -v)); }
  for (int i = 0; i < nb; ++i) { Z s = toZ(szz(nm("s", i), i ? -1 : 0, 1)), k = toZ(szz(nm("k", i), -1, 1)); if (distinct) for (auto &u : b) for (auto &v : a) sx_assume(!isz(u.first * v + u.second - s * v - k)); b.push_back({s, k}); B = rmul(B, lin(Z(1), -s, -k)); } t.T = {clean(A), clean(B)}; for (auto &v : a) for (auto &u : b) t.pts.push_back({u.first * v + u.second, v}); return t; }
static int inAny(const std::vector<RL> &K, const std::vector<Z> &p) { int n = 0; for (auto &c : K) n += van(c, p); return n; }
static void split(const Tri &t, const RP &f, bool classic) {
  PL_ T; for (auto &r : t.T) T.push_back(mk(r)); P q = mk(f); auto W = classic ? rsd(T, q) : wrsd(T, q); std::vector<RL> H, G; chainR(W.first, H); chainR(W.second, G);
  for (auto &p : t.pts) { bool z = isz(evp(f, p)); sx_check((inAny(H, p) > 0) == z, "zeros of f are in the first part"); sx_check((inAny(G, p) > 0) == !z, "other zeros are in the second part"); if (z) sx_reach("zero"); else sx_reach("not zero"); } }
static RP flin(const char *n) { return par(n, {{{1, 0}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}); }
SX_HARNESS(split_21) { setup({"y", "x"}, false); Tri t = tri(2, 1, -3, 3, false); split(t, flin("f"), false); }
SX_HARNESS(split_12) { setup({"y", "x"}, false); Tri t = tri(1, 2, -3, 3, false); split(t, flin("f"), false); }
SX_HARNESS(split_22) { setup({"y", "x"}, false); Tri t = tri(2, 2, -1, 1, false); split(t, flin("f"), false); }
SX_HARNESS(split_sq) { setup({"y", "x"}, false); Tri t = tri(2, 2, -1, wd(1, 2), false); RP f = par("f", {{{2, 0}, -1}, {{0, 1}, 1}, {{0, 0}, 1}}); split(t, f, false); }
SX_HARNESS(split_rsd) { setup({"y", "x"}, false); Tri t = tri(2, 2, -1, 1, true); split(t, flin("f"), true); }
SX_HARNESS(split_31) { setup({"y", "x"}, false); Tri t = tri(3, 1, -2, 2, false); split(t, flin("f"), false); }
SX_HARNESS(split_13) { setup({"y", "x"}, false); Tri t = tri(1, 3, -1, wd(0, 1), false); split(t, flin("f"), false); }
SX_HARNESS(sqchain3) { setup({"y", "x"}, false); Tri t = tri(1, 3, -1, 1, false); PL_ T; for (auto &r : t.T) T.push_back(mk(r)); auto S = RCtoSqrfree(T); std::vector<RL> K; chainR(S, K); for (auto &p : t.pts) { sx_check(inAny(K, p) == 1, "every zero is in exactly one square-free chain"); for (auto &c : K) if (van(c, p)) { sx_check(c.size() == 2, "chain has one polynomial per variable"); if (c.size() == 2) sx_check(!isz(evp(rderiv(c[1], 0), p)), "zeros of the chain are simple"); } } sx_reach("one chain"); }
SX_HARNESS(sqchain) { setup({"y", "x"}, false); Tri t = tri(2, 2, -3, 3, false); PL_ T; for (auto &r : t.T) T.push_back(mk(r)); auto S = RCtoSqrfree(T); std::vector<RL> K; chainR(S, K); for (auto &p : t.pts) { sx_check(inAny(K, p) == 1, "every zero is in exactly one square-free chain"); for (auto &c : K) if (van(c, p)) { sx_check(c.size() == 2, "chain has one polynomial per variable"); if (c.size() == 2) sx_check(!isz(evp(rderiv(c[1], 0), p)), "zeros of the chain are simple"); } } if (S.size() > 1) sx_reach("several chains"); else sx_reach("one chain"); }
// zero-dimensional systems given by products of linear forms
static void grd(const std::vector<std::vector<RP>> &L) {
  RL R; for (auto &l : L) { RP f = rconst(1); for (auto &x : l) f = rmul(f, x); R.push_back(clean(f)); } auto co = [](const RP &r, Ex e) { auto it = r.c.find(e); return it == r.c.end() ? Z(0) : it->second; }; struct Q { Z x, y, d; }; std::vector<Q> cand;
  for (auto &l : L[0]) for (auto &m : L[1]) { Z a = co(l, {1, 0}), b = co(l, {0, 1}), c = co(l, {0, 0}), u = co(m, {1, 0}), v = co(m, {0, 1}), w = co(m, {0, 0}); sx_assume(!(isz(a) && isz(b)) && !(isz(u) && isz(v))); Z d = a * v - b * u; if (isz(d)) { sx_assume(!(isz(a * w - c * u) && isz(b * w - c * v))); continue; } cand.push_back({b * w - c * v, c * u - a * w, d}); }
  auto ev = [](const RP &f, const Q &q) { Z s = 0; int64_t D = 0; for (auto &t : f.c) D = std::max(D, tot(t.first)); for (auto &t : f.c) { Z v = t.second; for (int64_t k = 0; k < t.first[0]; ++k) v = v * q.x; for (int64_t k = 0; k < t.first[1]; ++k) v = v * q.y; for (int64_t k = tot(t.first); k < D; ++k) v = v * q.d; s += v; } return s; };
  PL_ F; for (auto &r : R) F.push_back(mk(r)); auto W = GRDforZD(F); std::vector<RL> K; chainR(W, K); for (auto &c : K) { sx_check(c.size() == 2 && cls(c[0]) == 1 && cls(c[1]) == 0, "chain has one polynomial per variable"); } for (auto &w : W) sx_check(is_regular(w), "chains are regular");
  for (auto &q : cand) { bool z = true; for (auto &f : R) if (z && !isz(ev(f, q))) z = false; bool in = false; for (auto &c : K) { bool a = true; for (auto &f : c) if (a && !isz(ev(f, q))) a = false; in |= a; } sx_check(in == z, "zeros of the system = zeros of the chains"); if (z) sx_reach("zero"); } if (K.empty()) sx_reach("no zero"); }
static RP L3(const char *n, int lo, int hi) { return lin(toZ(szz(nm(n, 0), lo, hi)), toZ(szz(nm(n, 1), -1, 1)), toZ(szz(nm(n, 2), -1, 1))); }
SX_HARNESS(grd_11) { setup({"y", "x"}, false); grd({{L3("f", -2, 2)}, {L3("g", -2, 2)}}); }
SX_HARNESS(grd_21) { setup({"y", "x"}, false); grd({{L3("f", -1, 1), lin(Z(1), Z(1), toZ(szz("k", -1, 1)))}, {L3("g", -1, 1)}}); }
SX_HARNESS(grd_22) { setup({"y", "x"}, false); grd({{L3("f", 0, 1), lin(Z(1), Z(1), toZ(szz("k", -1, 1)))}, {lin(Z(1), toZ(szz("s", -2, 0)), Z(1)), lin(toZ(szz("t", 0, 1)), Z(2), Z(-1))}}); }
SX_HARNESS(grd_3) { setup({"y", "x"}, false); grd({{L3("f", 0, 1)}, {lin(Z(1), toZ(szz("s", -2, 0)), Z(1)), lin(Z(0), Z(1), toZ(szz("u", -1, 1)))}, {lin(Z(1), Z(-1), toZ(szz("v", -1, 1)))}}); }
