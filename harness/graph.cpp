// Graphs: every edge is a symbolic bit, every random draw of the algorithms a symbolic integer.
#include "alg.hh"
#include <cstdlib>
static int RN = 0, RMAX = 1 << 30;
// the library draws random numbers to break ties: the draw is any value the generator can return
extern "C" int rand(void) noexcept { if (RN >= RMAX) return 0; return (int)sx_int(nm("r", RN++).c_str(), 0, RAND_MAX); }
typedef std::vector<std::vector<char>> Ad;
typedef graph<variable> Gr;
static void gv(int n) { VS.clear(); for (int i = 0; i < n; ++i) VS.push_back(variable(nm("v", i))); }
static Ad adj0(int n) { return Ad(n, std::vector<char>(n, 0)); }
static Ad symAdj(int n) { Ad a = adj0(n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (sx_int((nm("e", i) + nm("_", j)).c_str(), 0, 1)) a[i][j] = a[j][i] = 1; return a; }
static Gr mk(const Ad &a) { Gr g; for (size_t i = 0; i < a.size(); ++i) g.add_node(VS[i]); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) if (a[i][j]) { if ((i + j) % 2) g.add_edge(VS[i], VS[j]); else g.add_edge(g.index(VS[j]), g.index(VS[i])); } return g; }
static int at(const variable &v) { for (size_t i = 0; i < VS.size(); ++i) if (VS[i].serial() == v.serial()) return (int)i; return -1; }
// adjacency over VS, with all the structural invariants of the class
static Ad adOf(const Gr &g, const char *m) {
  int n = VS.size(); Ad a = adj0(n); sx_check(g.nodes().size() == g.size() && g.adjacency_list().size() == g.size() && g.mnode().size() == g.size(), m); std::vector<char> seen(n, 0);
  for (size_t k = 0; k < g.size(); ++k) { int i = at(g.node(k)); sx_check(i >= 0 && !seen[i], m); if (i < 0) return a; seen[i] = 1; sx_check(g.index(g.node(k)) == k, m); for (auto q : g.adjacency_list()[k]) { sx_check(q < g.size() && q != k, m); if (q < g.size()) { int j = at(g.node(q)); if (j >= 0) a[i][j] = 1; } } }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { sx_check(a[i][j] == a[j][i], m); if (seen[i] && seen[j]) { sx_check(g.is_edge(VS[i], VS[j]) == (a[i][j] != 0), m); sx_check(g.is_edge(g.index(VS[i]), g.index(VS[j])) == (a[i][j] != 0), m); } }
  return a;
}
static bool chordal(Ad a) { int n = a.size(); std::vector<char> dead(n, 0); for (int k = 0; k < n; ++k) { bool ok = false; for (int v = 0; v < n && !ok; ++v) if (!dead[v]) { bool s = true; for (int i = 0; i < n; ++i) if (!dead[i] && i != v && a[v][i]) for (int j = 0; j < i; ++j) if (!dead[j] && j != v && a[v][j] && !a[i][j]) s = false; if (s) { dead[v] = 1; ok = true; } } if (!ok) return false; } return true; }
static bool isPeo(const Ad &a, const std::vector<int> &l) { int n = a.size(); for (int k = 0; k < n; ++k) for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < i; ++j) if (a[l[k]][l[i]] && a[l[k]][l[j]] && !a[l[i]][l[j]]) return false; return true; }
// the elimination game by its path characterisation: i and j become adjacent iff a path joins them whose inner vertices are all eliminated before both
static Ad fill(const Ad &a, const std::vector<int> &l) { int n = a.size(); std::vector<int> pos(n); for (int k = 0; k < n; ++k) pos[l[k]] = k; Ad r = adj0(n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { int m = std::min(pos[i], pos[j]); std::vector<char> s(n, 0); std::vector<int> q{i}; s[i] = 1; bool hit = false; while (!q.empty() && !hit) { int u = q.back(); q.pop_back(); for (int w = 0; w < n; ++w) if (a[u][w]) { if (w == j) hit = true; if (!s[w] && pos[w] < m) { s[w] = 1; q.push_back(w); } } } if (hit) r[i][j] = 1; } return r; }
static int height(const Ad &f, const std::vector<int> &l) { int n = l.size(); std::vector<int> pos(n), h(n, 0); for (int k = 0; k < n; ++k) pos[l[k]] = k; int best = 0; for (int k = 0; k < n; ++k) { int v = l[k], p = -1; for (int i = 0; i < n; ++i) if (f[v][i] && pos[i] > k && (p < 0 || pos[i] < pos[p])) p = i; best = std::max(best, h[v]); if (p >= 0) h[p] = std::max(h[p], h[v] + 1); } return best; }
static std::vector<int> perm(const std::vector<variable> &l, int n, const char *m) { std::vector<int> r; std::vector<char> s(n, 0); sx_check((int)l.size() == n, m); for (auto &v : l) { int i = at(v); sx_check(i >= 0 && !s[i], m); if (i < 0) return {}; s[i] = 1; r.push_back(i); } if ((int)r.size() != n) return {}; return r; }
static bool sub(const Ad &a, const Ad &b) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) if (a[i][j] && !b[i][j]) return false; return true; }
static void completion(const Ad &a) {
  int n = a.size(); Gr g = mk(a); sx_check(adOf(g, "graph is what was added") == a, "graph is what was added"); Gr o; int r0 = RN; auto l = chordal_completion(o, g); Ad c = adOf(o, "completion is a graph"); auto p = perm(l, n, "ordering is a permutation of the vertices"); if (p.empty() && n) return;
  sx_check(sub(a, c), "completion contains the graph"); sx_check(chordal(c), "completion is chordal"); sx_check(isPeo(c, p), "ordering is a perfect elimination ordering of the completion"); sx_check(adOf(g, "input graph is unchanged") == a, "input graph is unchanged");
  sx_check(fill(a, p) == c, "completion is the elimination game of the ordering"); bool ch = chordal(a); if (ch) { sx_check(c == a, "a chordal graph is its own completion"); sx_reach("chordal"); } else {
    sx_reach("not chordal"); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (c[i][j] && !a[i][j]) { Ad d = c; d[i][j] = d[j][i] = 0; sx_check(!chordal(d), "completion is minimal"); } }
  sx_check(adOf(elimination_game(g, l), "elimination game") == c, "elimination game"); sx_check((int)elimination_height(g, l) == height(c, p), "elimination height"); (void)r0;
}
static Ad symAdj6() { Ad a = adj0(6); for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) { bool e; if (!DEEP && ((i == 1 && j == 0))) e = true; else if (!DEEP && ((i == 5 && j == 0) || (i == 4 && j == 2))) e = false; else e = sx_int((nm("e", i) + nm("_", j)).c_str(), 0, 1); if (e) a[i][j] = a[j][i] = 1; } return a; }
SX_HARNESS(comp_3) { gv(3); completion(symAdj(3)); }
SX_HARNESS(comp_4) { gv(4); completion(symAdj(4)); }
SX_HARNESS(comp_5) { gv(5); RMAX = 2; completion(symAdj(5)); }
// every way to break ties on a cycle with symbolic chords
SX_HARNESS(comp_c5) { gv(5); Ad a = adj0(5); for (int i = 0; i < 5; ++i) a[i][(i + 1) % 5] = a[(i + 1) % 5][i] = 1; if (sx_int("c0", 0, 1)) a[0][2] = a[2][0] = 1; if (sx_int("c1", 0, 1)) a[1][3] = a[3][1] = 1; completion(a); }
SX_HARNESS(comp_6) { gv(6); RMAX = 0; Ad a = symAdj6(); completion(a); }
SX_HARNESS(comp_7) { gv(7); RMAX = 2; Ad a = adj0(7); for (int i = 0; i < 7; ++i) a[i][(i + 1) % 7] = a[(i + 1) % 7][i] = 1; for (int i = 0; i < 7; ++i) if (sx_int(nm("c", i).c_str(), 0, 1)) { int j = (i + 2 + i % 2) % 7; a[i][j] = a[j][i] = 1; } completion(a); }
SX_HARNESS(comp_grid) { gv(8); RMAX = 2; Ad a = adj0(8); auto e = [&](int i, int j) { a[i][j] = a[j][i] = 1; }; for (int i = 0; i < 4; ++i) e(i, i + 4); for (int i = 0; i < 3; ++i) { if (sx_int(nm("t", i).c_str(), 0, 1)) e(i, i + 1); if (sx_int(nm("b", i).c_str(), 0, 1)) e(i + 4, i + 5); } if (sx_int("x", 0, 1)) e(0, 3); if (sx_int("y", 0, 1)) e(4, 7); completion(a); }
// orderings of chordal graphs by maximum cardinality search
static void mcs(const Ad &a) { if (!chordal(a)) { sx_reach("not chordal"); return; } Gr g = mk(a); auto l = perfect_elimination_ordering(g); auto p = perm(l, a.size(), "ordering is a permutation of the vertices"); if (p.empty() && a.size()) return; sx_check(isPeo(a, p), "perfect elimination ordering of a chordal graph"); sx_reach("chordal"); }
SX_HARNESS(peo_4) { gv(4); mcs(symAdj(4)); }
SX_HARNESS(peo_5) { gv(5); RMAX = 3; mcs(symAdj(5)); }
SX_HARNESS(peo_6) { gv(6); RMAX = 0; mcs(symAdj6()); }
// elimination along every ordering
static std::vector<int> symPerm(int n) { std::vector<int> l, rest; for (int i = 0; i < n; ++i) rest.push_back(i); for (int k = 0; k < n; ++k) { int c = n - k > 1 ? sx_choice(nm("p", k).c_str(), n - k) : 0; l.push_back(rest[c]); rest.erase(rest.begin() + c); } return l; }
static void elim(const Ad &a, const std::vector<int> &p) { Gr g = mk(a); std::vector<variable> l; for (int i : p) l.push_back(VS[i]); Ad f = fill(a, p); Gr e = elimination_game(g, l); sx_check(adOf(e, "elimination game") == f, "elimination game"); sx_check((int)elimination_height(g, l) == height(f, p), "elimination height"); sx_check(adOf(g, "input graph is unchanged") == a, "input graph is unchanged"); if (f == a) sx_reach("perfect"); else sx_reach("fill"); }
SX_HARNESS(elim_4) { gv(4); Ad a = symAdj(4); elim(a, symPerm(4)); }
SX_HARNESS(elim_5) { gv(5); Ad a = adj0(5); for (int i = 0; i < 5; ++i) if (sx_int(nm("e", i).c_str(), 0, 1)) a[i][(i + 1) % 5] = a[(i + 1) % 5][i] = 1; if (sx_int("c", 0, 1)) a[0][2] = a[2][0] = 1; elim(a, symPerm(5)); }
SX_HARNESS(elim_6) { gv(6); Ad a = symAdj6(); elim(a, {3, 0, 5, 2, 4, 1}); }
// components, distances
static void comps(const Ad &a) { int n = a.size(); Gr g = mk(a); Ad r = a; for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && r[i][k] && r[k][j]) r[i][j] = 1;
  auto l = connected_branch(g); std::vector<int> id(n, -1); for (size_t b = 0; b < l.size(); ++b) { sx_check(!l[b].empty(), "component is not empty"); for (auto &v : l[b]) { int i = at(v); sx_check(i >= 0 && id[i] < 0, "components partition the vertices"); if (i >= 0) id[i] = (int)b; } } for (int i = 0; i < n; ++i) sx_check(id[i] >= 0, "components partition the vertices"); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) sx_check((id[i] == id[j]) == (r[i][j] != 0), "same component iff joined by a path");
  sx_check(adOf(connected_branch_graph(g), "component closure") == r, "component closure"); if (l.size() > 1) sx_reach("disconnected"); else sx_reach("connected");
  for (int v = 0; v < n; ++v) { std::vector<int> d(n, -1); d[v] = 0; int ecc = 0; for (int s = 1; s < n; ++s) for (int i = 0; i < n; ++i) if (d[i] == s - 1) for (int j = 0; j < n; ++j) if (a[i][j] && d[j] < 0) { d[j] = s; ecc = s; } sx_check((int)DFV(g, VS[v]) == ecc, "greatest distance from a vertex"); } }
SX_HARNESS(comps_4) { gv(4); comps(symAdj(4)); }
SX_HARNESS(comps_5) { gv(5); comps(symAdj(5)); }
SX_HARNESS(comps_6) { gv(6); comps(symAdj6()); }
SX_HARNESS(diff_4) { gv(4); int n = 4; Ad a = adj0(n), b = adj0(n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { if (sx_int((nm("e", i) + nm("_", j)).c_str(), 0, 1)) a[i][j] = a[j][i] = 1; if (sx_int((nm("f", i) + nm("_", j)).c_str(), 0, 1)) b[i][j] = b[j][i] = 1; } Gr g = mk(a), h; for (int i = n; i-- > 0;) h.add_node(VS[i]); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (b[i][j]) h.add_edge(VS[j], VS[i]); int c = 0, u = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { c += a[i][j] && b[i][j]; u += a[i][j] || b[i][j]; } if (!u) return; double s = graph_diff_score(g, h); sx_check(s > 1 - (double)c / u - 1e-9 && s < 1 - (double)c / u + 1e-9, "share of differing edges"); sx_check((adOf(g, "graph") == adOf(h, "graph")) == (c == u), "graph"); sx_reach("score"); }
// the associated graph of polynomials with symbolic coefficients, and the ordering computed from it
template <class P> static void assoc(std::vector<std::vector<Ex>> sup, long lo, long hi) { std::vector<P> F; int n = VS.size(); Ad a = adj0(n); std::vector<char> occ(n, 0); int k = 0; for (auto &s : sup) { RP r; P f = gen<P>(nm("f", k++).c_str(), s, lo, hi, &r); F.push_back(f); RP q = clean(r); std::vector<char> in(n, 0); for (auto &t : q.c) for (int i = 0; i < n; ++i) if (t.first[i] > 0) in[i] = occ[i] = 1; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && in[i] && in[j]) a[i][j] = 1; }
  auto G = associatedgraph(F); Ad g = adOf(G, "associated graph"); sx_check(g == a, "variables are joined iff they occur in one polynomial"); int cnt = 0; for (int i = 0; i < n; ++i) { sx_check((G.mnode().find(VS[i]) != G.mnode().end()) == (occ[i] != 0), "vertices are the occurring variables"); cnt += occ[i]; } sx_check((int)G.size() == cnt, "vertices are the occurring variables");
  auto l = peo(F); sx_check((int)l.size() == cnt, "ordering of the occurring variables"); std::vector<int> p; std::vector<char> s(n, 0); for (auto &v : l) { int i = at(v); sx_check(i >= 0 && occ[i] && !s[i], "ordering of the occurring variables"); if (i < 0) return; s[i] = 1; p.push_back(i); } for (int i = 0; i < n; ++i) if (!s[i]) p.push_back(i); if (chordal(a)) { sx_check(isPeo(a, p), "perfect elimination ordering of a chordal associated graph"); sx_reach("chordal"); } else { sx_reach("not chordal"); Ad f = fill(a, p); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (f[i][j] && !a[i][j]) { Ad d = f; d[i][j] = d[j][i] = 0; sx_check(!chordal(d), "ordering gives a minimal fill"); } } }
typedef polynomial_<ZZ, lex> PL; typedef polynomial_<ZZ, grlex> PG;
SX_HARNESS(assoc_4) { gv(4); assoc<PL>({{{1, 1, 0, 0}, {0, 1, 0, 2}}, {{0, 0, 1, 1}, {1, 0, 0, 0}}, {{0, 1, 1, 0}, {0, 0, 0, 0}}}, -1, 1); }
SX_HARNESS(assoc_5) { gv(5); assoc<PG>({{{1, 1, 0, 0, 0}}, {{0, 1, 1, 0, 0}, {0, 0, 0, 0, 0}}, {{0, 0, 1, 1, 0}}, {{0, 0, 0, 1, 2}}, {{1, 0, 0, 0, 1}}, {{1, 0, 3, 0, 0}}}, 0, 1); }
SX_HARNESS(assoc_6) { gv(6); assoc<PG>({{{1, 1, 0, 0, 0, 0}}, {{0, 1, 1, 0, 0, 0}}, {{0, 0, 1, 1, 0, 0}}, {{0, 0, 0, 1, 2, 0}}, {{0, 0, 0, 0, 1, 1}}, {{1, 0, 0, 0, 0, 3}}, {{1, 0, 1, 0, 0, 0}}, {{0, 1, 0, 0, 1, 0}}}, 0, 1); }
SX_HARNESS(assoc_pairs) { gv(4); std::vector<std::vector<Ex>> s; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { Ex e(4, 0); e[i] = 1 + (i + j) % 2; e[j] = 1; s.push_back({e}); } assoc<PG>(s, 0, 1); }
SX_HARNESS(assoc_cancel) { gv(3); assoc<PL>({{{1, 1, 0}, {1, 1, 0}, {0, 0, 1}, {0, 0, 1}}, {{0, 1, 1}, {0, 1, 1}, {1, 0, 0}}}, -1, 1); }
