// Reference Groebner machinery on RP: orders, normal forms, textbook Buchberger.
#pragma once
#include "alg.hh"
typedef std::vector<RP> RL;
static bool GR = true; // graded or pure lexicographic reference order
static int64_t tot(const Ex &e) { int64_t d = 0; for (auto x : e) d += x; return d; }
static bool gt(const Ex &a, const Ex &b) { if (GR) { int64_t x = tot(a), y = tot(b); if (x != y) return x > y; } return a > b; }
static Ex lead(const RP &f) { auto it = f.c.begin(); Ex b = it->first; for (auto &t : f.c) if (gt(t.first, b)) b = t.first; return b; }
static bool divs(const Ex &a, const Ex &b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false; return true; }
static RP mulx(const RP &f, const Ex &e, const Z &c) { RP r; for (auto &t : f.c) { Ex x = t.first; for (size_t i = 0; i < x.size(); ++i) x[i] += e[i]; Z v = t.second * c; r.c[x] = v; } return r; }
static Ex minus(const Ex &a, const Ex &b) { Ex r = a; for (size_t i = 0; i < a.size(); ++i) r[i] -= b[i]; return r; }
static RP prim(const RP &f) { if (f.c.empty()) return f; Z g = icont(f); RP r; for (auto &t : f.c) { Z v; mpz_divexact(v.get_mpz_t(), t.second.get_mpz_t(), g.get_mpz_t()); r.c[t.first] = v; } return r; }
// c*f = combination of G + result, no term of the result divisible by a leading term of G
static RP rnf(RP h, const RL &G) { RP r; while (!h.c.empty()) { Ex e = lead(h); const RP *d = nullptr; for (auto &g : G) if (divs(lead(g), e)) { d = &g; break; } Z c = h.c[e]; if (!d) { r.c[e] = c; h.c.erase(e); continue; } Ex de = lead(*d); Z k = d->c.at(de); RP s = mulx(*d, minus(e, de), c); h = radd(rscale(h, k), s, -1); h.c.erase(e); h = clean(h); r = rscale(r, k); } return clean(r); }
static RP rspoly(const RP &f, const RP &g) { Ex a = lead(f), b = lead(g), l = a; for (size_t i = 0; i < l.size(); ++i) l[i] = std::max(a[i], b[i]); Z ca = f.c.at(a), cb = g.c.at(b); return clean(radd(mulx(f, minus(l, a), cb), mulx(g, minus(l, b), ca), -1)); }
static RL rgb(const RL &F) { RL G; for (auto &f : F) { RP p = prim(clean(f)); if (!p.c.empty()) G.push_back(p); } for (size_t i = 0; i < G.size(); ++i) for (size_t j = 0; j < i; ++j) { RP h = prim(rnf(rspoly(G[i], G[j]), G)); if (!h.c.empty()) { G.push_back(h); if (tot(lead(h)) == 0) { return RL{rconst(1)}; } } if (G.size() > 40) { sx_assume(false); } }
  for (size_t i = 0; i < G.size();) { bool red = false; for (size_t j = 0; j < G.size(); ++j) if (j != i && divs(lead(G[j]), lead(G[i]))) { red = true; break; } if (red) G.erase(G.begin() + i); else ++i; }
  for (size_t i = 0; i < G.size(); ++i) { RL o; for (size_t j = 0; j < G.size(); ++j) if (j != i) o.push_back(G[j]); G[i] = prim(rnf(G[i], o)); } return G; }
static void prop(const RP &a, const RP &b, const char *m) { RP x = clean(a), y = clean(b); sx_check(x.c.size() == y.c.size(), m); if (x.c.empty() || y.c.empty()) return; Ex e = lead(x); if (!y.c.count(e)) { sx_check(false, m); return; } eqr(rscale(x, y.c[e]), rscale(y, x.c[e]), m); }
static RP par(const char *n, std::vector<std::pair<Ex, int>> es) { RP r; int k = 0; for (auto &x : es) { if (x.second >= 0) r.c[x.first] += toZ(szz(nm(n, k++), -x.second, x.second)); else r.c[x.first] += -x.second; } return r; }
