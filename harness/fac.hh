// Oracle for factorisations: the input is a product of solver-chosen parts; a factor is irreducible when it divides
// one of the parts for every way of writing the input as such a product.
#pragma once
#include "sx.h"
#include <random>
#include <cstdlib>
// stand-in for std::random_device: SEED is chosen by the harness (a solver choice in fm_seed*)
static unsigned SEED = 5489;
namespace std { struct sx_rd { typedef unsigned result_type; unsigned operator()() { return SEED++; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } }; }
#define random_device sx_rd
#include "gb.hh"
typedef upolynomial_<ZZ> U; typedef polynomial_<ZZ, lex> PL; typedef polynomial_<ZZ, grlex> PG; typedef polynomial_<QQ, lex> QL; typedef polynomial_<QQ, grlex> QG;
static bool divides(const RP &g, const RP &f) { return rnf(clean(f), RL{g}).c.empty(); }
static Z lcof(const RP &f) { return f.c.at(lead(f)); }
template <class P> static std::vector<RP> facck(const RP &rf, const std::vector<RP> &parts, const P &f) {
  GR = std::is_same_v<P, PG>; sx_opt("path", 20); auto R = factorize(f); std::vector<RP> G; RP pr = rconst(toZ(R.content)); bool pos = true;
  for (auto &x : R.factors) { canonP(x.first, "factor is canonical"); RP g = clean(toR(x.first)); sx_check(x.second > 0, "multiplicities are positive"); sx_check(!g.c.empty(), "factors are not zero"); if (g.c.empty()) return G; bool cst = true; for (auto &t : g.c) if (tot(t.first) > 0) cst = false; sx_check(!cst, "factors have positive degree"); Z c = icont(g); eqz(c, Z(1), "factors are primitive"); if (!std::is_same_v<P, PG>) sx_check(x.first.front().second > 0, "leading coefficients are positive"); for (uint64_t i = 0; i < x.second; ++i) pr = rmul(pr, g); for (auto &h : G) { RP s = clean(radd(g, h, -1)); sx_check(!s.c.empty(), "factors are not associated"); } G.push_back(g); }
  eqr(pr, rf, "content times factors is the input");
  for (auto &g : G) { bool d = false; for (auto &p : parts) if (!d) { RP q = clean(p); if (!q.c.empty() && divides(g, q)) d = true; } sx_check(d, "factors are irreducible"); }
  if (R.factors.size() > 1) sx_reach("several factors"); else sx_reach("one factor"); return G;
}
// f = k * d^a * e^b
template <class P> static void two(const RP &d, const RP &e, int a = 1, int b = 1, Z k = 1) { sx_assume(!rzero(d) && !rzero(e)); RP f = rscale(rmul(rpow(d, a), rpow(e, b)), k); facck<P>(f, {d, e}, fromR<P>(f)); }
