// Reference algebra on RP (degrees, coefficients, determinants, resultants) and conversions.
#pragma once
#include "common.hh"
static inline int64_t rdeg(const RP &a, int i) { int64_t d = -1; for (auto &x : a.c) if (x.first[i] > d && !isz(x.second)) d = x.first[i]; return d; }
static inline RP rcoef(const RP &a, int i, int64_t k) { RP r; for (auto &x : a.c) if (x.first[i] == k) { Ex e = x.first; e[i] = 0; r.c[e] += x.second; } return r; }
static inline bool rzero(const RP &a) { for (auto &x : a.c) if (!isz(x.second)) return false; return true; }
static inline RP rdet(const std::vector<std::vector<RP>> &m) { size_t n = m.size(); if (n == 0) return rconst(1); if (n == 1) return m[0][0]; RP r; for (size_t i = 0; i < n; ++i) { if (m[i][0].c.empty()) continue; std::vector<std::vector<RP>> s; for (size_t j = 0; j < n; ++j) if (j != i) s.push_back(std::vector<RP>(m[j].begin() + 1, m[j].end())); r = radd(r, rmul(m[i][0], rdet(s)), i % 2 ? -1 : 1); } return r; }
static inline RP rres(const RP &a, const RP &b, int v) { int64_t m = rdeg(a, v), n = rdeg(b, v); std::vector<std::vector<RP>> s(m + n, std::vector<RP>(m + n)); for (int64_t i = 0; i < n; ++i) for (int64_t k = 0; k <= m; ++k) s[i][i + k] = rcoef(a, v, m - k); for (int64_t i = 0; i < m; ++i) for (int64_t k = 0; k <= n; ++k) s[n + i][i + k] = rcoef(b, v, n - k); return rdet(s); }
static inline Z icont(const RP &a) { Z g = 0; for (auto &x : a.c) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.second.get_mpz_t()); return g; }
static inline void coprime(const RP &a, const RP &b, const char *m) { for (size_t v = 0; v < VS.size(); ++v) if (rdeg(a, v) > 0 && rdeg(b, v) > 0) sx_check(!rzero(rres(a, b, v)), m); }
static inline RP clean(const RP &a) { RP r; for (auto &x : a.c) if (!isz(x.second)) r.c[x.first] = x.second; return r; }
template <class P> static P fromR(const RP &r, P p = P()) { for (auto &x : r.c) p.push_back({monoOf<typename P::first_type>(x.first), fromZ(x.second)}); p.normalization(); return p; }
static inline RP rgen(const char *n, const std::vector<Ex> &es, long lo, long hi) { RP q; for (size_t i = 0; i < es.size(); ++i) q.c[es[i]] += toZ(szz(nm(n, (int)i), lo, hi)); return q; }
