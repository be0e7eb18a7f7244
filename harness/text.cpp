// Text output and input.  The streams the library prints to are replaced by one which writes a placeholder for every
// integer and remembers its (symbolic) value, so that one path covers every value with the same sign structure; a small
// independent reader then parses the text back.
#include <bits/stdc++.h>
#include <gmpxx.h>
#include <boost/container_hash/hash.hpp>
#include "sx.h"
static std::deque<mpz_class> TOK;
static std::string tok(mpz_srcptr v) { TOK.emplace_back(); mpz_set(TOK.back().get_mpz_t(), v); return "\x01" + std::to_string(TOK.size() - 1) + "\x02"; }
static std::string tokl(int64_t v) { mpz_class z; mpz_set_si(z.get_mpz_t(), v); return tok(z.get_mpz_t()); }
static std::string toku(uint64_t v) { mpz_class z; mpz_set_ui(z.get_mpz_t(), v); return tok(z.get_mpz_t()); }
namespace std { struct sx_os { std::string b;
  sx_os &operator<<(const char *s) { b += s; return *this; } sx_os &operator<<(const std::string &s) { b += s; return *this; } sx_os &operator<<(char c) { b += c; return *this; }
  sx_os &operator<<(int v) { b += tokl(v); return *this; } sx_os &operator<<(long v) { b += tokl(v); return *this; } sx_os &operator<<(long long v) { b += tokl(v); return *this; }
  sx_os &operator<<(unsigned v) { b += toku(v); return *this; } sx_os &operator<<(unsigned long v) { b += toku(v); return *this; } sx_os &operator<<(unsigned long long v) { b += toku(v); return *this; }
  std::string str() const { return b; } }; }
// "\x01k\x02" -> index, or -1
static int tokat(const char *s, size_t &n) { if (s[0] != 1) return -1; int k = 0; size_t i = 1; while (s[i] >= '0' && s[i] <= '9') k = k * 10 + (s[i++] - '0'); if (s[i] != 2 || k >= (int)TOK.size()) return -1; n = i + 1; return k; }
static char *sx_get_str(char *o, int base, mpz_srcptr z) { std::string s = tok(z); if (o) { strcpy(o, s.c_str()); return o; } sx_check(base == 10, "numbers are printed in decimal"); void *(*al)(size_t); mp_get_memory_functions(&al, nullptr, nullptr); char *r = (char *)al(s.size() + 1); strcpy(r, s.c_str()); return r; }
static int sx_set_str(mpz_ptr z, const char *s, int base) { size_t n = 0; int k = tokat(s, n); if (k < 0) return __gmpz_set_str(z, s, base); if (s[n]) return -1; sx_check(base == 10, "numbers are read in decimal"); mpz_set(z, TOK[k].get_mpz_t()); return 0; }
#undef mpz_get_str
#undef mpz_set_str
#define mpz_get_str sx_get_str
#define mpz_set_str sx_set_str
#define ostream sx_os
#define ostringstream sx_os
#include "common.hh"
#undef ostream
#undef ostringstream
typedef polynomial_<ZZ, lex> PL; typedef polynomial_<ZZ, grlex> PG; typedef polynomial_<QQ, grlex> PQ; typedef polynomial_<Zp, lex> PZ; typedef upolynomial_<ZZ> U;
typedef std::sx_os OS;
template <class T> static std::string out(const T &x) { OS o; o << x; return o.b; }

// ---- the reader ----
struct Term { Ex e; Z n, d; };
struct Rd { std::string s; size_t i = 0; bool ok = true;
  bool eat(char c) { if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
  bool isnum() { return i < s.size() && (s[i] == 1 || (s[i] >= '0' && s[i] <= '9')); }
  Z num() { size_t n = 0; if (i < s.size() && s[i] == 1) { int k = tokat(s.c_str() + i, n); if (k >= 0) { i += n; return TOK[k]; } } std::string d; while (i < s.size() && s[i] >= '0' && s[i] <= '9') d += s[i++]; if (d.empty()) { ok = false; return 0; } return Z(d); }
  std::string name() { std::string r; while (i < s.size() && !strchr("*^+-/ ,[]{}", s[i]) && s[i] != 1) r += s[i++]; if (r.empty()) ok = false; return r; }
  void power(Ex &e, std::map<std::string, Z> *m) { std::string n = name(); Z k = 1; if (eat('^')) k = num(); if (m) { (*m)[n] += k; return; } size_t j = 0; for (; j < VS.size(); ++j) if (n == VS[j].name() || (n == "#" && j == 0)) break; if (j == VS.size()) { ok = false; return; } if (!mpz_fits_slong_p(k.get_mpz_t())) { ok = false; return; } e[j] += sx_value(mpz_get_si(k.get_mpz_t())); }
  void mono(Ex &e, std::map<std::string, Z> *m = nullptr) { power(e, m); while (ok && eat('*')) power(e, m); }
  Term term(bool neg) { Term t; t.e = Ex(VS.size(), 0); t.n = 1; t.d = 1; if (isnum()) { t.n = num(); if (eat('/')) t.d = num(); if (eat('*')) mono(t.e); } else mono(t.e); if (neg) t.n = -t.n; return t; }
  // a sum; a term after the first is introduced by '+', by '-', or by its own negative number
  std::vector<Term> sum() { std::vector<Term> v; bool neg = eat('-'); v.push_back(term(neg)); while (ok && i < s.size()) { if (eat('+')) { neg = eat('-'); v.push_back(term(neg)); } else if (eat('-')) v.push_back(term(true)); else if (isnum()) { Term t = term(false); sx_check(sgn(t.n) < 0, "terms are separated by a sign"); v.push_back(t); } else { ok = false; break; } if (v.size() > 20) ok = false; } return v; }
};
static RP val(const std::string &s, const Z &D, const char *m) { Rd r{s}; auto v = r.sum(); sx_check(r.ok && r.i == s.size(), "the text is well formed"); RP q; if (!r.ok) return q; for (auto &t : v) { sx_check(sgn(t.d) > 0, "denominators are positive"); Z a = t.n * D, b; mpz_tdiv_qr(a.get_mpz_t(), b.get_mpz_t(), a.get_mpz_t(), t.d.get_mpz_t()); eqz(b, Z(0), m); q.c[t.e] += a; } return q; }
static void nv(std::initializer_list<const char *> l) { vars(l); }

SX_HARNESS(txt_zz) { Z a = sz("a", "-100000000000000000000000000000000", "100000000000000000000000000000000"); ZZ x = fromZ(a); std::string s = out(x); size_t n = 0; sx_check(tokat(s.c_str(), n) >= 0 && n == s.size(), "an integer is printed as one number"); int k = tokat(s.c_str(), n); if (k < 0) return; eqz(TOK[k], a, "printed value");
  ZZ y(s); eqz(y, a, "ZZ(string)"); canonZ(y, "canonical form"); std::istringstream is(s + " 7"); ZZ z; is >> z; eqz(z, a, "operator>>"); canonZ(z, "canonical form"); is >> z; eqz(z, Z(7), "operator>> reads one word"); sx_check(y == x && z == ZZ(7), "read back equal"); if (x.is_small()) sx_reach("inline"); else sx_reach("heap"); }
static const char *NUMS[] = {"0", "-0", "7", "-12", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "000123"};
static Z dec(const char *s, int base) { bool n = *s == '-'; if (n) ++s; Z r = 0; for (; *s; ++s) { r = r * base; r += *s <= '9' ? *s - '0' : (*s | 32) - 'a' + 10; } if (n) r = -r; return r; }
SX_HARNESS(txt_zz_parse) { int i = sx_choice("i", 13), b = sx_choice("b", 3); int base = b == 0 ? 10 : b == 1 ? 16 : 36; ZZ x(std::string(NUMS[i]), base); eqz(x, dec(NUMS[i], base), "ZZ(string, base)"); canonZ(x, "canonical form"); ZZ y(NUMS[i], base); eqz(y, dec(NUMS[i], base), "ZZ(char*, base)"); if (base == 10) { std::istringstream is(NUMS[i]); ZZ z(5); is >> z; eqz(z, dec(NUMS[i], 10), "operator>>"); } else { ZZ h("zZ", 36); eqz(h, Z(35 * 36 + 35), "base 36"); ZZ f("-fF", 16); eqz(f, Z(-255), "base 16"); } sx_reach("read"); }
SX_HARNESS(txt_zz_bad) { static const char *B[] = {"", "x", "12a", "1.5", "--1", "1-", "0x10", "9223372036854775808q", "1/2"}; int i = sx_choice("i", 9); bool t = false; try { ZZ x{std::string(B[i])}; } catch (const std::invalid_argument &) { t = true; } sx_check(t, "a malformed integer is reported by std::invalid_argument"); if (i) { t = false; std::istringstream is(B[i]); ZZ z(5); try { is >> z; } catch (const std::invalid_argument &) { t = true; } sx_check(t && z == ZZ(5), "a malformed integer leaves the target untouched"); } sx_reach("rejected"); }
// rationals: num/den with the solver's values
SX_HARNESS(txt_qq) { ZZ a = szz("a", -wd(12, 60), wd(12, 60)), b = szz("b", 1, wd(9, 40)); QQ q(a, b); std::string s = out(q); Rd r{s}; Z n = r.num(), d = 1; bool sl = r.eat('/'); if (sl) d = r.num(); sx_check(r.ok && r.i == s.size(), "the text is well formed"); sx_check(sgn(d) > 0, "positive denominator"); sx_check(!sl || d != 1, "integers are printed without a denominator"); Z u = n * toZ(b), v = d * toZ(a); eqz(u, v, "printed value"); std::istringstream is(s); QQ p; is >> p; sx_check(p == q, "operator>>"); eqz(p.num(), n, "lowest terms"); eqz(p.den(), d, "lowest terms"); if (sl) sx_reach("fraction"); else sx_reach("integer"); }
SX_HARNESS(txt_qq_parse) { int64_t a = sx_int("a", -wd(8, 30), wd(8, 30)), b = sx_int("b", -wd(6, 20), wd(6, 20)); std::string s = tokl(a) + "/" + tokl(b); std::istringstream is(s); QQ q(ZZ(3), ZZ(5)); bool t = false; try { is >> q; } catch (const std::exception &) { t = true; }
  if (b == 0) { sx_check(t || is.fail(), "a zero denominator is reported"); sx_check(!q.den().is_zero(), "no rational number has denominator 0"); sx_reach("zero denominator"); return; }
  sx_check(!t, "a fraction is accepted"); if (t) return; Z A = (long)a, B = (long)b; Z u = toZ(q.num()) * B, v = toZ(q.den()) * A; eqz(u, v, "value of a/b"); Z g, n = toZ(q.num()), d = toZ(q.den()); mpz_gcd(g.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); eqz(g, Z(1), "lowest terms"); sx_check(sgn(d) > 0, "positive denominator"); sx_reach("fraction"); }
SX_HARNESS(txt_qq_big) { Z a = sz("a", "-100000000000000000000000000000000", "100000000000000000000000000000000"); std::string s = tok(a.get_mpz_t()); std::istringstream is(s); QQ q(ZZ(3), ZZ(5)); is >> q; eqz(q.num(), a, "an integer is read as a rational number"); eqz(q.den(), Z(1), "denominator 1"); std::string o = out(q); size_t n = 0; int k = tokat(o.c_str(), n); sx_check(k >= 0 && n == o.size(), "printed as one number"); if (k >= 0) eqz(TOK[k], a, "printed value"); sx_reach("integer"); }
SX_HARNESS(txt_zp) { static const uint32_t P[] = {2, 3, 7, 65537, 4294967291u}; uint32_t p = P[sx_choice("p", 5)]; int64_t v = sx_int("v", 0, (int64_t)p - 1); Zp x(v, p); std::string s = out(x); size_t n = 0; int k = tokat(s.c_str(), n); sx_check(k >= 0 && n == s.size(), "an element is printed as one number"); if (k >= 0) eqz(TOK[k], Z((long)v), "printed value"); sx_reach("printed"); }
// monomials, with symbolic exponents
template <class O> static void mon() { nv({"x", "y1", "a_long_name"}); basic_monomial<O> m; std::map<std::string, Z> w; for (int i = 0; i < 3; ++i) { int64_t e = sx_int(nm("e", i).c_str(), 0, 1000000000000); if (e) { m.push_back({VS[i], e}); w[VS[i].name()] = (long)e; } } m.normalization(); std::string s = out(m); sx_check(s == m.str() || TOK.size(), "str()"); if (w.empty()) { sx_check(s == "1", "the empty monomial is 1"); sx_check(m.str() == "1", "the empty monomial is 1"); sx_reach("one"); return; }
  for (int k = 0; k < 2; ++k) { if (k) s = m.str(); Rd r{s}; Ex e; std::map<std::string, Z> g; r.mono(e, &g); sx_check(r.ok && r.i == s.size(), "the text is well formed"); sx_check(g.size() == w.size(), "the variables of the monomial"); for (auto &x : w) { sx_check(g.count(x.first), "the variables of the monomial"); if (g.count(x.first)) eqz(g[x.first], x.second, "printed exponents"); } } if (w.size() == 3) sx_reach("three variables"); else sx_reach("fewer variables"); }
SX_HARNESS(txt_mono_lex) { mon<lex>(); }
SX_HARNESS(txt_mono_grlex) { mon<grlex>(); }
// polynomials: three terms out of a fixed list, arbitrary coefficients (also zero)
static const std::vector<Ex> ES = {{0, 0}, {1, 0}, {0, 1}, {2, 0}, {1, 1}, {0, 3}, {2, 2}, {0, 12}};
static std::vector<Ex> pick3() { int k = sx_choice("terms", 6); static const int T[6][3] = {{0, 1, 3}, {0, 2, 4}, {1, 2, 5}, {4, 6, 7}, {0, 4, 7}, {3, 5, 6}}; return {ES[T[k][0]], ES[T[k][1]], ES[T[k][2]]}; }
template <class P> static void polz(long lo, long hi) { nv({"x", "y"}); RP r; auto es = pick3(); if (std::is_same_v<P, U>) { nv({"x"}); es = {{0}, {1}, {7}}; } P f = gen<P>("c", es, lo, hi, &r); std::string s = out(f); if (f.empty()) { sx_check(s == "0" && f.str() == "0", "the zero polynomial is 0"); sx_reach("zero"); return; } RP g = val(s, 1, "integer coefficients"); eqr(g, r, "the text denotes the polynomial"); eqr(val(f.str(), 1, "integer coefficients"), r, "str() denotes the polynomial"); sx_reach("printed"); }
SX_HARNESS(txt_poly_lex) { polz<PL>(-1000000000000000000, 1000000000000000000); }
SX_HARNESS(txt_poly_grlex) { polz<PG>(-1000000000000000000, 1000000000000000000); }
SX_HARNESS(txt_upoly) { polz<U>(-1000000000000000000, 1000000000000000000); }
SX_HARNESS(txt_poly_big) { nv({"x", "y"}); RP r; PG f; std::vector<std::pair<basic_monomial<grlex>, ZZ>> t; std::vector<Ex> es = {{0, 0}, {1, 1}, {3, 0}}; for (int i = 0; i < 3; ++i) { Z c = sz(nm("c", i), "-100000000000000000000", "100000000000000000000"); sx_assume(sgn(c) != 0); t.push_back({monoOf<basic_monomial<grlex>>(es[i]), fromZ(c)}); r.c[es[i]] = c; } f = PG(t); eqr(val(out(f), 1, "integer coefficients"), r, "the text denotes the polynomial"); sx_reach("printed"); }
SX_HARNESS(txt_poly_qq) { nv({"x", "y"}); RP r; std::vector<std::pair<basic_monomial<grlex>, QQ>> t; auto es = pick3(); for (int i = 0; i < 3; ++i) { ZZ a = szz(nm("a", i), -3, 3); static const int D[3] = {1, 2, 3}; int d = D[sx_choice(nm("d", i).c_str(), i ? 2 : 3)]; r.c[es[i]] = toZ(a) * (12 / d); t.push_back({monoOf<basic_monomial<grlex>>(es[i]), QQ(a, ZZ(d))}); } PQ f(t); f.normalization(); std::string s = out(f); if (f.empty()) { sx_check(s == "0", "the zero polynomial is 0"); return; } eqr(val(s, 12, "denominators"), r, "the text denotes the polynomial"); sx_reach("printed"); }
SX_HARNESS(txt_poly_zp) { nv({"x", "y"}); static const uint32_t P[] = {2, 3, 11, 4294967291u}; uint32_t p = P[sx_choice("p", 4)]; RP r; std::vector<std::pair<basic_monomial<lex>, Zp>> t; auto es = pick3(); for (int i = 0; i < 3; ++i) { int64_t v = sx_int(nm("v", i).c_str(), 0, (int64_t)p - 1); r.c[es[i]] = (long)v; t.push_back({monoOf<basic_monomial<lex>>(es[i]), Zp(v, p)}); } PZ f(t); f.normalization(); std::string s = out(f); if (f.empty()) { sx_check(s == "0", "the zero polynomial is 0"); return; } Z pz = (long)p; eqrmod(val(s, 1, "coefficients"), r, pz, "the text denotes the polynomial modulo p"); sx_reach("printed"); }
// containers
static std::vector<std::string> split(const std::string &s, char o, char c) { std::vector<std::string> v; bool w = s.size() >= 3 && s[0] == o && s.back() == c; sx_check(w, "the text is bracketed"); if (!w) return v; std::string b = s.substr(1, s.size() - 2), cur; for (char ch : b) { if (ch == ' ') continue; if (ch == ',') { v.push_back(cur); cur = ""; } else cur += ch; } if (!cur.empty() || !v.empty()) v.push_back(cur); return v; }
SX_HARNESS(txt_lists) { nv({"x", "y"}); int n = sx_choice("n", 4); std::vector<PG> v; std::vector<RP> w; std::vector<variable> vv; for (int i = 0; i < n; ++i) { RP r; PG f = gen<PG>(nm("c", i).c_str(), {{i, 1}, {0, 0}}, -4, 4, &r); v.push_back(f); w.push_back(r); vv.push_back(VS[i % 2]); }
  auto e = split(out(v), '[', ']'); sx_check((int)e.size() == n, "one entry per element"); for (int i = 0; i < n && i < (int)e.size(); ++i) if (v[i].empty()) sx_check(e[i] == "0", "zero"); else eqr(val(e[i], 1, "entry"), w[i], "entries in order");
  auto g = split(out(vv), '[', ']'); sx_check((int)g.size() == n, "one entry per variable"); for (int i = 0; i < n && i < (int)g.size(); ++i) sx_check(g[i] == vv[i].name(), "variables in order");
  std::set<PG> st(v.begin(), v.end()); auto h = split(out(st), '{', '}'); sx_check(h.size() == st.size(), "one entry per element"); size_t k = 0; for (auto &f : st) { if (k >= h.size()) break; if (f.empty()) sx_check(h[k] == "0", "zero"); else eqr(val(h[k], 1, "entry"), toR(f), "entries of the set"); ++k; } if (n > 1) sx_reach("list"); else sx_reach("short list"); }
SX_HARNESS(txt_graph) { nv({"a", "b", "c"}); graph<variable> G; for (auto &v : VS) G.add_node(v); bool A[3][3] = {}; for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) if (sx_choice(("e" + std::to_string(i) + std::to_string(j)).c_str(), 2)) { G.add_edge(VS[i], VS[j]); A[i][j] = A[j][i] = true; }
  std::string s = out(G); bool B[3][3] = {}; bool seen[3] = {}; std::istringstream is(s); std::string l; std::getline(is, l); sx_check(l == "{", "opening brace"); auto ix = [](const std::string &n) { for (int i = 0; i < 3; ++i) if (VS[i].name() == n) return i; sx_check(false, "node name"); return 0; };
  while (std::getline(is, l) && l != "}") { std::istringstream ls(l); std::string w; ls >> w; sx_check(!w.empty() && w.back() == ':', "node:"); if (w.empty()) return; w.pop_back(); int i = ix(w); sx_check(!seen[i], "every node once"); seen[i] = true; while (ls >> w) { int j = ix(w); sx_check(!B[i][j], "every neighbour once"); B[i][j] = true; } }
  for (int i = 0; i < 3; ++i) { sx_check(seen[i], "every node is printed"); for (int j = 0; j < 3; ++j) sx_check(A[i][j] == B[i][j], "neighbours"); } sx_reach("graph"); }
SX_HARNESS(txt_root) { int64_t a = sx_int("a", -5, 5); nv({"x"}); U f = gen<U>("c", {{1}, {0}}, -3, 3, nullptr); uroot u(f, QQ(ZZ(a), ZZ(2)), QQ(ZZ(a + 1), ZZ(2))); std::string s = out(u); Rd r{s}; bool k = r.eat('{'); auto q = [&](Z &n, Z &d) { n = r.num(); d = 1; if (r.eat('/')) d = r.num(); }; Z n1, d1, n2, d2; q(n1, d1); k = k && r.eat(','); q(n2, d2); k = k && r.eat('}'); sx_check(k && r.ok && r.i == s.size(), "an isolating interval is printed as {left,right}"); Z u1 = n1 * 2, w1 = d1 * (long)a, u2 = n2 * 2, w2 = d2 * (long)(a + 1); eqz(u1, w1, "left end"); eqz(u2, w2, "right end"); sx_reach("interval"); }
