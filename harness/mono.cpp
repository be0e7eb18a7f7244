#include "common.hh"
// monomials with symbolic exponents over three variables, in every order of the library
static const int NV = 3;
template <class M, class C> static M mk(const std::string &n, long hi, const C *c, Ex *e = nullptr) {
  M m(c); Ex x(VS.size(), 0); std::vector<std::pair<variable, int64_t>> v;
  for (size_t i = 0; i < VS.size(); ++i) { int64_t k = sx_int(nm(n, i).c_str(), 0, hi); x[i] = k; v.push_back({VS[i], k}); }
  m = v; m.comp(c); m.normalization(); if (e) *e = x; return m;
}
template <class M> static void isEx(const M &m, const Ex &e, const char *w) {
  Ex x = exOf(m); for (size_t i = 0; i < e.size(); ++i) sx_check(x[i] == e[i], w);
  int64_t d = 0; const std::pair<variable, int64_t> *pv = nullptr;
  for (auto &t : m) { sx_check(t.second != 0, w); d += t.second; if (pv) sx_check(m.comp(pv->first, t.first), w); pv = &t; }
  sx_check(m.deg() == d, w);
}
static int64_t total(const Ex &e) { int64_t d = 0; for (auto x : e) d += x; return d; }
// reference: lexicographic comparison along the variable permutation perm (most significant first)
static int lexcmp(const Ex &a, const Ex &b, const std::vector<int> &perm) { for (int i : perm) { if (a[i] > b[i]) return 1; if (a[i] < b[i]) return -1; } return 0; }
static int grcmp(const Ex &a, const Ex &b, const std::vector<int> &perm) { int64_t x = total(a), y = total(b); if (x > y) return 1; if (x < y) return -1; return lexcmp(a, b, perm); }
static const long E = 1000000000000L;
template <class C> static void order(const C &c, bool gr, const std::vector<int> &perm, long hi) {
  typedef basic_monomial<C> M; Ex ea, eb, ec; M a = mk<M>("a", hi, &c, &ea), b = mk<M>("b", hi, &c, &eb);
  int r = gr ? grcmp(ea, eb, perm) : lexcmp(ea, eb, perm);
  sx_check(c(a, b) == (r > 0), "order as defined"); sx_check(c(b, a) == (r < 0), "order as defined"); sx_check((a == b) == (r == 0), "monomials are equal iff their exponents are"); sx_check((a != b) == (r != 0), "!=");
  if (r == 0) sx_reach("equal"); if (r > 0) sx_reach("greater");
  M one(&c); sx_check(!c(one, a), "1 is the least monomial");
}
template <class C> static void compat(const C &c, long hi) {
  typedef basic_monomial<C> M; Ex e; M a = mk<M>("a", hi, &c), b = mk<M>("b", hi, &c), m = mk<M>("m", hi, &c);
  sx_check(c(a * m, b * m) == c(a, b), "order is compatible with multiplication"); sx_reach("compatible");
}
SX_HARNESS(ord_grlex) { vars({"x", "y", "z"}); order(grlex::init, true, {0, 1, 2}, E); }
SX_HARNESS(ord_lex) { vars({"x", "y", "z"}); order(lex::init, false, {0, 1, 2}, E); }
SX_HARNESS(ord_grlex_ops) { // the built-in comparison operators of graded monomials
  vars({"x", "y", "z"}); Ex ea, eb; monomial a = mk<monomial>("a", E, &grlex::init, &ea), b = mk<monomial>("b", E, &grlex::init, &eb); int r = grcmp(ea, eb, {0, 1, 2});
  sx_check((a > b) == (r > 0), ">"); sx_check((a < b) == (r < 0), "<"); sx_check((a >= b) == (r >= 0), ">="); sx_check((a <= b) == (r <= 0), "<="); sx_reach("ops");
}
SX_HARNESS(ord_custom) { vars({"x", "y", "z"}); lex_<custom_var_order> c(custom_var_order({VS[2], VS[0], VS[1]})); order(c, false, {2, 0, 1}, E); }
SX_HARNESS(ord_custom_partial) { vars({"x", "y", "z"}); lex_<custom_var_order> c(custom_var_order({VS[1]})); order(c, false, {1, 0, 2}, E); }
SX_HARNESS(ord_grcustom) { vars({"x", "y", "z"}); grlex_<custom_var_order> c(custom_var_order({VS[2], VS[0], VS[1]})); order(c, true, {2, 0, 1}, E); }
SX_HARNESS(ord_up) { vars({"x", "y", "z"}); int k = sx_choice("v", 3); univariate_priority_order c(VS[k]); std::vector<int> p{k}; for (int i = 0; i < 3; ++i) if (i != k) p.push_back(i); order(c, false, p, E); }
SX_HARNESS(cmpt_grlex) { vars({"x", "y"}); compat(grlex::init, E); }
SX_HARNESS(cmpt_lex) { vars({"x", "y"}); compat(lex::init, E); }
SX_HARNESS(cmpt_custom) { vars({"x", "y"}); lex_<custom_var_order> c(custom_var_order({VS[1], VS[0]})); compat(c, E); }
SX_HARNESS(cmpt_up) { vars({"x", "y"}); univariate_priority_order c(VS[1]); compat(c, E); }
// the variable comparators themselves: strict total orders on variables
SX_HARNESS(var_order) {
  std::vector<variable> v; for (auto s : {"x", "y", "z", "w"}) v.push_back(variable(s));
  int i = sx_choice("i", 4), j = sx_choice("j", 4), k = sx_choice("k", 4), o = sx_choice("o", 7); variable a = v[i], b = v[j], c = v[k];
  auto T = [&](auto cmp) {
    sx_check(!cmp(a, a), "irreflexive"); sx_check(!(cmp(a, b) && cmp(b, a)), "asymmetric"); if (!(a == b)) sx_check(cmp(a, b) || cmp(b, a), "total"); if (cmp(a, b) && cmp(b, c)) sx_check(cmp(a, c), "transitive");
  };
  if (o == 0) T(less()); else if (o == 1) T(custom_var_order({v[3], v[1]})); else if (o == 2) T(custom_var_order({v[2], v[1], v[0], v[3]})); else if (o < 7) T(univariate_order(v[o - 3]));
  sx_reach("order");
}
template <class C> static void arith(const C &c, long hi) {
  typedef basic_monomial<C> M; Ex ea, eb; M a = mk<M>("a", hi, &c, &ea), b = mk<M>("b", hi, &c, &eb); size_t n = VS.size();
  Ex s(n), d(n), g(n), l(n); bool div = true; for (size_t i = 0; i < n; ++i) { s[i] = ea[i] + eb[i]; d[i] = ea[i] - eb[i]; if (ea[i] < eb[i]) div = false; g[i] = ea[i] < eb[i] ? ea[i] : eb[i]; l[i] = ea[i] < eb[i] ? eb[i] : ea[i]; }
  isEx(a * b, s, "product"); isEx(a / b, d, "quotient");
  M q(&c); bool r = is_divexact(q, a, b); sx_check(r == div, "divisibility"); if (r) { isEx(q, d, "exact quotient"); sx_check(q * b == a, "q*b == a"); sx_reach("divides"); } else sx_reach("does not divide");
  M p(&c); __mono_mult__(p, a, b); isEx(p, s, "product into"); isEx(gcd(a, b), g, "gcd"); isEx(lcm(a, b), l, "lcm");
  sx_check(a.is_normal(), "normal"); for (size_t i = 0; i < n; ++i) sx_check(a.deg(VS[i]) == ea[i], "degree in a variable"); sx_check(a.deg() == total(ea), "total degree"); sx_check(a.empty() == (total(ea) == 0), "empty");
}
SX_HARNESS(mono_arith_grlex) { vars({"x", "y"}); arith(grlex::init, E); }
SX_HARNESS(mono_arith_lex) { vars({"x", "y"}); arith(lex::init, E); }
SX_HARNESS(mono_arith_up) { vars({"x", "y"}); univariate_priority_order c(VS[1]); arith(c, E); }
SX_HARNESS(mono_prod3) { vars({"x", "y", "z"}); Ex ea, eb; monomial a = mk<monomial>("a", E, &grlex::init, &ea), b = mk<monomial>("b", E, &grlex::init, &eb); Ex s(3); for (int i = 0; i < 3; ++i) s[i] = ea[i] + eb[i]; isEx(a * b, s, "product"); sx_reach("product"); }
SX_HARNESS(mono_div3) { vars({"x", "y", "z"}); Ex ea, eb; monomial a = mk<monomial>("a", E, &grlex::init, &ea), b = mk<monomial>("b", E, &grlex::init, &eb); bool div = true; for (int i = 0; i < 3; ++i) if (ea[i] < eb[i]) div = false; monomial q; bool r = is_divexact(q, a, b); sx_check(r == div, "divisibility"); if (r) { sx_check(q * b == a, "q*b == a"); sx_reach("divides"); } }
SX_HARNESS(mono_gcd3) { vars({"x", "y", "z"}); Ex ea, eb; monomial a = mk<monomial>("a", E, &grlex::init, &ea), b = mk<monomial>("b", E, &grlex::init, &eb); Ex g(3), l(3); for (int i = 0; i < 3; ++i) { g[i] = ea[i] < eb[i] ? ea[i] : eb[i]; l[i] = ea[i] < eb[i] ? eb[i] : ea[i]; } isEx(gcd(a, b), g, "gcd"); isEx(lcm(a, b), l, "lcm"); sx_reach("gcd"); }
SX_HARNESS(mono_pow) {
  vars({"x", "y", "z"}); Ex ea; monomial a = mk<monomial>("a", 1000000, &grlex::init, &ea); int64_t n = sx_choice("n", 7); Ex s(3); for (int i = 0; i < 3; ++i) s[i] = ea[i] * n; isEx(pow(a, n), s, "pow"); sx_reach("pow");
}
SX_HARNESS(mono_normal) { // any list of factors, in any order, repeated and with zero or cancelling exponents
  vars({"x", "y", "z"}); std::vector<std::pair<variable, int64_t>> v; Ex s(3, 0);
  for (int i = 0; i < 3; ++i) { int k = sx_choice(nm("v", i).c_str(), 3); int64_t e = sx_int(nm("e", i).c_str(), -5, E); v.push_back({VS[k], e}); s[k] += e; }
  monomial m(v); isEx(m, s, "normal form of a factor list"); sx_check(m.is_normal(), "is_normal"); sx_reach("normalised");
}
SX_HARNESS(mono_life) { // copies, moves, assignment, find, push/pop
  vars({"x", "y", "z"}); Ex ea, eb; monomial a = mk<monomial>("a", E, &grlex::init, &ea), b = mk<monomial>("b", E, &grlex::init, &eb); monomial c(a); isEx(c, ea, "copy"); monomial d(std::move(c)); isEx(d, ea, "move"); isEx(c, Ex(3, 0), "moved from"); c = b; isEx(c, eb, "assign"); c.swap(d); isEx(c, ea, "swap"); isEx(d, eb, "swap"); d = std::move(c); isEx(d, ea, "move assign"); d = d; isEx(d, ea, "self assignment"); d = VS[1]; isEx(d, Ex{0, 1, 0}, "assign a variable"); d.clear(); isEx(d, Ex(3, 0), "clear"); sx_reach("life");
}
SX_HARNESS(umono) { // univariate monomials
  int64_t a = sx_int("a", 0, E), b = sx_int("b", 0, E); umonomial x(a), y(b), q; sx_check((x * y).deg() == a + b, "product"); sx_check((x / y).deg() == a - b, "quotient"); sx_check(is_divexact(q, x, y) == (a >= b), "divisibility"); sx_check(gcd(x, y).deg() == (a < b ? a : b), "gcd"); sx_check(pow(umonomial(a), 5).deg() == 5 * a, "pow"); sx_check(uless()(x, y) == (a > b), "order"); sx_check(x.empty() == (a == 0), "empty"); sx_reach("umono");
}
// multiplication by variables and powers of variables
SX_HARNESS(mono_vars) { vars({"x", "y", "z"}); int i = sx_choice("i", 3), j = sx_choice("j", 3); int64_t n = sx_int("n", 0, E); Ex s(3, 0); s[i]++; s[j]++; isEx(VS[i] * VS[j], s, "variable product"); Ex t(3, 0); t[i] = n; isEx(pow(VS[i], n), t, "variable power"); sx_reach("vars"); }
// equal monomials hash alike whatever their history (hash taken over symbolic exponents)
SX_HARNESS(mono_hash) {
  vars({"x", "y", "z"}); Ex ea; monomial a = mk<monomial>("a", E, &grlex::init, &ea), m = VS[1] * VS[2]; monomial b = (m * a) / m; std::vector<std::pair<variable, int64_t>> v; for (int i = 2; i >= 0; --i) { v.push_back({VS[i], 1}); v.push_back({VS[i], ea[i] - 1}); }
  monomial c(v); sx_check(a == b && a == c, "equal"); sx_check(hash_value(a) == hash_value(b) && hash_value(a) == hash_value(c) && std::hash<monomial>()(a) == hash_value(b), "equal monomials hash alike"); sx_reach("hash");
}
