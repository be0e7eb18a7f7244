#include "common.hh"
// a rational as numerator/denominator GMP integers
static Z N(const QQ &q) { return toZ(q.num()); } static Z D(const QQ &q) { return toZ(q.den()); }
static void canonQ(const QQ &q, const char *m) { Z n = N(q), d = D(q), g; sx_check(d > 0, m); mpz_gcd(g.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); eqz(g, Z(1), m); canonZ(q.num(), m); canonZ(q.den(), m); }
// value of q equals n/d
static void eqq(const QQ &q, const Z &n, const Z &d, const char *m) { eqz(Z(N(q) * d), Z(n * D(q)), m); canonQ(q, m); }
// optional large factors: the same identities across the inline/heap boundary
static ZZ K(const char *n) { static const char *T[] = {"1", "9223372036854775807", "-9223372036854775808", "100000000000000000000"}; return ZZ(T[sx_choice(n, 4)]); }
static void ring(long R, long Q, bool big) {
  ZZ k = big ? K("k") : ZZ(1), l = big ? K("l") : ZZ(1);
  ZZ an = szz("an", -R, R) * k, ad = ZZ((long)sx_int("ad", 1, Q)), bn = szz("bn", -R, R) * l, bd = ZZ((long)sx_int("bd", 1, Q));
  if (big) { ad *= abs(l); }
  QQ a(an, ad), b(bn, bd); Z x = toZ(an), y = toZ(ad), u = toZ(bn), v = toZ(bd);
  eqq(a, x, y, "construction"); eqq(a + b, Z(x * v + u * y), Z(y * v), "a+b"); eqq(a - b, Z(x * v - u * y), Z(y * v), "a-b"); eqq(a * b, Z(x * u), Z(y * v), "a*b"); eqq(-a, Z(-x), y, "-a");
  QQ t = a; t += b; sx_check(t == a + b, "+="); t = a; t -= b; sx_check(t == a - b, "-="); t = a; t *= b; sx_check(t == a * b, "*=");
  if (u != 0) { eqq(a / b, Z(x * v), Z(y * u), "a/b"); t = a; t /= b; sx_check(t == a / b, "/="); sx_reach("division"); }
  else { bool th = false; try { QQ q = a / b; } catch (const std::domain_error &) { th = true; } sx_check(th, "division by zero throws"); sx_reach("division by zero"); }
}
SX_HARNESS(qq_ring) { ring(6, 4, false); }
SX_HARNESS(qq_ring_big) { ring(2, 2, true); }
SX_HARNESS(qq_order) {
  ZZ an = szz("an", -6, 6), ad = szz("ad", -4, 4), bn = szz("bn", -6, 6), bd = ZZ((long)sx_int("bd", 1, 4)); if (ad.is_zero()) { bool th = false; try { QQ q(an, ad); } catch (const std::domain_error &) { th = true; } sx_check(th, "zero denominator throws"); sx_reach("zero denominator"); return; }
  QQ a(an, ad), b(bn, bd); Z x = toZ(an), y = toZ(ad), u = toZ(bn), v = toZ(bd); if (y < 0) { x = -x; y = -y; }
  Z l = x * v, r = u * y; bool eq = l == r, lt = l < r;
  sx_check((a == b) == eq, "=="); sx_check((a != b) == !eq, "!="); sx_check((a < b) == lt, "<"); sx_check((a > b) == (!lt && !eq), ">"); sx_check((a <= b) == (lt || eq), "<="); sx_check((a >= b) == !lt, ">=");
  if (eq) { sx_check(a.hash() == b.hash(), "equal rationals hash alike"); sx_reach("equal"); }
  sx_check(sgn(a) == sgn(x), "sgn"); QQ m = abs(a); Z ax = abs(x); eqq(m, ax, y, "abs"); sx_check(a.is_zero() == (x == 0), "is_zero"); sx_check((bool)a == (x != 0), "bool");
}
SX_HARNESS(qq_pow) { ZZ an = szz("an", -5, 5), ad = ZZ((long)sx_int("ad", 1, 6)); int n = sx_choice("n", 5); QQ a(an, ad); QQ p = pow(a, (uint64_t)n); Z x = 1, y = 1; for (int i = 0; i < n; ++i) { x *= toZ(an); y *= toZ(ad); } eqq(p, x, y, "pow"); sx_reach("pow"); }
SX_HARNESS(qq_int) { // integers embed: any machine word or big integer
  ZZ a = sbig("a", BIGLO, BIGHI); QQ q(a); eqz(N(q), toZ(a), "from ZZ"); eqz(D(q), Z(1), "from ZZ"); ZZ b = sbig("b", BIGLO, BIGHI); QQ r(b); QQ s = q + r; eqz(N(s), Z(toZ(a) + toZ(b)), "integer sum"); eqz(D(s), Z(1), "integer sum"); s = q * r; eqz(N(s), Z(toZ(a) * toZ(b)), "integer product"); eqz(D(s), Z(1), "integer product"); sx_check((q < r) == (a < b), "<"); sx_check((q == r) == (a == b), "=="); QQ c(q); c = r; sx_check(c == r, "copy"); QQ d(std::move(c)); sx_check(d == r, "move"); d.swap(q); sx_check(q == r, "swap"); d = 5LL; sx_check(d == QQ(5), "= integer"); sx_reach("int");
}
