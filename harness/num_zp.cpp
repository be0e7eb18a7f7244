#include "common.hh"
static Z um(uint64_t v) { Z r; mpz_set_ui(r.get_mpz_t(), v); return r; }
static const uint64_t P[] = {2, 3, 5, 7, 31, 65521, 2147483647ul, 4294967291ul, 4294967311ul, 2305843009213693951ul, 9223372036854775783ul, 9223372036854775837ul, 18446744073709551557ul};
static const int NP = 13;
static Z mod(const Z &a, const Z &p) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return r; }
// symbolic element of [0,p): values up to 2^64 are split into two halves around 2^63
static uint64_t elem(const char *n, uint64_t p) { std::string s(n); uint64_t h = p > (1ull << 62) ? (uint64_t)sx_int((s + "h").c_str(), 0, (int64_t)(p >> 2)) : 0; if (p <= (1ull << 62)) return (uint64_t)sx_int(n, 0, (int64_t)p - 1); uint64_t l = (uint64_t)sx_int((s + "l").c_str(), 0, 3); uint64_t v = h * 4 + l; sx_assume(v < p); return v; }
SX_HARNESS(zp_addsub) {
  uint64_t p = P[sx_choice("p", NP)]; uint64_t x = elem("a", p), y = elem("b", p); Zp a(x, p), b(y, p); Z X = um(x), Y = um(y), M = um(p);
  sx_check(a.number() == x, "construction"); Zp s = a + b; eqz(um(s.number()), mod(X + Y, M), "a+b"); Zp d = a - b; eqz(um(d.number()), mod(X - Y, M), "a-b"); Zp n = -a; eqz(um(n.number()), mod(-X, M), "-a");
  Zp t = a; t += b; sx_check(t.number() == s.number(), "+="); t = a; t -= b; sx_check(t.number() == d.number(), "-="); sx_check(s.prime() == p, "prime kept"); sx_check(d.prime() == p, "prime kept"); sx_check((a == b) == (x == y), "=="); sx_check((a != b) == (x != y), "!="); if (p > (1ull << 63)) sx_reach("prime above 2^63");
}
// products: every pair for small primes; for large primes every a against selected b
SX_HARNESS(zp_mul_small) { static const uint64_t S[] = {2, 3, 5, 7, 11, 13, 31, 47, 53}; uint64_t p = S[sx_choice("p", 9)]; uint64_t x = (uint64_t)sx_int("a", 0, p - 1), y = (uint64_t)sx_int("b", 0, p - 1); Zp a(x, p), b(y, p); Z e = mod(um(x) * um(y), um(p)); eqz(um((a * b).number()), e, "a*b"); Zp t = a; t *= b; eqz(um(t.number()), e, "a*=b"); Zp u(p); u.number() = 1 % p; addmul(u, a, b); eqz(um(u.number()), mod(Z(e + 1), um(p)), "addmul"); submul(u, a, b); eqz(um(u.number()), Z(1), "submul"); sx_reach("mul"); }
SX_HARNESS(zp_mul_full) { // every a
  int i = sx_choice("p", 6); uint64_t p = P[7 + i]; static const uint64_t K[] = {0, 1, 2, 3, 17}; uint64_t y = K[sx_choice("k", 5)];
  uint64_t x = elem("a", p); Zp a(x, p), b(y, p); Z e = mod(um(x) * um(y), um(p)); Zp c = a * b; sx_check(c.number() < p, "product is reduced"); eqz(um(c.number()), e, "a*b"); sx_reach("mul");
}
SX_HARNESS(zp_mul_large) { // windows of 1500 elements
  int i = sx_choice("p", 7); uint64_t p = P[6 + i]; static const uint64_t K[] = {65537, 4294967290ul}; int k = sx_choice("k", 5); uint64_t y = k < 2 ? K[k] % p : k == 2 ? p - 1 : k == 3 ? p - 2 : p / 2 + 1; int w = sx_choice("w", 4);
  uint64_t base = w == 0 ? 0 : w == 1 ? p / 2 - 700 : w == 2 ? p - 1500 : p / 3; uint64_t x = base + (uint64_t)sx_int("a", 0, 1499); Zp a(x, p), b(y, p); Z e = mod(um(x) * um(y), um(p)); Zp c = a * b; sx_check(c.number() < p, "product is reduced"); eqz(um(c.number()), e, "a*b"); sx_reach("mul");
}
SX_HARNESS(zp_inv) {
  static const uint64_t S[] = {2, 3, 5, 7, 13, 101, 257}; uint64_t p = S[sx_choice("p", 7)]; uint64_t x = (uint64_t)sx_int("a", 1, p - 1); Zp a(x, p); Zp i = a.inv(); sx_check(i.number() < p, "inverse reduced"); eqz(mod(um(x) * um(i.number()), um(p)), Z(1), "a*inv(a)"); Zp q = Zp(1, p) / a; sx_check(q.number() == i.number(), "1/a"); Zp r = a; r /= a; sx_check(r.number() == 1, "a/a"); sx_reach("inv");
}
SX_HARNESS(zp_inv_large) { // selected elements of large fields
  uint64_t p = P[5 + sx_choice("p", NP - 5)]; int64_t k = sx_int("k", 1, 40); int s = sx_choice("s", 3); uint64_t x = s == 0 ? (uint64_t)sx_value(k) : s == 1 ? p - (uint64_t)sx_value(k) : p / 2 + (uint64_t)sx_value(k); Zp a(x, p); Zp i = a.inv(); sx_check(i.number() < p, "inverse reduced"); eqz(mod(um(x) * um(i.number()), um(p)), Z(1), "a*inv(a)"); Zp one = a * i; sx_check(one.number() == 1, "a*inv(a) in Zp"); sx_reach("inv");
}
SX_HARNESS(zp_conv) { // reduction of signed and big integers
  uint64_t p = P[sx_choice("p", NP)]; int64_t v = sx_int("v", I64MIN, I64MAX); Zp a((int64_t)v, p); Z e = mod(fromZ(Z(0)).is_zero() ? toZ(ZZ((long)v)) : Z(0), um(p)); eqz(um(a.number()), e, "from int64"); Zp b(p); b = (int64_t)v; eqz(um(b.number()), e, "= int64"); sx_check(a == v, "== int64"); Zp u((uint64_t)v, p); eqz(um(u.number()), mod(um((uint64_t)v), um(p)), "from uint64"); sx_reach("conv");
}
SX_HARNESS(zp_conv_big) { uint64_t p = P[sx_choice("p", NP)]; ZZ a = sbig("a", BIGLO, BIGHI); Zp z(a, p); eqz(um(z.number()), mod(toZ(a), um(p)), "from ZZ"); Zp w(p); w = a; eqz(um(w.number()), mod(toZ(a), um(p)), "= ZZ"); if (!a.is_small()) sx_reach("big"); }
SX_HARNESS(zp_pow) { static const uint64_t S[] = {2, 3, 7, 13, 47}; uint64_t p = S[sx_choice("p", 5)]; uint64_t x = (uint64_t)sx_int("a", 0, p - 1); int n = sx_choice("n", 9); Z e = mod(Z(1), um(p)); for (int i = 0; i < n; ++i) e = mod(e * um(x), um(p)); Zp r = pow(Zp(x, p), (int64_t)n); eqz(um(r.number()), e, "pow"); sx_reach("pow"); }
SX_HARNESS(zp_mulint) { static const uint64_t S[] = {2, 3, 7, 31}; uint64_t p = S[sx_choice("p", 4)]; uint64_t x = (uint64_t)sx_int("a", 0, p - 1); int64_t k = sx_int("k", -40, 40); Zp a(x, p); Z e = mod(um(x) * toZ(ZZ((long)k)), um(p)); eqz(um((a * k).number()), e, "a*int"); eqz(um((k * a).number()), e, "int*a"); sx_reach("mulint"); }
