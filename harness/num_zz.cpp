#include "common.hh"
static const char *M = "inline/heap representation not canonical";
// operands over both representations: |v| <= 10^39
static ZZ A() { return sbig("a", BIGLO, BIGHI); }
static ZZ B() { return sbig("b", BIGLO, BIGHI); }
SX_HARNESS(zz_add) {
  ZZ a = A(), b = B(); Z x = toZ(a), y = toZ(b);
  ZZ s = a + b; eqz(s, Z(x + y), "a+b"); canonZ(s, M); if (!s.is_small()) sx_reach("big sum");
  ZZ t = a; t += b; eqz(t, Z(x + y), "a+=b"); canonZ(t, M);
  eqz(a, x, "operands unchanged"); eqz(b, y, "operands unchanged");
}
SX_HARNESS(zz_sub) {
  ZZ a = A(), b = B(); Z x = toZ(a), y = toZ(b);
  ZZ s = a - b; eqz(s, Z(x - y), "a-b"); canonZ(s, M);
  ZZ t = a; t -= b; eqz(t, Z(x - y), "a-=b"); canonZ(t, M); sx_reach("sub");
  eqz(a, x, "operands unchanged"); eqz(b, y, "operands unchanged");
}
SX_HARNESS(zz_mul) {
  ZZ a = A(), b = B(); Z x = toZ(a), y = toZ(b);
  ZZ s = a * b; eqz(s, Z(x * y), "a*b"); canonZ(s, M); if (a.is_small() && b.is_small() && !s.is_small()) sx_reach("product leaves int64");
  ZZ t = a; t *= b; eqz(t, Z(x * y), "a*=b"); canonZ(t, M);
  eqz(a, x, "operands unchanged"); eqz(b, y, "operands unchanged");
}
SX_HARNESS(zz_neg_abs) {
  ZZ a = A(); Z x = toZ(a);
  ZZ n = -a; eqz(n, Z(-x), "-a"); canonZ(n, M); if (a.is_small() && !n.is_small()) sx_reach("-INT64_MIN");
  ZZ m = abs(a); Z ax = abs(x); eqz(m, ax, "abs"); canonZ(m, M);
  sx_check(a.sgn() == sgn(x), "sgn"); sx_check(sgn(a) == sgn(x), "sgn"); sx_check(a.is_zero() == (x == 0), "is_zero"); sx_check(a.is_one() == (x == 1), "is_one"); sx_check((bool)a == (x != 0), "bool");
}
SX_HARNESS(zz_alias) { // operands that are the same object
  ZZ a = A(); Z x = toZ(a); ZZ t = a; t += t; eqz(t, Z(x + x), "a+=a"); canonZ(t, M);
  t = a; t -= t; eqz(t, Z(0), "a-=a"); canonZ(t, M); t = a; t *= t; eqz(t, Z(x * x), "a*=a"); canonZ(t, M);
  t = a; t = t; eqz(t, x, "self assignment"); t = a; t.addmul(t, t); eqz(t, Z(x + x * x), "a.addmul(a,a)"); canonZ(t, M); t = a; t.submul(t, t); eqz(t, Z(x - x * x), "a.submul(a,a)"); canonZ(t, M); sx_reach("alias");
}
static void fma(bool sub) {
  ZZ a = A(), b = B(), c = sbig("c", BIGLO, BIGHI); Z x = toZ(a), y = toZ(b), w = toZ(c);
  ZZ t = c; if (sub) t.submul(a, b); else t.addmul(a, b); Z e = sub ? Z(w - x * y) : Z(w + x * y); eqz(t, e, sub ? "submul" : "addmul"); canonZ(t, M); sx_reach("fma");
  eqz(a, x, "operands unchanged"); eqz(b, y, "operands unchanged");
}
SX_HARNESS(zz_addmul) { fma(false); }
SX_HARNESS(zz_submul) { fma(true); }
SX_HARNESS(zz_pow) {
  ZZ a = sbig("a", BIGLO, BIGHI); Z x = toZ(a); int n = sx_choice("n", 5); ZZ p = pow(a, (uint64_t)n); Z e = 1; for (int i = 0; i < n; ++i) e = e * x; eqz(p, e, "pow"); canonZ(p, M); sx_reach("pow");
}
// ---- division
template <class F> static bool threw(F f) { try { f(); return false; } catch (const std::domain_error &) { return true; } }
static void divcheck(const ZZ &a, const ZZ &b) {
  Z x = toZ(a), y = toZ(b);
  if (y == 0) {
    sx_reach("zero divisor");
    sx_check(threw([&] { ZZ q = a / b; }), "a/0 throws domain_error"); sx_check(threw([&] { ZZ q = a % b; }), "a%0 throws domain_error");
    sx_check(threw([&] { ZZ q; ZZ::fdiv_q(q, a, b); }), "fdiv_q by 0 throws domain_error"); sx_check(threw([&] { ZZ q, r; ZZ::fdiv_qr(q, r, a, b); }), "fdiv_qr by 0 throws domain_error"); sx_check(threw([&] { ZZ r; ZZ::fdiv_r(r, a, b); }), "fdiv_r by 0 throws domain_error");
    return;
  }
  { ZZ q = a / b, r = a % b; Z Q = toZ(q), R = toZ(r); canonZ(q, M); canonZ(r, M); eqz(Z(Q * y + R), x, "a == (a/b)*b + a%b");
    Z ar = abs(R), ay = abs(y); sx_check(ar < ay, "|a%b| < |b|"); if (x >= 0) sx_check(R >= 0, "truncated remainder has the sign of a"); else sx_check(R <= 0, "truncated remainder has the sign of a");
    ZZ t = a; t /= b; eqz(t, Q, "a/=b"); t = a; t %= b; eqz(t, R, "a%=b"); }
  { ZZ q, r; ZZ::fdiv_qr(q, r, a, b); Z Q = toZ(q), R = toZ(r); canonZ(q, M); canonZ(r, M); eqz(Z(Q * y + R), x, "a == fdiv_q*b + fdiv_r"); if (y > 0) { sx_check(R >= 0, "floor remainder sign"); sx_check(R < y, "floor remainder range"); } else { sx_check(R <= 0, "floor remainder sign"); sx_check(R > y, "floor remainder range"); }
    ZZ q2, r2; ZZ::fdiv_q(q2, a, b); ZZ::fdiv_r(r2, a, b); canonZ(q2, M); canonZ(r2, M); eqz(q2, Q, "fdiv_q"); eqz(r2, R, "fdiv_r");
    // destinations that already hold a heap value, or alias an operand
    ZZ h("123456789012345678901234567890"), h2("-98765432109876543210987654321"); ZZ::fdiv_qr(h, h2, a, b); eqz(h, Q, "fdiv_qr into heap value"); eqz(h2, R, "fdiv_qr into heap value"); canonZ(h, M); canonZ(h2, M);
    ZZ al = a; ZZ::fdiv_q(al, al, b); eqz(al, Q, "fdiv_q(a,a,b)"); al = a; ZZ::fdiv_r(al, al, b); eqz(al, R, "fdiv_r(a,a,b)"); }
}
SX_HARNESS(zz_div_small) { ZZ a((long)sx_int("a", I64MIN, I64MAX)); static const long D[] = {0, 1, -1, 2, -2, 3, -7, 1000003, -1000003, 4294967296L, 9223372036854775807L, (long)I64MIN}; ZZ b(D[sx_choice("d", 12)]); divcheck(a, b); }
SX_HARNESS(zz_div_sym) { ZZ a((long)sx_int("a", -2000000000, 2000000000)), b((long)sx_int("b", -2000000000, 2000000000)); sx_assume(b > ZZ(64) || b < ZZ(-64)); sx_opt("divconc", 0); divcheck(a, b); sx_reach("symbolic divisor"); }
SX_HARNESS(zz_div_big) { ZZ a = A(); static const char *D[] = {"0", "1", "-1", "3", "-10", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "-36893488147419103232", "340282366920938463463374607431768211455", "-99999999999999999999999999999999999999"}; ZZ b(D[sx_choice("d", 11)]); divcheck(a, b); if (!a.is_small() && !b.is_small()) sx_reach("big/big"); if (a.is_small() && !b.is_small()) sx_reach("small/big"); if (!a.is_small() && b.is_small()) sx_reach("big/small"); }
SX_HARNESS(zz_fdiv_ui) {
  ZZ a = A(); static const uint64_t D[] = {1, 2, 3, 97, 4294967291ul, 9223372036854775783ul, 9223372036854775808ul, 18446744073709551557ul, 18446744073709551615ul}; uint64_t d = D[sx_choice("d", 9)];
  Z x = toZ(a), dd; mpz_set_ui(dd.get_mpz_t(), d); Z r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), dd.get_mpz_t()); Z g; mpz_set_ui(g.get_mpz_t(), a.fdiv_ui(d)); eqz(g, r, "fdiv_ui"); if (!a.is_small()) sx_reach("big"); else sx_reach("small");
}
SX_HARNESS(zz_shift) {
  ZZ a = A(); Z x = toZ(a); static const int S[] = {0, 1, 31, 32, 62, 63, 64, 65, 130}; int n = S[sx_choice("n", 9)]; Z p = 1; p <<= n;
  ZZ l = a << n; eqz(l, Z(x * p), "<<"); canonZ(l, M); ZZ t = a; t <<= n; eqz(t, Z(x * p), "<<="); canonZ(t, M); ZZ mv = ZZ(a) << n; eqz(mv, Z(x * p), "<< rvalue");
  Z f; mpz_fdiv_q(f.get_mpz_t(), x.get_mpz_t(), p.get_mpz_t()); ZZ r = a >> n; eqz(r, f, ">> is floor division by 2^n"); canonZ(r, M); t = a; t >>= n; eqz(t, f, ">>="); canonZ(t, M); sx_reach("shift");
}
// ---- gcd / lcm / invert
static void gcdcheck(const ZZ &a, const ZZ &b) {
  Z x = toZ(a), y = toZ(b), g, l; mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); ZZ h = gcd(a, b); canonZ(h, M); eqz(h, g, "gcd"); ZZ h2 = gcd(b, a); eqz(h2, g, "gcd symmetric");
  mpz_lcm(l.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); ZZ m = lcm(a, b); canonZ(m, M); eqz(m, l, "lcm");
}
SX_HARNESS(zz_gcd_small) { ZZ a = szz("a", -40, 40), b = szz("b", -40, 40); gcdcheck(a, b); sx_reach("gcd"); }
SX_HARNESS(zz_gcd_edge) { static const char *D[] = {"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "4611686018427387904", "18446744073709551616", "6469693230", "-170141183460469231731687303715884105728"}; ZZ a(D[sx_choice("i", 11)]), b(D[sx_choice("j", 11)]); gcdcheck(a, b); sx_reach("edge"); ZZ c = ZZ((long)sx_choice("k", 13) - 6); gcdcheck(a * c, b); }
SX_HARNESS(zz_invert) { ZZ a = szz("a", -30, 30); ZZ m = ZZ((long)sx_int("m", 1, 30)); ZZ r; bool ok = ZZ::invert(r, a, m); Z x = toZ(a), y = toZ(m), g; mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); sx_check(ok == (g == 1), "invert exists iff coprime"); if (ok) { sx_reach("inverse"); Z v = toZ(r); canonZ(r, M); Z d = v * x - 1, q; mpz_fdiv_r(q.get_mpz_t(), d.get_mpz_t(), y.get_mpz_t()); eqz(q, Z(0), "a*invert(a) == 1 mod m"); } else sx_reach("no inverse"); }
// ---- representation, comparison, copies, conversions
SX_HARNESS(zz_cmp) {
  ZZ a = A(), b = B(); Z x = toZ(a), y = toZ(b); bool eq = x == y, lt = x < y;
  sx_check((a == b) == eq, "=="); sx_check((a != b) == !eq, "!="); sx_check((a < b) == lt, "<"); sx_check((a > b) == (!lt && !eq), ">"); sx_check((a <= b) == (lt || eq), "<="); sx_check((a >= b) == !lt, ">=");
  if (eq) { sx_reach("equal"); sx_check(a.is_small() == b.is_small(), "equal values have equal representation"); }
}
SX_HARNESS(zz_hash) { // equal values reached by different computations hash alike
  ZZ a = sbig("a", "-36893488147419103232", "36893488147419103232"), b = sbig("b", "-4", "4"); ZZ s = (a + b) - b; sx_check(s == a, "(a+b)-b == a"); sx_check(s.is_small() == a.is_small(), "representation"); if (s.is_small()) { sx_check(s.hash() == a.hash(), "hash"); sx_reach("small"); } else { sx_reach("big"); }
}
SX_HARNESS(zz_hash_ops) { // every operation leaves the unique representation of its value, at the edge of the machine word
  static const char *E[] = {"9223372036854775808", "-9223372036854775808", "9223372036854775807", "-9223372036854775809", "18446744073709551616", "0"}; Z e(E[sx_choice("e", 6)]); Z dz = toZ(szz("d", -2, 2)); ZZ a = fromZ(e + dz); Z x = e + dz;
  auto chk = [&](const ZZ &v, const Z &r, const char *m) { eqz(v, r, m); ZZ f = fromZ(r); sx_check(v == f, m); sx_check(v.is_small() == f.is_small(), m); if (v.is_small() && f.is_small()) sx_check(v.hash() == f.hash(), m); };
  chk(-a, -x, "-a"); chk(abs(a), abs(x), "abs"); ZZ b = a; b += ZZ(1); chk(b, x + 1, "+="); b -= ZZ(3); chk(b, x - 2, "-="); b = a; b *= ZZ(-1); chk(b, -x, "*="); chk(a + a - a, x, "a+a-a"); chk((a << 1) >> 1, x, "shifts"); chk(-(a * ZZ(2)) / ZZ(-2), x, "/"); b = ZZ(0); b.submul(a, ZZ(1)); chk(b, -x, "submul"); b = ZZ(0); b.addmul(a, ZZ(-1)); chk(b, -x, "addmul"); ZZ q, r; ZZ::fdiv_qr(q, r, a, ZZ(-1)); chk(q, -x, "fdiv_qr"); chk(r, 0, "fdiv_qr remainder"); chk(pow(a, 1), x, "pow"); chk(lcm(a, ZZ(1)), abs(x), "lcm"); chk(gcd(a, ZZ(0)), abs(x), "gcd"); b = a; b %= ZZ("18446744073709551616"); Z m = x; Z k("18446744073709551616"); mpz_tdiv_r(m.get_mpz_t(), x.get_mpz_t(), k.get_mpz_t()); chk(b, m, "%"); sx_reach("edge"); }
SX_HARNESS(zz_hash_big) { // multi-precision values: the hash is a function of the value, whatever computation produced it (and however much memory it left behind)
  static const char *E[] = {"9223372036854775809", "-9223372036854775810", "18446744073709551616", "340282366920938463463374607431768211454", "-340282366920938463463374607431768211457", "515377520732011331036461129765621272702107522001"}; Z x(E[sx_choice("e", 6)]); x += sx_choice("d", 3) - 1; ZZ a = fromZ(x); size_t h = a.hash();
  auto chk = [&](const ZZ &v, const char *m) { sx_check(v == a, m); sx_check(v.is_small() == a.is_small(), m); sx_check(v.hash() == h, m); };
  ZZ big = pow(ZZ(7), 300), b; b = a; chk(b, "copy"); b = big; b = a; chk(b, "copy over a longer number"); b = big + a; b -= big; chk(b, "+= then -="); chk((a + big) - big, "(a+b)-b"); chk((a * big) / big, "(a*b)/b"); chk((a << 700) >> 700, "shifts"); b = big; b *= a; b /= big; chk(b, "*= then /="); b = big * ZZ(0) + a; chk(b, "0*b+a"); chk(-(-a), "-(-a)"); b = big; b.addmul(a, ZZ(1)); b.submul(big, ZZ(1)); chk(b, "addmul then submul"); chk(ZZ(x.get_str()), "from text"); ZZ q, r; ZZ::fdiv_qr(q, r, a * big, big); chk(q, "fdiv_qr quotient"); ZZ::fdiv_qr(q, r, big * big + (a > ZZ(0) ? a : -a), big); chk(a > ZZ(0) ? r : -r, "fdiv_qr remainder"); chk(gcd(a * big, a * (big + ZZ(1))) == a ? a : -gcd(a * big, a * (big + ZZ(1))), "gcd"); ZZ c(std::move(b)); chk(a > ZZ(0) ? abs(-a) : -abs(a), "abs"); sx_reach("big"); }
SX_HARNESS(zz_copy) {
  ZZ a = A(), b = B(); Z x = toZ(a), y = toZ(b);
  ZZ c(a); eqz(c, x, "copy"); c = b; eqz(c, y, "copy assignment"); canonZ(c, M); eqz(b, y, "source of copy unchanged"); c += ZZ(1); eqz(b, y, "copies are independent");
  ZZ d(std::move(c)); eqz(d, Z(y + 1), "move"); c = a; eqz(c, x, "moved-from object is assignable"); d = std::move(c); eqz(d, x, "move assignment"); eqz(c, Z(0), "moved-from is 0");
  ZZ e = a, f = b; e.swap(f); eqz(e, y, "swap"); eqz(f, x, "swap"); swap(e, f); eqz(e, x, "swap"); eqz(f, y, "swap"); e = 7; eqz(e, Z(7), "=int"); f = 5ul; eqz(f, Z(5), "=ulong"); sx_reach("copy");
}
SX_HARNESS(zz_conv) {
  int64_t v = sx_int("v", I64MIN, I64MAX); ZZ a((long)v); Z x; mpz_set_si(x.get_mpz_t(), v); eqz(a, x, "from long"); sx_check(a.get_si() == v, "get_si"); ZZ b((long long)v); eqz(b, x, "from long long"); uint64_t u = (uint64_t)v; Z ux; mpz_set_ui(ux.get_mpz_t(), u); ZZ c((unsigned long)u); eqz(c, ux, "from unsigned long"); canonZ(c, M); ZZ d((unsigned long long)u); eqz(d, ux, "from unsigned long long"); canonZ(d, M);
  ZZ e; e = (unsigned long)u; eqz(e, ux, "= unsigned long"); canonZ(e, M); ZZ f("123456789012345678901234567890"); f = (unsigned long long)u; eqz(f, ux, "= unsigned long long over heap value"); canonZ(f, M); f = (long)v; eqz(f, x, "= long over heap value"); sx_check(a.is_odd() == ((v & 1) != 0), "is_odd"); if (!c.is_small()) sx_reach("unsigned above int64"); ZZ g((int)(v >> 33)); Z gx; mpz_set_si(gx.get_mpz_t(), (int)(v >> 33)); eqz(g, gx, "from int");
}
SX_HARNESS(zz_size) { // sizeinbase(2) is the bit length; in base 10 it bounds the number of digits
  ZZ a = sbig("a", "-18446744073709551615", "18446744073709551615"); Z x = toZ(a); size_t s = a.sizeinbase(2); Z ax = abs(x); if (ax == 0) { sx_check(s == 1, "sizeinbase(0)"); return; } Z lo = 1, hi = 1; lo <<= s - 1; hi <<= s; sx_check(ax >= lo, "2^(s-1) <= |a|"); sx_check(ax < hi, "|a| < 2^s"); sx_reach("size");
}
