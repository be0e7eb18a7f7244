// Multivariate factorisation over the integers.
#include "fac.hh"
typedef std::vector<std::pair<Ex, int>> T;
static void ord() { if (sx_choice("ord", 2)) std::reverse(VS.begin(), VS.end()); }
static void xy() { vars({"fmx", "fmy"}); }
static void xyz() { vars({"fmx", "fmy", "fmz"}); }
static void wxyz() { vars({"fmx", "fmy", "fmz", "fmw"}); }
// (variables x,y; a negative entry is a fixed coefficient)
SX_HARNESS(fm_lin) { xy(); two<PL>(par("d", {{{1, 0}, 2}, {{0, 1}, 1}, {{0, 0}, 2}}), par("e", {{{1, 0}, 1}, {{0, 1}, (int)wd(1, 2)}, {{0, 0}, 1}})); }
SX_HARNESS(fm_lc) { xy(); ord(); two<PL>(par("d", {{{1, 1}, 1}, {{1, 0}, 2}, {{0, 1}, 1}, {{0, 0}, 1}}), par("e", {{{1, 1}, 1}, {{1, 0}, 1}, {{0, 0}, -1}})); }
SX_HARNESS(fm_lcy) { xy(); two<PL>(par("d", {{{1, 2}, -1}, {{1, 0}, 2}, {{0, 0}, 2}}), par("e", {{{1, 1}, 2}, {{1, 0}, 1}, {{0, 1}, -1}, {{0, 0}, 1}})); }
SX_HARNESS(fm_quad) { xy(); ord(); two<PL>(par("d", {{{2, 0}, -1}, {{1, 1}, 1}, {{0, 1}, 2}, {{0, 0}, 1}}), par("e", {{{1, 1}, 1}, {{1, 0}, -1}, {{0, 1}, 1}, {{0, 0}, 1}})); }
SX_HARNESS(fm_y2) { xy(); two<PL>(par("d", {{{2, 0}, 1}, {{0, 2}, 1}, {{0, 1}, 1}, {{0, 0}, -1}}), par("e", {{{1, 0}, 1}, {{0, 2}, 1}, {{0, 0}, 1}})); }
SX_HARNESS(fm_33) { xy(); ord(); two<PL>(par("d", {{{3, 0}, -1}, {{1, 1}, 1}, {{0, 2}, 1}, {{0, 0}, 1}}), par("e", {{{2, 0}, -1}, {{1, 1}, 1}, {{0, 3}, 1}, {{0, 0}, 1}})); }
SX_HARNESS(fm_sep) { xy(); two<PL>(par("d", {{{2, 0}, -1}, {{1, 0}, 2}, {{0, 0}, 2}}), par("e", {{{0, 2}, 2}, {{0, 1}, 1}, {{0, 0}, -1}})); }
SX_HARNESS(fm_gr) { xy(); two<PG>(par("d", {{{1, 1}, 1}, {{1, 0}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}), par("e", {{{2, 0}, 1}, {{0, 2}, -1}, {{0, 0}, 1}}), 1, 1 + sx_choice("b", 2), Z(-2)); }
// multiplicities, monomial content, integer content
SX_HARNESS(fm_mult) { xy(); int a = 1 + sx_choice("a", 3), b = 1 + sx_choice("b", 2), i = 2 * sx_choice("i", 2), j = sx_choice("j", 2); Z k = sx_choice("k", 2) * 4 - 2; RP d = par("d", {{{1, 1}, 1}, {{1, 0}, -1}, {{0, 0}, 1}}), e = par("e", {{{1, 0}, 1}, {{0, 1}, 1}, {{0, 0}, -1}}); sx_assume(!rzero(d) && !rzero(e)); RP f = rscale(rmul(rmul(rpow(d, a), rpow(e, b)), rmul(rpow(rvar(0), i), rpow(rvar(1), j))), k); facck<PL>(f, {d, e, rvar(0), rvar(1)}, fromR<PL>(f)); }
SX_HARNESS(fm_mono) { xyz(); int i = sx_choice("i", 3), j = sx_choice("j", 3), k = sx_choice("k", 3); Z c = toZ(szz("c", -12, 12)); RP f; f.c[{i, j, k}] = c; auto R = factorize(fromR<PL>(f)); eqz(toZ(R.content), c, "content of a single term"); Ex e{0, 0, 0}; for (auto &x : R.factors) { RP g = clean(toR(x.first)); sx_check(g.c.size() == 1 && tot(g.c.begin()->first) == 1, "the factors are variables"); eqz(g.c.begin()->second, Z(1), "the factors are variables"); for (int v = 0; v < 3; ++v) { sx_check(!g.c.begin()->first[v] || e[v] == 0, "each variable once"); e[v] += g.c.begin()->first[v] * x.second; } } if (isz(c)) sx_check(R.factors.empty(), "zero has no factors"); else sx_check((e == Ex{i, j, k}), "multiplicities"); if (R.factors.empty()) sx_reach("constant"); else sx_reach("term"); }
// three variables
SX_HARNESS(fm3_lin) { xyz(); two<PL>(par("d", {{{1, 0, 0}, -1}, {{0, 1, 0}, 2}, {{0, 0, 1}, 1}, {{0, 0, 0}, 1}}), par("e", {{{1, 0, 0}, 1}, {{0, 1, 0}, 1}, {{0, 0, 1}, 1}, {{0, 0, 0}, -1}})); }
SX_HARNESS(fm3_lc) { xyz(); ord(); two<PL>(par("d", {{{1, 1, 0}, 1}, {{1, 0, 1}, 1}, {{1, 0, 0}, -1}, {{0, 0, 1}, 1}}), par("e", {{{1, 0, 1}, -1}, {{1, 0, 0}, 1}, {{0, 1, 0}, 1}, {{0, 0, 0}, 1}})); }
SX_HARNESS(fm3_quad) { xyz(); two<PL>(par("d", {{{2, 0, 0}, -1}, {{0, 1, 1}, 1}, {{0, 0, 2}, 1}, {{1, 0, 0}, 1}}), par("e", {{{2, 0, 0}, -1}, {{1, 1, 0}, 1}, {{0, 0, 1}, 1}, {{0, 0, 0}, 1}})); }
SX_HARNESS(fm3_gr) { xyz(); two<PG>(par("d", {{{1, 1, 0}, -1}, {{0, 0, 2}, 1}, {{0, 0, 0}, 1}}), par("e", {{{1, 0, 0}, 1}, {{0, 1, 1}, 1}, {{0, 0, 1}, -1}}), 1 + sx_choice("a", 2)); }
SX_HARNESS(fm3_sep) { xyz(); RP d = par("d", {{{1, 0, 0}, -1}, {{0, 1, 0}, 1}, {{0, 0, 0}, 1}}), e = par("e", {{{0, 1, 0}, 1}, {{0, 0, 1}, 1}, {{0, 0, 0}, -1}}), g = par("g", {{{1, 0, 0}, 1}, {{0, 0, 1}, -1}, {{0, 0, 0}, 1}}); RP f = rmul(rmul(d, e), g); facck<PL>(f, {d, e, g}, fromR<PL>(f)); }
SX_HARNESS(fm4_lin) { wxyz(); two<PL>(par("d", {{{1, 0, 0, 0}, -1}, {{0, 1, 0, 0}, 1}, {{0, 0, 1, 0}, 1}, {{0, 0, 0, 1}, 1}}), par("e", {{{1, 0, 0, 0}, -1}, {{0, 1, 0, 0}, 1}, {{0, 0, 1, 0}, 1}, {{0, 0, 0, 0}, 1}})); }
// several factors
SX_HARNESS(fm_three) { xy(); ord(); RP d = par("d", {{{1, 0}, 1}, {{0, 1}, 1}, {{0, 0}, 1}}), e = par("e", {{{1, 0}, -1}, {{0, 1}, 1}, {{0, 0}, 1}}), g = par("g", {{{1, 1}, -1}, {{0, 0}, 2}}); RP f = rmul(rmul(d, e), g); facck<PL>(f, {d, e, g}, fromR<PL>(f)); }
SX_HARNESS(fm_four) { xy(); RP f = rconst(1); std::vector<RP> D; for (int i = 0; i < 4; ++i) { RP l; l.c[{1, 0}] = 1; l.c[{0, 1}] = toZ(szz(nm("s", i), i - 1, i < 2 ? i : i - 1)); l.c[{0, 0}] = toZ(szz(nm("r", i), 0, i < 2 ? 1 : 0)) + i; D.push_back(l); f = rmul(f, l); } facck<PL>(f, D, fromR<PL>(f)); }
// the leading coefficients have a common prime at every point
SX_HARNESS(fm_even) { xy(); ord(); int s = 2 * (1 + sx_choice("s", 3)); RP d, e; d.c[{1, 2}] = 1; d.c[{1, 1}] = 1; d.c[{1, 0}] = 2; d.c[{0, 0}] = toZ(szz("d", 1, 3)); e.c[{1, 2}] = 1; e.c[{1, 1}] = 1; e.c[{1, 0}] = 2 + s; e.c[{0, 0}] = toZ(szz("e", -2, 2)); e.c[{0, 1}] = toZ(szz("g", 0, 1)); two<PL>(d, e); }
// leading coefficient = integer content times shared factors
SX_HARNESS(fm_lcshare) { xy(); int a = 1 + sx_choice("a", 2), b = sx_choice("b", 3); Z k = toZ(szz("k", 1, 3)), l = toZ(szz("l", 1, 2)); RP y1; y1.c[{0, 1}] = 1; y1.c[{0, 0}] = toZ(szz("y", -1, 2)); RP d = rmul(rmul(rscale(rpow(y1, a), k), rvar(0)), rconst(1)), e = rmul(rscale(rpow(y1, b), l), rpow(rvar(0), 1 + sx_choice("n", 2))); d.c[{0, 0}] += 1; e.c[{0, 1}] += toZ(szz("e", 0, 1)); e.c[{0, 0}] += 1; two<PL>(d, e); }
// coefficients of many words
static Z bigk(int i) { static const char *K[] = {"10000000000", "18446744073709551557", "100000000000000000000000000000000000000000000000000000000000000", "1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"}; return Z(K[i]); }
SX_HARNESS(fm_big) { xy(); ord(); Z C = bigk(sx_choice("k", 4)); RP d, e; d.c[{2, 0}] = C; d.c[{0, 1}] = C + sx_choice("d1", 2); d.c[{0, 0}] = C; e.c[{1, 0}] = C + 1; e.c[{0, 2}] = C - 1 - sx_choice("e2", 2); e.c[{0, 0}] = 1 + sx_choice("e0", 2); two<PL>(d, e); }
SX_HARNESS(fm_biglc) { xy(); Z C = bigk(sx_choice("k", 4)); RP d, e; d.c[{1, 1}] = C; d.c[{1, 0}] = 1; d.c[{0, 1}] = sx_choice("d1", 3) - 1; d.c[{0, 0}] = C + 3; e.c[{1, 1}] = 1; e.c[{1, 0}] = -C; e.c[{0, 0}] = C + 1 + sx_choice("e0", 3); two<PL>(d, e); }
// known (ir)reducible families: x^n - c*y^m
SX_HARNESS(fm_binom) { xy(); int n = 2 + sx_choice("n", 3), m = 1 + sx_choice("m", 4); Z c = toZ(szz("c", -9, 9)); sx_assume(!isz(c)); RP f; f.c[{n, 0}] = 1; f.c[{0, m}] = -c; auto G = facck<PL>(f, {f}, fromR<PL>(f));
  // x^n - c y^m is reducible iff for a prime p dividing gcd(n,m) c is a p-th power, or 4 divides gcd(n,m) and c = -4 k^4
  auto root = [&](int k) { for (long r = -3; r <= 3; ++r) { Z v = 1; for (int i = 0; i < k; ++i) v *= r; if (isz(v - c)) return true; } return false; }; bool red = false; for (int p = 2; p <= 3; ++p) if (n % p == 0 && m % p == 0 && root(p)) red = true; if (n == 4 && m == 4 && isz(c + 4)) red = true; sx_check((G.size() > 1) == red, "irreducible exactly when no root exists"); if (red) sx_reach("splits"); else sx_reach("irreducible"); }
// quadratic forms: reducible over the integers exactly when the 3x3 determinant vanishes and the discriminants are squares
SX_HARNESS(fm_conic) { xy(); Z a = toZ(szz("a", 1, 2)), b = toZ(szz("b", -2, 2)), c = toZ(szz("c", -1, 2)), d = toZ(szz("d", -2, 2)), e = toZ(szz("e", -2, 2)), g = toZ(szz("g", -2, 1)); RP f; f.c[{2, 0}] = a; f.c[{1, 1}] = b; f.c[{0, 2}] = c; f.c[{1, 0}] = d; f.c[{0, 1}] = e; f.c[{0, 0}] = g; f = clean(f); auto R = factorize(fromR<PL>(f)); RP pr = rconst(toZ(R.content)); size_t n = 0; for (auto &x : R.factors) { canonP(x.first, "factor is canonical"); n += x.second; for (uint64_t i = 0; i < x.second; ++i) pr = rmul(pr, toR(x.first)); sx_check(x.first.front().second > 0, "leading coefficients are positive"); } eqr(pr, f, "content times factors is the input");
  // discriminant in x: (b y + d)^2 - 4 a (c y^2 + e y + g) = A y^2 + B y + C; reducible iff it is a square of a linear polynomial
  Z A = b * b - a * c * 4, B = b * d * 2 - a * e * 4, C = d * d - a * g * 4; auto sq = [](const Z &v) { if (v < 0) return false; Z r; mpz_sqrt(r.get_mpz_t(), v.get_mpz_t()); Z q = r * r; return isz(q - v); }; bool red = isz(B * B - A * C * 4) && sq(A) && sq(C); sx_check((n > 1) == red, "reducible exactly when the discriminant is a square"); if (red) sx_reach("splits"); else sx_reach("irreducible"); }
// random draws of the sparse interpolation
SX_HARNESS(fm_seed) { xyz(); SEED = 1 + 1000 * sx_choice("seed", 40); two<PL>(par("d", {{{2, 0, 0}, -1}, {{0, 1, 1}, 1}, {{1, 0, 0}, -2}, {{0, 0, 1}, -3}}), par("e", {{{2, 0, 0}, -1}, {{1, 1, 0}, 1}, {{0, 0, 2}, -1}, {{0, 1, 0}, -1}, {{0, 0, 0}, -2}})); }
