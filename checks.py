def H(file, name, quick, thorough=None, reach=(), what="", bounds="", tier="quick", replay=3000):
    return dict(file=file, name=name, quick=quick, thorough=thorough or quick * 6, reach=list(reach), what=what, bounds=bounds, tier=tier, replay=replay)
CHECKS = {}
W39 = "operands any integer of absolute value <= 10^39 (both representations)"
CHECKS["N01"] = dict(libs=["variable"], harnesses=[
    H("num_zz", "zz_add", 20, reach=["big sum"], what="a+b, a+=b exact, canonical", bounds=W39),
    H("num_zz", "zz_sub", 20, reach=["sub"], what="a-b, a-=b", bounds=W39),
    H("num_zz", "zz_mul", 25, reach=["product leaves int64"], what="a*b, a*=b", bounds=W39),
    H("num_zz", "zz_neg_abs", 10, reach=["-INT64_MIN"], what="-a, abs, sgn, is_zero, is_one", bounds=W39),
    H("num_zz", "zz_alias", 15, reach=["alias"], what="compound operators on the same object", bounds=W39),
    H("num_zz", "zz_addmul", 25, reach=["fma"], what="c += a*b", bounds=W39),
    H("num_zz", "zz_submul", 25, reach=["fma"], what="c -= a*b", bounds=W39),
    H("num_zz", "zz_pow", 15, reach=["pow"], what="pow(a,n)", bounds=W39 + ", n <= 4"),
])
CHECKS["N02"] = dict(libs=["variable"], harnesses=[
    H("num_zz", "zz_div_small", 20, reach=["zero divisor"], what="/, %, fdiv_q, fdiv_r, fdiv_qr, aliasing destinations, zero divisor", bounds="dividend any int64, 12 divisors incl. 0, -1, INT64_MIN"),
    H("num_zz", "zz_div_sym", 25, reach=["symbolic divisor"], what="the same with symbolic divisor", bounds="|a|,|b| <= 2*10^9, |b| > 64"),
    H("num_zz", "zz_div_big", 25, reach=["zero divisor", "big/big", "small/big", "big/small"], what="the same over both representations", bounds="dividend |a| <= 10^39, 11 divisors"),
    H("num_zz", "zz_fdiv_ui", 10, reach=["big", "small"], what="fdiv_ui", bounds="|a| <= 10^39, 9 word divisors"),
    H("num_zz", "zz_shift", 20, reach=["shift"], what="<<, >>", bounds="|a| <= 10^39, shifts 0..130"),
    H("num_zz", "zz_gcd_small", 20, reach=["gcd"], what="gcd, lcm", bounds="|a|,|b| <= 40"),
    H("num_zz", "zz_gcd_edge", 20, reach=["edge"], what="gcd, lcm at representation boundaries", bounds="11x11 boundary values times a symbolic factor in [-6,6]"),
    H("num_zz", "zz_invert", 20, reach=["inverse", "no inverse"], what="modular inverse", bounds="|a| <= 30, 1 <= m <= 30"),
])
CHECKS["N03"] = dict(libs=["variable"], harnesses=[
    H("num_zz", "zz_cmp", 15, reach=["equal"], what="six comparison operators; equal values have equal representation", bounds=W39),
    H("num_zz", "zz_hash", 15, reach=["small", "big"], what="hash and representation do not depend on history", bounds="|a| <= 2^65, |b| <= 4"),
    H("num_zz", "zz_hash_ops", 20, reach=["edge"], what="representation and hash after every operation", bounds="values within 2 of 0, +-2^63, 2^64"),
    H("num_zz", "zz_hash_big", 10, reach=["big"], what="hash of multi-precision values after different computations", bounds="18 values of 64 to 160 bits, 14 computations"),
    H("num_zz", "zz_copy", 15, reach=["copy"], what="copy, move, swap, assignment", bounds=W39),
    H("num_zz", "zz_conv", 10, reach=["unsigned above int64"], what="conversions from machine integers", bounds="every 64-bit value"),
    H("num_zz", "zz_size", 20, reach=["size"], what="sizeinbase(2)", bounds="|a| < 2^64"),
])
CHECKS["N04"] = dict(libs=["variable"], harnesses=[
    H("num_qq", "qq_ring", 30, reach=["division", "division by zero"], what="construction, + - * / and compound forms, canonical form", bounds="|num| <= 6, den <= 4"),
    H("num_qq", "qq_ring_big", 30, reach=["division", "division by zero"], what="the same with big factors", bounds="|num| <= 2 times {1, 2^63-1, -2^63, 10^20}, den <= 2 times the same"),
    H("num_qq", "qq_order", 20, reach=["equal", "zero denominator"], what="comparisons, sgn, abs, hash of equal values", bounds="|num| <= 6, |den| <= 4"),
    H("num_qq", "qq_pow", 15, reach=["pow"], what="pow", bounds="|num| <= 5, den <= 6, n <= 4"),
    H("num_qq", "qq_int", 15, reach=["int"], what="integers embed", bounds=W39),
])
CHECKS["N05"] = dict(libs=["variable"], harnesses=[
    H("num_zp", "zp_addsub", 20, reach=["prime above 2^63"], what="+ - unary-, comparison", bounds="13 primes from 2 to 2^64-59, every pair of elements"),
    H("num_zp", "zp_mul_small", 15, reach=["mul"], what="*, *=, addmul, submul", bounds="9 primes <= 53, every pair of elements"),
    H("num_zp", "zp_mul_full", 25, 200, reach=["mul"], what="* (Barrett reduction)", bounds="6 primes from 2^32-5 to 2^64-59, every a, b in {0,1,2,3,17}"),
    H("num_zp", "zp_mul_large", 30, reach=["mul"], what="* (Barrett reduction)", bounds="7 primes from 2^31-1 to 2^64-59, 4 windows of 1500 values of a, 5 values of b"),
    H("num_zp", "zp_inv", 15, reach=["inv"], what="inv, /", bounds="7 primes <= 257, every nonzero element"),
    H("num_zp", "zp_inv_large", 15, reach=["inv"], what="inv on large fields", bounds="8 primes, 120 elements each"),
    H("num_zp", "zp_conv", 15, reach=["conv"], what="reduction of int64/uint64", bounds="13 primes, every 64-bit value"),
    H("num_zp", "zp_conv_big", 15, reach=["big"], what="reduction of big integers", bounds="13 primes, " + W39),
    H("num_zp", "zp_pow", 15, reach=["pow"], what="pow", bounds="5 primes <= 47, n <= 8"),
    H("num_zp", "zp_mulint", 10, reach=["mulint"], what="element times machine integer", bounds="4 primes, |k| <= 40"),
])
E12 = "every exponent in [0, 10^12], "
CHECKS["M01"] = dict(libs=["variable"], harnesses=[
    H("mono", "ord_grlex", 20, reach=["equal", "greater"], what="graded lexicographic order = its definition; equality; hash; least element", bounds=E12 + "3 variables"),
    H("mono", "ord_grlex_ops", 20, reach=["ops"], what="> < >= <= of graded monomials", bounds=E12 + "3 variables"),
    H("mono", "ord_lex", 20, reach=["equal", "greater"], what="lexicographic order", bounds=E12 + "3 variables"),
    H("mono", "ord_custom", 20, reach=["equal", "greater"], what="lexicographic with custom variable order", bounds=E12 + "3 variables"),
    H("mono", "ord_custom_partial", 20, reach=["equal", "greater"], what="custom order naming only some variables", bounds=E12 + "3 variables"),
    H("mono", "ord_grcustom", 20, reach=["equal", "greater"], what="graded with custom variable order", bounds=E12 + "3 variables"),
    H("mono", "ord_up", 30, reach=["equal", "greater"], what="univariate-priority order for each main variable", bounds=E12 + "3 variables"),
    H("mono", "cmpt_grlex", 20, reach=["compatible"], what="compatibility with multiplication", bounds=E12 + "2 variables"),
    H("mono", "cmpt_lex", 20, reach=["compatible"], what="compatibility with multiplication", bounds=E12 + "2 variables"),
    H("mono", "cmpt_custom", 20, reach=["compatible"], what="compatibility with multiplication", bounds=E12 + "2 variables"),
    H("mono", "cmpt_up", 20, reach=["compatible"], what="compatibility with multiplication", bounds=E12 + "2 variables"),
    H("mono", "var_order", 20, reach=["order"], what="variable comparators are strict total orders", bounds="4 variables, 7 comparators, every triple"),
])
CHECKS["M02"] = dict(libs=["variable"], harnesses=[
    H("mono", "mono_arith_grlex", 25, reach=["divides", "does not divide"], what="product, quotient, divisibility, gcd, lcm, degrees", bounds=E12 + "2 variables"),
    H("mono", "mono_arith_lex", 25, reach=["divides", "does not divide"], what="the same, lexicographic", bounds=E12 + "2 variables"),
    H("mono", "mono_arith_up", 25, reach=["divides", "does not divide"], what="the same, univariate-priority", bounds=E12 + "2 variables"),
    H("mono", "mono_prod3", 25, reach=["product"], what="product", bounds=E12 + "3 variables"),
    H("mono", "mono_div3", 25, reach=["divides"], what="divisibility", bounds=E12 + "3 variables"),
    H("mono", "mono_gcd3", 25, reach=["gcd"], what="gcd, lcm", bounds=E12 + "3 variables"),
    H("mono", "mono_pow", 20, reach=["pow"], what="pow", bounds="exponents <= 10^6, n <= 6"),
    H("mono", "mono_normal", 30, reach=["normalised"], what="normal form of arbitrary factor lists", bounds="3 factors in every order, exponents in [-5, 10^12]"),
    H("mono", "mono_life", 25, reach=["life"], what="copy, move, assign, swap, clear", bounds=E12 + "3 variables"),
    H("mono", "mono_hash", 15, reach=["hash"], what="hash of equal monomials built differently", bounds=E12 + "3 variables"),
    H("mono", "mono_vars", 15, reach=["vars"], what="variable products and powers", bounds=E12 + "3 variables"),
    H("mono", "umono", 10, reach=["umono"], what="univariate monomials", bounds=E12),
])
S2 = "coefficients in [-2,2]; every cancellation pattern"
CHECKS["P01"] = dict(libs=["variable", "upolynomial"], harnesses=[
    H("poly", "ring_grlex", 40, reach=["ring"], what="+ - * unary -, commuted product, equality", bounds="supports {x,y,1} and {x^2,xy,1}, " + S2),
    H("poly", "ring_lex", 40, reach=["ring"], what="the same under lex", bounds=S2),
    H("poly", "ring_up", 40, reach=["ring"], what="the same under the univariate-priority order", bounds=S2),
    H("poly", "ring_custom", 40, reach=["ring"], what="the same under a custom variable order", bounds=S2),
    H("poly", "ring_uni", 40, reach=["ring"], what="one variable, degree 2", bounds="coefficients in [-3,3]"),
    H("poly", "ring_upoly", 40, reach=["ring"], what="univariate type", bounds="coefficients in [-3,3]"),
    H("poly", "ring_big", 40, reach=["big"], what="multi-precision coefficients", bounds="|c| <= 10^20, 2 terms each"),
    H("poly", "ring_support", 50, reach=["support"], what="solver-chosen supports", bounds="2 terms each, exponents <= 2 and <= 1"),
    H("poly", "ring_support_lex", 50, reach=["support"], what="solver-chosen supports under lex", bounds="2 terms each"),
    H("poly", "ring_chain", 40, reach=["chain"], what="heap product, 5 x 3 terms", bounds="coefficients in [-1,1]"),
    H("poly", "heap_u", 40, reach=["many terms"], what="heap product, univariate", bounds="12 x 12 terms (thorough: 24 x 20), 8 support patterns, coefficients in [1,10^6]"),
    H("poly", "heap_grlex", 40, reach=["many terms"], what="heap product, graded order", bounds="14 x 12 terms (thorough: 22 x 20), 8 support patterns, coefficients in [1,10^6]"),
    H("poly", "heap_lex", 40, reach=["many terms"], what="heap product, lex", bounds="12 x 14 terms (thorough: 22 x 20), the same"),
    H("poly", "heap_lex3", 40, reach=["many terms"], what="heap product, 3 variables", bounds="12 x 12 terms (thorough: 18 x 18), the same"),
    H("poly", "ring_alias", 30, reach=["alias"], what="aliased operands and destinations", bounds="coefficients in [-3,3]"),
    H("poly", "ring_pow", 40, reach=["pow"], what="pow", bounds="3 terms, n <= 5"),
    H("poly", "ring_pow_lex", 30, reach=["pow"], what="pow under lex", bounds="2 terms, n <= 7"),
    H("poly", "ring_pow_u", 30, reach=["pow"], what="univariate pow", bounds="2 terms, n <= 7"),
    H("poly", "ring_scalar", 20, reach=["scalar"], what="scalar product and constant polynomials", bounds="coefficients in [-3,3]"),
    H("poly", "ring_zp", 40, reach=["field"], what="prime fields", bounds="p in {2,3,5,7}, all coefficients"),
    H("poly", "ring_zp_pow", 30, reach=["pow"], what="pow over prime fields", bounds="p in {2,3,5}, degree 2, n <= 5"),
    H("poly", "ring_qq", 40, reach=["rational"], what="rational coefficients", bounds="numerators in [-3,3], denominators <= 3"),
])
CHECKS["P02"] = dict(libs=["variable", "upolynomial"], harnesses=[
    H("poly", n, 30, reach=["large"], what="product around the packing limits", bounds="exponents 2^k/2+-1, 2^k+-1 for 9 values of k, every variable position") for n in ("exp_grlex2", "exp_lex2", "exp_grlex3", "exp_lex3", "exp_lex4")] + [
    H("poly", n, 30, reach=["large"], what="exact quotient around the packing limits", bounds="the same") for n in ("expdiv_grlex2", "expdiv_lex2", "expdiv_grlex3", "expdiv_lex4")] + [
    H("poly", n, 40, reach=["large"], what="product, symbolic exponents", bounds="two exponents anywhere in [0,2^40]") for n in ("exp_sym_grlex", "exp_sym_lex", "exp_sym_grlex3")] + [
    H("poly", "exp_uni", 20, reach=["uni"], what="product in one variable", bounds="exponent in [3,2^60]"),
    H("poly", "expdiv_uni", 20, reach=["uni"], what="quotient in one variable", bounds="exponents around 2^31, 2^32, 2^50"),
    H("poly", "rem_lex_grow", 20, reach=["grow"], what="division with remainder under lex, growing exponents", bounds="n <= 5, 5 values of k"),
] + [H("poly", n, 20, reach=["many"], what="product and quotient in many variables", bounds="7..65 variables, exponent <= 3") for n in ("many_grlex_7", "many_grlex_31", "many_lex_32", "many_grlex_64", "many_lex_65")])
def L(file, names, reach, bounds, what="", quick=30, **k):
    return [H(file, n, quick, reach=[reach] if isinstance(reach, str) else reach, what=what, bounds=bounds, **k) for n in names.split()]
PL4 = ["variable", "upolynomial"]
CHECKS["P03"] = dict(libs=PL4, harnesses=
    L("poly2", "expr_monomials", "monomials", "exponents <= 3", "sums and differences of two monomials") +
    L("poly2", "expr_int", "integers", "every int64, exponents <= 2", "monomial and machine integer") +
    L("poly2", "expr_vars", "variables", "2 variables, n <= 3", "variables, powers, mixed expressions") +
    L("poly2", "expr_poly_num", "numbers", "coefficients in [-2,2], numbers in [-4,4]", "polynomial and number in both positions") +
    L("poly2", "expr_poly_big", "big", "|c|,|d| <= 4*10^19, every int64", "constants crossing the machine word") +
    L("poly2", "expr_poly_mono", "monomials", "coefficients in [-1,1], exponents <= 2", "polynomial and monomial") +
    L("poly2", "expr_list expr_list_lex", "list", "4 terms, 3 monomials", "term lists", 40) +
    L("poly2", "expr_list_sort", "list", "6 terms, exponents <= 2", "term lists with ties", 40) +
    L("poly2", "expr_qq", "rational", "|n| <= 4, d <= 3", "rational numbers") +
    L("poly2", "expr_convert_num", "convert", "|c| <= 3", "conversion of numbers, variables, monomials"))
CHECKS["P04"] = dict(libs=PL4, harnesses=
    L("poly2", "div_grlex div_lex div_up div_upoly div_zp", "exact", "coefficients in [-2,2] ([-3,3] univariate), degree <= 2", "exact quotient", 40) +
    L("poly2", "rem_zp rem_zp_lex rem_zp_uni", "remainder", "p <= 5, degree <= 3", "division with remainder over a field", 40) +
    L("poly2", "rem_zz rem_zz_monic", "remainder", "coefficients in [-2,2]", "division with remainder over the integers", 40) +
    L("poly2", "rem_zz_u rem_zz_wide rem_zz_wide_lex rem_zp_wide", "remainder", "coefficients in [-3,3], [-2,2] or modulo 2 and 3; univariate type, exponents multiples of 2^33", "division with remainder where exponents are not packed", 40) +
    L("poly2", "div_wide", "exact", "coefficients in [-2,2], exponents multiples of 2^33", "exact quotient where exponents are not packed", 40) +
    L("poly2", "div_mono", "term", "coefficients in [-3,3]", "division by a single term", 30) +
    L("poly2", "div_zero", "zero", "coefficients in [-1,1]", "division by zero", 10) +
    L("poly2", "div_alias", "alias", "coefficients in [-2,2]", "aliased destinations", 40) +
    L("poly2", "div_big", "big", "|c| <= 3*10^19", "multi-precision coefficients", 20) +
    L("poly", "heapq_u heapq_grlex heapq_lex", ["many terms"], "quotients with 10 x 10 terms (thorough: 16 x 16), 8 support patterns, coefficients in [1,10^6]", "exact quotient by the merging heap", 60))
CHECKS["P05"] = dict(libs=PL4, harnesses=
    L("poly2", "prem_uni prem_grlex prem_lex prem_lex_gap prem_up", "pseudo", "coefficients in [-2,2] or [-1,1], degree <= 4", "pseudo-division identity", 50) +
    L("poly2", "prem_qq", "rational", "coefficients in [-2,2]", "over the rationals", 30) +
    L("poly2", "uprem", "uprem", "coefficients in [-2,2]", "univariate type", 30))
CHECKS["P06"] = dict(libs=PL4, harnesses=
    L("poly2", "assign_grlex assign_lex assign_up", "assign", "5 terms in 2 of 3 variables, coefficients in [-2,2], value in [-3,3]", "evaluation", 40) +
    L("poly2", "coef_grlex coef_lex coef_up", "coefficients", "5 terms, coefficients in [-2,2]", "derivative, degree, coefficients, leading coefficient, variables", 40) +
    L("poly2", "deriv_zp deriv_zp_u", "field", "p <= 5, all coefficients", "derivative and evaluation over prime fields", 40) +
    L("poly2", "upoly_eval", "univariate", "coefficients and value in [-3,3]", "univariate evaluation, derivative", 30) +
    L("poly2", "upoly_eval_qq", "rational", "coefficients in [-3,3], value n/d", "evaluation at rationals", 30) +
    L("poly2", "mod_p mod_p_u", "mod", "coefficients in [-20,20], 4 primes", "reduction modulo p", 30) +
    L("poly2", "mod_p_big", "mod", "|c| <= 4*10^19, 4 primes", "reduction of multi-precision coefficients", 30) +
    L("poly2", "convert convert_u", "convert", "coefficients in [-2,2]", "conversion between orders and representations", 40) +
    L("poly2", "convert_qq", "denominators", "|num| <= 3, den <= 4", "rational to integer", 30))
CHECKS["P07"] = dict(libs=PL4, harnesses=
    L("poly2", "eq_pairs", ["equal", "different"], "coefficients in [-2,2]", "equality and order", 40) +
    L("poly2", "eq_order", "chain", "coefficients in [-1,1]", "transitivity", 40) +
    L("poly2", "eq_history", "history", "coefficients in [-2,2]", "equality and hash along histories", 60) +
    L("poly2", "eq_big", "big", "|c| <= 4*10^19", "representation after overflow", 20) +
    L("poly2", "normal_form", ["normal", "not normal"], "up to 3 arbitrary terms", "is_normal", 40) +
    L("poly2", "normal_mono", "monomial", "2 factors", "is_normal of monomials", 20))
PLG = ["variable", "upolynomial", "polynomial_gcd"]
CHECKS["U01"] = dict(libs=PLG, harnesses=
    L("dense", "dn_ring2", "ring", "p in {2,3,5,7}, degrees 2 and 1, every coefficient", "+ - *, conversion, in-place forms", 40) +
    L("dense", "dn_ring_big", "ring", "3 primes up to 2^64-59, coefficients in [-2,2]", "the same", 40) +
    L("dense", "dn_ring_lazy", "lazy", "12x12 products with coefficients near p, 3 symbolic", "three-word accumulation", 30) +
    L("dense", "dn_scalar", "scalar", "degree 2", "scalar product", 20) +
    L("dense", "dn_kara16 dn_kara17 dn_kara33 dn_kara_big", "karatsuba", "16..33 coefficients, one symbolic coefficient per operand", "Karatsuba product", 30) +
    L("dense", "dn_div_23 dn_div_57 dn_div_big", "remainder", "degrees 3 by 2 or 2 by 1, every coefficient", "division with remainder", 40) +
    L("dense", "dn_div_long", "remainder", "degree 8 by 2 with coefficients near p", "lazy reduction in division", 30) +
    L("dense", "us_div", "sparse", "p <= 5, degrees 2 by 1", "sparse univariate division", 30))
CHECKS["U02"] = dict(libs=PLG, harnesses=
    L("dense", "gcd_2 gcd_3 gcd_5 gcd_7", ["common factor", "coprime"], "degrees (4,3), (3,2), (2,1), (1,1) over Z/2, Z/3, Z/5, Z/7, every coefficient", "gcd, cofactors", 40) +
    L("dense", "gcd_big", "coprime", "3 primes up to 2^64-59, degrees 2 and 1", "gcd, cofactors", 40) +
    L("dense", "gcd_planted", "common factor", "p in {3,5}, common linear factor", "gcd, cofactors", 40) +
    L("dense", "gcd_gap", "coprime", "p in {3,5}, degree gaps", "gcd, cofactors", 40) +
    L("dense", "hgcd_public hgcd_public_gap", "half-gcd", "345..800 coefficients over Z/2..Z/7, dense and sparse patterns, 2 symbolic coefficients", "half-gcd through gcd()", 60) +
    L("dense", "hgcd_small hgcd_mid hgcd_rec hgcd_sparse hgcd_sparse2 hgcd_gap", "half-gcd", "lengths 8..210, dense and sparse patterns over Z/2..Z/7, 1-4 symbolic coefficients", "half-gcd against Euclid", 40))
EV = "; evaluation points of the modular algorithm chosen by the solver"
CHECKS["G01"] = dict(libs=PLG, harnesses=
    L("gcd", "g_uni g_uni3", ["common factor", "coprime"], "degrees 2,1 with coefficients in [-2,2]; degrees 3,2 in [-1,1]", "univariate gcd", 40) +
    L("gcd", "g_uni_planted g_uni_cont g_uni_big", "common factor", "common linear factor; integer contents up to 6; coefficients of 64, 70 and 128 bits", "univariate gcd", 40) +
    L("gcd", "g_uni_unlucky g_uni_unlucky2", "common factor", "coefficients equal to, or congruent modulo, the first modular prime", "unlucky primes", 40) +
    L("gcd", "g_special g_special_grlex g_special_u", ["zero"], "zero, constants, monomials against each other", "special inputs", 40) +
    L("gcd", "g_lex g_lex_planted g_lex_planted2 g_grlex_planted", "common factor", "2 variables, factors with 2-3 terms, coefficients in [-1,1] or [-2,2]" + EV, "bivariate gcd", 60) +
    L("gcd", "g_3var g_disjoint g_cont2", "common factor", "3 variables, different variable sets, contents" + EV, "multivariate gcd", 60) +
    L("gcd", "x_uni x_lex x_const", "extended", "coefficients in [-2,2]", "extended gcd identity", 40))
CHECKS["G02"] = dict(libs=PLG, harnesses=
    L("gcd", "cont_lex cont_planted cont_u", "content", "coefficients in [-2,2]", "content and primitive part", 40) +
    L("gcd", "sqf_uni", "square-free", "cubics with coefficients in [-2,2]", "square-free factorisation", 60) +
    L("gcd", "sqf_planted sqf_cube sqf_lex sqf_grlex", "repeated factor", "u^a v^b with 2-3 term factors" + EV, "square-free factorisation", 60) +
    L("gcd", "basis_uni basis_lex basis_three basis_grlex", "basis", "2-3 polynomials built from linear factors" + EV, "square-free basis", 60))
CHECKS["R01"] = dict(libs=PL4, harnesses=
    L("resultant", "res_22 res_31 res_32 res_33", ["vanishes", "resultant"], "degrees up to 3, coefficients in [-2,2] or [-1,1]", "resultant = Sylvester determinant", 40) +
    L("resultant", "res_sparse res_gap", ["vanishes", "resultant"], "degrees 3..5, sparse and remainder-planted pairs", "resultant = Sylvester determinant", 40) +
    L("resultant", "chain_22 chain_32 chain_33 chain_41", ["regular", "defective"], "degrees up to 4, coefficients in [-2,2] or [-1,1]", "chain = determinant polynomials", 40) +
    L("resultant", "chain_gap chain_gap0 chain_gap2 chain_gap_late", "defective", "planted degree gaps, degrees up to 7", "chain = determinant polynomials", 40) +
    L("resultant", "res_xy res_xy_grlex res_xyz", "resultant", "2-3 variables, coefficients in [-1,1]", "resultant with parameters", 40) +
    L("resultant", "chain_xy", "regular", "2 variables, coefficients in [-1,1]", "chain with parameters", 40) + L("resultant", "chain_xy_gap", "defective", "2 variables, degrees 4 and 3, planted remainder", "chain with parameters", 45) +
    L("resultant", "res_bez22 res_bez31 res_bez33 res_bez42", "resultant", "4 variables", "Bezout determinant", 40) +
    L("resultant", "disc_3 disc_4 disc_sparse disc_xy disc_param", "discriminant", "degrees up to 7, coefficients in [-2,2]", "discriminant relation", 40) +
    L("resultant", "res_big", "resultant", W39, "multi-precision coefficients", 30))
PLR = PLG + ["realroot"]
CHECKS["X01"] = dict(libs=PLR, harnesses=
    L("real", "iso_1", "linear", "coefficients in [-6,6]", "isolation, degree 1", 20) +
    L("real", "iso_2 iso_3 iso_4", "roots", "degree 2 with coefficients in [-4,4], 3 in [-2,2], 4 in [-1,1]", "isolation of every square-free polynomial", 50) +
    L("real", "iso_scale iso_far", "roots", "root sizes up to 2^50", "isolation with large roots", 40) +
    L("real", "iso_int iso_rat iso_close", "roots", "3 integer roots in [-4,4]; 2 rational roots; roots 2^-16 apart", "isolation with rational roots", 40) +
    L("real", "rr_one rr_two rr_zero rr_mult rr_share rr_lex rr_mid", "several", "1-3 polynomials of degree <= 6 from factors with coefficients in [-3,3]", "roots of several polynomials with multiplicities", 50))
CHECKS["X02"] = dict(libs=PLR, harnesses=
    L("real", "cmp_lin cmp_lq cmp_qq cmp_half cmp_common cmp_cubic", ["equal", "different"], "degrees <= 3, coefficients in [-3,3], every isolating interval on an integer or half-integer grid in [-2,3]", "comparison of two roots, containment after refinement", 60) +
    L("real", "cmp_rat", ["equal", "different"], "degree <= 2, rationals n/d with |n| <= 6, d <= 4", "comparison with a rational", 60) +
    L("real", "cmp_shrink", "refine", "degree 2, up to 3 refinements", "refinement", 40) +
    L("real", "cmp_inf", "infinity", "infinities against roots and rationals", "infinities", 20))
PLA = PLG + ["associatedgraph"]
RND = "; tie-breaking draws symbolic"
CHECKS["A01"] = dict(libs=PLA, harnesses=
    L("graph", "comp_3 comp_4", "chordal", "every graph on 3 or 4 vertices" + RND, "chordal completion, ordering, minimality, elimination game, height", 40) +
    L("graph", "comp_5 comp_6", "chordal", "every graph on 5 vertices, the first two draws symbolic; 12 symbolic edges on 6 vertices (thorough: all 15)", "the same", 60) +
    L("graph", "comp_c5 comp_7 comp_grid", "not chordal", "cycles of 5 and 7 vertices with symbolic chords, ladders with symbolic rungs" + RND, "the same", 40) +
    L("graph", "peo_4 peo_5 peo_6", ["chordal", "not chordal"], "every graph on 4, 5 vertices, 12 symbolic edges on 6" + RND, "elimination ordering of chordal graphs", 50) +
    L("graph", "elim_4 elim_5 elim_6", ["perfect", "fill"], "every graph on 4 vertices with every ordering; 6 symbolic edges on 5 with every ordering; 12 symbolic edges on 6 with one ordering", "elimination game and height", 50) +
    L("graph", "comps_4 comps_5 comps_6", ["connected", "disconnected"], "every graph on 4, 5 vertices, 12 symbolic edges on 6", "components, closure, eccentricity", 50) +
    L("graph", "diff_4", "score", "every pair of graphs on 4 vertices", "difference score", 40) +
    L("graph", "assoc_4 assoc_5 assoc_6 assoc_pairs assoc_cancel", "chordal", "up to 8 polynomials in up to 6 variables, coefficients in [-1,1]", "associated graph and its elimination ordering", 40))
CHECKS["V01"] = dict(libs=["variable"], harnesses=
    L("vars", "reg_names", ["history", "automatic", "deleted"], "every history of 6 operations (use, automatic, delete) over 2 names", "registry histories", 60) +
    L("vars", "reg_all", ["history", "automatic", "deleted"], "every history of 4 operations of 5 kinds over 3 names, one of them in automatic form", "registry histories", 60) +
    L("vars", "reg_auto reg_auto2", ["history", "automatic", "deleted"], "6 or 4 operations over names that collide with automatic ones", "registry histories", 60) +
    L("vars", "reg_long", ["history", "automatic", "deleted"], "8 operations over one name", "registry histories", 60) +
    L("vars", "reg_reuse reg_reuse_auto", ["history", "automatic", "deleted"], "4-5 operations after deletions among 3 variables", "reuse of serials", 60) +
    L("vars", "reg_bytes", "bytes", "first byte 1..255, length up to 4", "names of any bytes", 40) + L("vars", "reg_long_names", "long", "lengths 1..40", "long names", 40) + L("vars", "reg_handles", "handles", "two names", "copies, assignment, swap", 20))
CHECKS["B01"] = dict(libs=PLG, harnesses=
    L("groeb", "gb_uni gb_linear gb_grlex gb_lex gb_lead gb_3 gb_3lex", "basis", "2-3 polynomials with 2-4 terms in up to 3 variables, coefficients in [-2,2] or [-1,1]", "reduced basis = textbook Buchberger", 40) +
    L("groeb", "gb_bin2 gb_bin2lex gb_bin3 gb_bin4 gb_bin5 gb_bin5lex gb_mono gb_mono3", "basis", "2-4 binomials or monomials, exponents up to 2 symbolic", "reduced basis, criteria", 40) +
    L("groeb", "gb_qq gb_qq_lex gb_trivial gb_order", "basis", "coefficients in [-2,2], denominators <= 3; lists of 0-3 polynomials in every order", "rational coefficients, degenerate lists", 40) +
    L("groeb", "nf_grlex nf_lex", ["zero", "not zero"], "coefficients in [-2,2]", "normal forms", 40) + L("groeb", "ideal_grlex", ["member", "not a member"], "coefficients in [-1,1]", "ideal membership and reduction", 40) + L("groeb", "spoly", "S-polynomial", "coefficients in [-2,2]", "S-polynomials", 40))
CHECKS["C01"] = dict(libs=PLG, harnesses=
    L("charset", "cs_lin cs_2 cs_2rev cs_gap", ["chain", "contradictory"], "2-3 polynomials in 2 variables, both orders, coefficients in [-1,1] or [-2,2], degree <= 3", "characteristic set", 40) + L("charset", "cs_3", "chain", "3 polynomials in 3 variables", "characteristic set", 40) + L("charset", "cs_uni", ["one element", "contradictory"], "degree <= 2", "characteristic set in one variable", 40) + L("charset", "cs_zero", "one element", "0-3 polynomials, zero ones included", "degenerate lists", 40))
CHECKS["C02"] = dict(libs=PLG, harnesses=
    L("charset", "wu_2 wu_deg wu_3", "zero", "2 polynomials in 2-3 variables, coefficients in [-2,2], test points in {-1,0,1}^n", "Wu decomposition", 40) +
    L("charset", "split_21 split_12 split_22 split_31 split_13 split_sq split_rsd", ["zero", "not zero"], "chains with up to 4 known zeros in [-3,3], f linear with coefficients in [-1,1] (and one quadratic)", "splitting a chain by a polynomial", 50) +
    L("charset", "sqchain3", "one chain", "3 linear factors in the main variable", "square-free chains", 50) + L("charset", "sqchain", ["several chains", "one chain"], "2 x 2 linear factors", "square-free chains", 40) +
    L("charset", "grd_11 grd_21 grd_22 grd_3", ["zero"], "2-3 polynomials, products of up to 2 lines with coefficients in [-2,2]", "regular decomposition of zero-dimensional systems", 40))
CHECKS["F03"] = dict(libs=PLG, harnesses=
    L("factor_zp", "fz2_33 fz2_24 fz2_15 fz2_44 fz3_12 fz3_22 fz3_13 fz5_11 fz5_12 fz7_11", "several factors", "products of two polynomials, p and degrees as in the name, every coefficient", "complete factorisation", 60) +
    L("factor_zp", "fz13_11", "several factors", "products of two linear polynomials, p=13", "complete factorisation", 60, tier="thorough") +
    L("factor_zp", "ddf2_6", "linear", "every square-free monic polynomial of degree 6, p=2", "distinct-degree decomposition", 60, tier="thorough") +
    L("factor_zp", "fm2_11 fm2_22 fm3_11 fm3_12 fm5_11", "several factors", "products of powers d^a*e^b with exponents up to p+4", "multiplicities and inseparable cases", 60) +
    L("factor_zp", "fz_large", "several factors", "4 primes up to 2^64-59, constant coefficients in [0,2] (thorough: [0,3])", "large fields", 60) +
    L("factor_zp", "sq2_11 sq2_21 sq2_22 sq3_11 sq3_12 sq5_11", ["simple", "multiple"], "products of powers, p and degrees as in the name", "square-free decomposition", 60) +
    L("factor_zp", "ddf2_5 ddf3_3 ddf3_4 ddf5_3 ddf7_2", ["linear"], "every square-free monic polynomial, p and degree as in the name", "distinct-degree decomposition", 60))
PR2 = "products d*e of two polynomials; "
CHECKS["F01"] = dict(libs=PLG, harnesses=
    L("factor_u", "fu_11 fu_22 fu_22m fu_31", "several factors", PR2 + "degrees as in the name, coefficients in [-2,2] to [-6,6]", "complete factorisation", 60) +
    L("factor_u", "fu_33 fu_42 fu_44 fu_222", "several factors", "products of two or three polynomials, degrees as in the name, coefficients in [-1,1] (thorough: [-2,2])", "complete factorisation, recombination", 60) +
    L("factor_u", "fu_mult fu_lex fu_grlex", "several factors", "k*d^a*e^b, degrees 1-2, coefficients in [-2,2], exponents up to 3", "multiplicities, content, sparse front ends in both orders", 60) +
    L("factor_u", "fu_all4", "several factors", "every polynomial of degree <= 4 with coefficients in [-2,2], leading coefficient in [0,2]", "the factors multiply back, are primitive, not associated", 60) +
    L("factor_u", "fu_small fu_small_lex", ["term", "constant"], "c*x^n, n <= 3, |c| <= 12, zero included", "single terms and constants", 30) +
    L("factor_u", "fu_binom", ["irreducible", "splits"], "x^n -+ c, n in {4,6,8}, c <= 16 (thorough: 64)", "known irreducible and splitting families", 60) +
    L("factor_u", "fu_sd", ["irreducible", "splits"], "minimal polynomials of sqrt(a)+sqrt(b), a,b in [-3,12] (thorough: 25)", "irreducible polynomials that split modulo every prime", 60) +
    L("factor_u", "fu_lin", "several factors", "products of 3-4 linear factors", "many modular factors", 60) + L("factor_u", "fu_big", "several factors", "quadratics with coefficients around 2^64 and 2^128", "big coefficients", 60))
CHECKS["F05"] = dict(libs=PLG, harnesses=
    L("factor_u", "fq_uni fq_grlex", "several factors", "products (d^a*e)/k of univariate polynomials, coefficients in [-2,2], k in [-5,5]", "complete factorisation over the rationals; factors monic", 60) +
    L("factor_u", "fq_multi fq_multi_gr", "several factors", "products of two polynomials in two variables, coefficients in [-2,2], both orders", "complete factorisation over the rationals", 60) +
    L("factor_u", "fq_small", ["term", "constant"], "(n/d)*x^k, |n| <= 6, d <= 5, k <= 2", "single terms and constants", 30))
CHECKS["F04"] = dict(libs=PLG, harnesses=
    L("factor_u", "hl_2 hl_2lc hl_3 hl_4 hl_5 hl_bin", "lifted", "2 to 5 coprime monic factors modulo 2, 3, 5, 7 or 11, leading coefficient 1 to 5, every error term in [-2,2] to [-4,4], requested exponent up to 5 or chosen by the library", "tree lifting: congruence, degrees, residues, precision", 60) +
    L("factor_u", "hl_linear", "lifted", "3 factors modulo 5, 3 linear steps", "linear lifting steps", 60) + L("factor_u", "hl_bounds", "root", "n <= 2000", "integer square root bound", 30) + L("factor_u", "hl_sym", "residue", "|a| <= 60, m <= 13", "symmetric residues", 30))
CHECKS["F02"] = dict(libs=PLG, harnesses=
    L("factor_m", "fm_lin fm_lc fm_lcy fm_quad fm_y2 fm_33", "several factors", PR2 + "two variables, 3-4 symbolic coefficients each in [-1,1] or [-2,2], constant and polynomial leading coefficients, either variable first", "complete factorisation", 60) +
    L("factor_m", "fm_sep fm_gr fm_mult", "several factors", "univariate parts, k*d^a*e^b*x^i*y^j with exponents up to 3, graded order", "multiplicities, contents, monomial factors", 60) +
    L("factor_m", "fm3_lin fm3_lc fm3_quad fm3_gr fm3_sep fm4_lin", "several factors", "products of 2-3 polynomials in 3-4 variables, 3-4 symbolic coefficients each", "complete factorisation", 60) +
    L("factor_m", "fm_three fm_four", "several factors", "3 and 4 factors in two variables", "complete factorisation", 60) +
    L("factor_m", "fm_even fm_lcshare", "several factors", "leading coefficients with fixed common primes or shared factors", "leading coefficient distribution", 60) +
    L("factor_m", "fm_big fm_biglc", "several factors", "coefficients 10^10 to 10^99", "coefficient recovery", 60) +
    L("factor_m", "fm_seed", "several factors", "40 seeds of the random points, 9 products in 3 variables", "independence of random draws", 60) +
    L("factor_m", "fm_mono", ["term", "constant"], "c*x^i*y^j*z^k, exponents <= 2, |c| <= 12", "single terms and constants", 30) +
    L("factor_m", "fm_binom", ["irreducible", "splits"], "x^n - c*y^m, n <= 4, m <= 4, |c| <= 9", "irreducible exactly when no root exists", 60) +
    L("factor_m", "fm_conic", ["irreducible", "splits"], "every conic with 6 coefficients in about [-2,2]", "reducible exactly when the discriminant is a square", 60))
CHECKS["T01"] = dict(libs=PLA, harnesses=
    L("text", "txt_zz txt_zz_parse", [], "integers of up to 32 decimal digits; 13 texts around the word boundaries, three bases", "printing and reading integers", 30) +
    L("text", "txt_zz_bad", ["rejected"], "9 malformed texts", "rejection of malformed integers", 30) +
    L("text", "txt_qq txt_qq_big", ["integer"], "numerators in [-12,12] (thorough: 60), denominators 1-9 (40); integers of 32 digits", "printing rationals and reading them back", 40) +
    L("text", "txt_qq_parse", ["zero denominator", "fraction"], "a/b, a in [-8,8], b in [-6,6] (thorough: 30, 20), zero included", "reading fractions", 40) +
    L("text", "txt_zp", ["printed"], "5 primes from 2 to 2^32-5, every element", "elements of prime fields", 20) +
    L("text", "txt_mono_lex txt_mono_grlex", ["one", "three variables", "fewer variables"], "3 variables, exponents in [0,10^12]", "monomials", 20) +
    L("text", "txt_poly_lex txt_poly_grlex txt_upoly", ["zero", "printed"], "6 choices of 3 monomials, coefficients in [-10^18,10^18]", "integer polynomials", 40) +
    L("text", "txt_poly_big", ["printed"], "3 terms, nonzero coefficients of 20 digits", "integer polynomials", 40) +
    L("text", "txt_poly_qq txt_poly_zp", ["printed"], "3 terms, coefficients n/d with |n| <= 3 and d <= 3; 4 primes, every coefficient", "rational and modular polynomials", 60) +
    L("text", "txt_lists", ["list", "short list"], "up to 3 elements with coefficients in [-4,4]", "lists and sets of polynomials, lists of variables", 30) +
    L("text", "txt_graph txt_root", [], "every graph on 3 nodes; intervals with ends k/2, |k| <= 6", "graphs, isolating intervals", 30))
CHECKS["T02"] = dict(libs=PLA, harnesses=
    L("rnd", "unrank_upto unrank_exact", ["two indices"], "1-3 variables, degree up to 5 (3 variables: 4), every pair of indices", "enumeration of monomials by index", 40) +
    L("rnd", "unrank_count", ["counted"], "1-8 variables, degree up to 12", "number of monomials", 30) +
    L("rnd", "select_idx", ["proper selection", "everything"], "0-6 out of 1-5 (thorough: 7), every draw", "selection without repetition", 40) +
    L("rnd", "select_rep", ["with repetition"], "0-3 out of 1-5, every draw", "selection with repetition", 40) +
    L("rnd", "select_large", ["the last index is possible", "the first index is possible"], "1-3 out of 8 sizes from 2^31-1 to 2^62, every draw", "selection from large spaces", 40) +
    L("rnd", "sample", ["proper sample", "everything or nothing"], "0-5 out of 0-4, every draw", "sampling of a list", 40) +
    L("rnd", "rp_1 rp_2 rp_3 rp_coef rp_redraw rp_wide", ["generated"], "1-3 variables, degree up to 3, up to 5 terms (6 to 10 variables, degree 40 to 100: two terms at the ends of each range), every draw", "polynomials of given degree and number of terms", 60) +
    L("rnd", "ru rq", ["generated"], "univariate, degree up to 3; rationals with denominators up to 4, every draw", "univariate and rational generators", 60) +
    L("rnd", "rd_all", ["dense"], "1-3 variables, degree up to 4", "probability one", 30) + L("rnd", "rd_none", ["empty"], "1-3 variables, degree up to 3", "probability zero", 30) +
    L("rnd", "rd_some", ["sparse"], "1-2 variables, degree up to 4 (2), every draw", "other probabilities", 40) + L("rnd", "rd_coef", [], "degree 2, coefficients in [-1,2], every draw", "coefficients", 30) +
    L("rnd", "rg", ["graph"], "0-4 nodes, probabilities 0, 1/2, 1, every draw", "random graphs", 40) + L("rnd", "rfam", ["complete", "no edges"], "3 variables, degree 1, every draw", "random families", 40))
CHECKS["F06"] = dict(libs=PLG, harnesses=
    L("lift", "lf_taylor lf_taylor_zp", ["expanded"], "5 terms in 2 variables, coefficients in [-5,5] (thorough: 50) or {5,6} modulo 7 (5-9), every point in [-3,3], order up to 4", "Taylor coefficients", 40) +
    L("lift", "lf_vander", ["singular", "solved"], "1-3 nodes modulo 3 and 5, 1-2 modulo 7, every node and value", "transposed Vandermonde systems", 40) +
    L("lift", "lf_theta", ["images"], "4 terms in 3 variables modulo 11, coefficients 9-12 (thorough: 5-12), points 1-5 and 1-2 (1-10)", "evaluation at powers of a point", 40) +
    L("lift", "lf_uni2 lf_uni3", ["solved", "not coprime"], "2 factors of degree 1 and 2 modulo 5 and 7, 3 linear factors modulo 7, every coefficient", "univariate Diophantine equations", 60) +
    L("lift", "lf_bdp lf_bdp3", ["solved"], "2-3 factors in 2 variables modulo 5, 11 and 13, solutions with coefficients in [0,1] or [-1,1]", "bivariate Diophantine equations", 60) +
    L("lift", "lf_wmds lf_sparse", ["solved"], "2 factors in 3 variables modulo 17, 101 and 10007; the random points are fixed by 2 seeds (thorough: 12)", "multivariate Diophantine equations", 60) +
    L("lift", "lf_reduce lf_content lf_prem", [], "3-4 terms, coefficients up to 60", "reductions, common powers of variables, pseudo-remainder", 40) +
    L("lift", "lf_lift2 lf_lift2lc lf_lift3 lf_lift3lc lf_lift3f lf_padic lf_hensel2", ["lifted"], "products of 2-3 factors in 2-3 variables, coefficients in [-2,2] (10^12 for the p-adic recovery), points 0-2", "lifting of factors", 60) +
    L("lift", "lf_lc", ["distributed"], "two factors with leading coefficients 1, 2, y, y^2, y+5, points 2-6", "leading coefficient distribution", 60) +
    L("lift", "lf_point", ["point"], "products of two linear factors with coefficients in [-1,1], first three points", "evaluation points", 60))
