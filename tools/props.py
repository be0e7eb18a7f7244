# Source of /verif/properties.jsonl and of the per-property parts of MANIFEST.json (run tools/mk.py).
PROPS = []
def P(id, title, statement, text, why, files, mech, over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=["public headers clpoly/*.hh"], hook_needed=None)))
Zh = "clpoly/number/ZZ.hh"
P("N01", "Integer ring operations are exact for integers of every size",
  "For all integers a, b: a+b, a-b, a*b, -a, |a|, pow(a,n) and the fused c+=a*b / c-=a*b yield the mathematically exact result, also when operands, result or intermediate values cross the machine-word boundary in either direction. Compound forms and operands that are the same object give the same result as the plain forms, and operands not written to keep their value.",
  "every pair/triple of integers in both representations (inline word, multi-precision), including aliasing", "Tests sample a few boundary values; the overflow paths depend on exact operand combinations around 2^63.",
  [Zh], [("overflow-checked word arithmetic with promotion to GMP", Zh), ("demotion to the inline form", Zh)])
P("N02", "Integer division, shifts, gcd, lcm and inverse obey their definitions",
  "Truncated / and %, floor division and remainder, quotient-remainder pairs, shifts, gcd, lcm and modular inverse satisfy their defining identities for every operand, in every mix of representations and with destination objects aliasing operands. A zero divisor is reported by an exception, never by a crash or a value; an inverse is reported exactly when it exists.",
  "all dividends and divisors, including 0, -1, INT64_MIN and multi-precision values", "The traps (INT64_MIN/-1, zero with a big dividend, floor of negative values) are single points of a huge domain.",
  [Zh], [("fdiv_q/fdiv_r/fdiv_qr/operator/ % special cases", Zh), ("gcd/lcm/invert", Zh)])
P("N03", "Equal integers are indistinguishable, and comparison is the integer order",
  "The six comparisons agree with the order of the integers; two integers that are equal in value compare equal, hash alike and have the same observable representation however they were computed. Copy, move, swap, assignment and conversions from machine integers preserve the value.",
  "every pair of integers in both representations and every history that produced them", "A non-canonical big integer only shows up for particular operation histories.",
  [Zh], [("canonical representation: inline iff it fits into 64 bits", Zh)], ("inputs", "histories"))
P("N04", "Rationals form an exact field in lowest terms",
  "Construction, + - * / pow, negation, abs, comparison and hashing of rationals are exact; every result is in lowest terms with positive denominator. Division by zero and zero denominators are reported by an exception.",
  "all numerators and denominators, signs and representations", "Reduction and sign normalisation errors need specific common factors or sign combinations.",
  ["clpoly/number/QQ.hh"], [("canonicalisation after every operation", "clpoly/number/QQ.hh")])
P("N05", "Arithmetic modulo a prime is the arithmetic of the residue field",
  "For every prime modulus below 2^64 and all elements, + - * / inverse, pow, fused operations, comparison, and reduction of machine and big integers (negative ones included) return the residue in [0,p) that the field defines.",
  "all primes up to 64 bits, all elements", "Barrett/overflow corner cases occur for few operands of few primes above 2^63.",
  ["clpoly/number.hh"], [("Zp: precomputed reciprocal reduction, conditional subtraction", "clpoly/number.hh")])
P("M01", "Monomial orders are admissible total orders",
  "Each monomial order (graded lexicographic, lexicographic, custom variable order, univariate-priority order) is a strict total order on monomials with 1 as least element, is preserved when both sides are multiplied by the same monomial, and coincides with its mathematical definition.",
  "all monomials over any variables with any non-negative exponents", "Order defects show only for particular exponent patterns; tests compare a handful of monomials.",
  ["clpoly/monomial_order.hh", "clpoly/basic_monomial.hh", "clpoly/monomial.hh"], [("comparators grlex_, lex_, univariate_priority_order, custom_var_order", "clpoly/monomial_order.hh"), ("pair_vec_comp", "clpoly/basic.hh")])
P("M02", "Monomial product, quotient, divisibility, gcd, degree and power are exact",
  "For all monomials the product adds exponents, divisibility holds exactly when every exponent suffices and then the quotient subtracts them, gcd takes minima, power multiplies exponents, and degree queries return the exponent sum or the exponent of the given variable. Results are normal forms: sorted by variable, positive exponents, consistent cached degree.",
  "all exponent vectors", "Merging of sparse exponent vectors has many interleavings of equal/missing variables.",
  ["clpoly/basic_monomial.hh", "clpoly/monomial.hh", "clpoly/basic.hh", "clpoly/polynomial_gcd.hh"], [("pair_vec merge routines", "clpoly/basic.hh"), ("is_divexact, gcd, pow, degree", "clpoly/monomial.hh")])
P("P01", "Polynomial +, -, *, pow are exact and results are in canonical form",
  "For all polynomials over the integers, rationals and prime fields, in every monomial order, sum, difference, product, negation, scalar product and power equal the mathematical result, and every result has strictly decreasing distinct monomials and no zero coefficient - also when terms cancel. In-place forms and operands that are the same object give the same result.",
  "all coefficient values and supports", "Cancellation inside the heap product and in-place sums depends on relations between coefficients that tests rarely hit.",
  ["clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/polynomial.hh", "clpoly/upolynomial.hh"], [("pair_vec_add/sub/multiplies/power", "clpoly/basic.hh"), ("packed-exponent product", "clpoly/monomial.hh")])
P("P02", "Arithmetic stays exact for large exponents and many variables",
  "Products, powers and quotients of polynomials are exact for exponents and variable counts of any size the types admit: the packed-exponent representation is used only where it cannot overflow.",
  "all exponents up to 2^62 and all numbers of variables", "The packed fast path is selected by bit-width arithmetic on the maximal exponents; tests use small exponents.",
  ["clpoly/monomial_order.hh", "clpoly/monomial.hh", "clpoly/basic.hh"], [("__is_monomial_can_compression, compression of multiplication and division", "clpoly/monomial_order.hh"), ("__pair_vec_multiplies_compression/__pair_vec_div_compression", "clpoly/monomial.hh")])
P("P03", "Polynomials can be written down from variables, numbers and terms",
  "Expressions mixing variables, machine integers, big integers, rationals, monomials and polynomials with + - * / pow denote the polynomial they spell out, in canonical form, and so do initialiser lists with repeated or cancelling terms in any order.",
  "all numbers (0 and cancelling ones included) in every operand position, empty polynomials included", "The convenience operators are many overloads; tests use non-zero generic numbers.",
  ["clpoly/polynomial_.hh", "clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/polynomial.hh"], [("mixed-operand operators", "clpoly/polynomial_.hh"), ("normalization of term lists", "clpoly/basic.hh")])
P("P04", "Polynomial division satisfies A = Q*B + R with no reducible remainder",
  "If B divides A, the quotient is exact. With remainder, A = Q*B + R holds, no term of R is divisible by the leading term of B (over a field) and both parts are canonical; division by a zero polynomial is reported by an exception.",
  "all dividends and divisors, orders and coefficient domains", "Quotients of random dense samples do not reach inexact coefficient divisions, cancelling heap chains or aliasing.",
  ["clpoly/basic.hh", "clpoly/basic_polynomial.hh", "clpoly/monomial.hh", "clpoly/upolynomial.hh"], [("pair_vec_div with and without remainder", "clpoly/basic.hh"), ("packed division", "clpoly/monomial.hh")])
P("P05", "Pseudo-division satisfies its identity with the least-degree remainder",
  "For polynomials F, G and a variable v with deg_v G = l and leading coefficient c: prem and pquo satisfy c^d*F = pquo*G + prem with deg_v prem < l and the documented exponent d, over the integers and rationals and in every order.",
  "all F, G with any degrees including degree gaps, constants and zero", "Degree gaps and vanishing leading coefficients need coefficient relations.",
  ["clpoly/polynomial.hh"], [("prem, pquo", "clpoly/polynomial.hh")])
P("P06", "Evaluation, derivation, coefficient access and conversion are homomorphic",
  "Substituting a value for a variable equals mathematical evaluation, derivative is the formal derivative, coeff/leadcoeff/degree/variable queries agree with the polynomial written as a polynomial in that variable, reduction modulo p reduces each coefficient, and converting between orders, univariate and multivariate or packed forms preserves the polynomial; results are canonical.",
  "all polynomials, values and variables, also absent variables, zero values and coefficients vanishing mod p", "Terms that vanish (mod p, under derivation, under evaluation) are value-dependent.",
  ["clpoly/polynomial.hh", "clpoly/polynomial_convert.hh", "clpoly/upolynomial.hh"], [("assign, derivative, coeff, leadcoeff, degree, polynomial_mod, poly_convert", "clpoly/polynomial.hh")])
P("P07", "Polynomial equality, hashing and normality tests are semantic",
  "Two polynomials compare equal exactly when they are mathematically equal, equal polynomials hash alike whatever the history that produced them, the polynomial comparison is a strict total order consistent with equality, and the normal-form test accepts exactly the canonical forms (empty polynomial included).",
  "all polynomials and construction histories", "Different histories of one polynomial must converge; tests compare few.",
  ["clpoly/basic_polynomial.hh", "clpoly/basic.hh"], [("operator==, hash, is_normal", "clpoly/basic_polynomial.hh")], ("inputs", "histories"))
P("U01", "Dense univariate arithmetic mod p is exact",
  "For every prime and all polynomials over the prime field, dense addition, subtraction, multiplication (all algorithms and size thresholds), division with remainder, evaluation, derivative and conversion from and to the sparse form equal the mathematical results with trimmed leading zeros.",
  "all primes up to 64 bits, all coefficients, all degree combinations", "Multiplication and division switch algorithms by size, and lazy reduction overflows only for extreme residues.",
  ["clpoly/dense_upoly_zp.hh"], [("schoolbook/Karatsuba/KS multiplication, divrem, lazy reduction", "clpoly/dense_upoly_zp.hh")])
P("U02", "Univariate gcd mod p and its cofactors are correct",
  "For all polynomials over a prime field the gcd is the monic greatest common divisor (zero inputs included), the extended form returns s, t with s*a + t*b = gcd, and the half-gcd and classical paths agree.",
  "all primes, all coefficient values, all degree patterns", "Degree drops inside the remainder sequence are coefficient-dependent.",
  ["clpoly/dense_upoly_zp.hh", "clpoly/polynomial_gcd.cc", "clpoly/polynomial_gcd.hh", "clpoly/polynomial_factorize_zp.hh"], [("Euclid, HGCD", "clpoly/dense_upoly_zp.hh"), ("polynomial_GCD(Zp)", "clpoly/polynomial_gcd.cc")])
P("G01", "gcd returns the greatest common divisor",
  "For all integer polynomials, gcd(F,G) divides both F and G, and every common divisor divides it (integer content included); gcd(F,0) is F up to sign. The result does not depend on argument order or on internal prime and evaluation choices, up to the documented sign.",
  "all pairs of polynomials, univariate and multivariate, with zero, constant, coprime and non-primitive arguments", "Modular algorithms are wrong only for unlucky primes/evaluation points, reached for special coefficient relations.",
  ["clpoly/polynomial_gcd.hh", "clpoly/polynomial_gcd.cc"], [("modular gcd with trial division", "clpoly/polynomial_gcd.hh")])
P("G02", "Content, primitive part and square-free decomposition multiply back",
  "f = cont(f)*pp(f) with pp primitive; square-free factorisation returns pairwise coprime square-free factors whose powers multiply back to f; is_squarefree agrees with it; a square-free basis expresses every input polynomial as a product of basis powers up to a constant.",
  "all integer polynomials, constants and repeated factors included", "Repeated factors and common factors across inputs need coefficient relations.",
  ["clpoly/polynomial_gcd.hh"], [("cont, pp, squarefreefactorize, squarefreebasis", "clpoly/polynomial_gcd.hh")])
P("R01", "Resultant, discriminant and subresultants equal their determinant definitions",
  "For all F, G the resultant equals the determinant of the Sylvester matrix, the discriminant satisfies its defining relation with the resultant of F and F', and every element of the subresultant chain equals its determinant polynomial, whichever algorithm (chain or Bezout matrix) is selected.",
  "all degrees, defective (degree-gap) chains, vanishing leading subresultants, any number of variables", "Defective chains need coefficient relations that random samples never satisfy.",
  ["clpoly/resultant.hh"], [("subresultant chain, Bezout determinant", "clpoly/resultant.hh")])
P("F01", "Factorisation of univariate integer polynomials is complete",
  "content times the product of the factors' powers equals the input, factors are primitive with positive leading coefficient, irreducible over the integers, pairwise non-associate and of positive degree; zero and constants return no factors.",
  "all integer polynomials", "Recombination and prime choice depend on the splitting pattern modulo the chosen prime.",
  ["clpoly/polynomial_factorize_univar.hh", "clpoly/polynomial_factorize.hh"], [("Zassenhaus/van Hoeij recombination", "clpoly/polynomial_factorize_univar.hh")])
P("F02", "Factorisation of multivariate integer polynomials is complete",
  "content times the product of the factors' powers equals the input, and the factors are primitive, irreducible, non-constant and pairwise non-associate, for polynomials in any number of variables, in every monomial order and for coefficients of any size; the result does not depend on random draws.",
  "all multivariate integer polynomials", "Evaluation-point and leading-coefficient choices behave differently for special coefficients.",
  ["clpoly/polynomial_factorize_wang.hh", "clpoly/polynomial_factorize.hh"], [("Wang's EEZ algorithm with fallbacks", "clpoly/polynomial_factorize_wang.hh")])
P("F03", "Factorisation over prime fields is complete",
  "Over a prime field, the factors returned for a polynomial are monic and irreducible, their product with the leading coefficient equals the input, and the square-free and distinct-degree stages return exactly the classes they define.",
  "all primes (2 included) and all polynomials", "p-th powers and inseparable cases in small characteristic are easily missed.",
  ["clpoly/polynomial_factorize_zp.hh"], [("square-free, distinct-degree, equal-degree factorisation", "clpoly/polynomial_factorize_zp.hh")])
P("F04", "Hensel lifting keeps the congruence it lifts",
  "Lifted factors multiply to the input modulo the requested prime power, reduce to the initial factors modulo the prime, and keep their degrees.",
  "all coprime initial factorisations and target precisions", "Only a handful of lifts are tested.",
  ["clpoly/polynomial_factorize_univar.hh"], [("quadratic/linear Hensel lifting", "clpoly/polynomial_factorize_univar.hh")])
P("F05", "Factorisation of rational polynomials multiplies back",
  "For polynomials with rational coefficients, content times the product of factor powers equals the input and the factors are monic, irreducible and non-constant.",
  "all rational polynomials", "Denominator handling is sampled only.",
  ["clpoly/polynomial_factorize.hh"], [("clearing denominators, content as rational", "clpoly/polynomial_factorize.hh")])
P("B01", "Groebner bases are bases of the ideal with zero S-polynomial remainders",
  "The result generates the same ideal as the input, every S-polynomial of the result reduces to zero, the reduced basis is reduced and unique, and normal forms are irreducible representatives of their class.",
  "all ideals and monomial orders", "Buchberger criteria discard pairs; an unsound discard only matters for special ideals.",
  ["clpoly/groebner.hh"], [("Buchberger's algorithm, pair selection and criteria", "clpoly/groebner.hh")])
P("C01", "Characteristic sets are ascending chains reducing the input to zero",
  "A characteristic set is an ascending chain in the ideal of the input: each element has a new main variable, is reduced with respect to its predecessors, and every input polynomial has pseudo-remainder zero by the chain.",
  "all polynomial systems and variable orders", "Chain selection depends on cancellation patterns.",
  ["clpoly/charset.hh"], [("basic set selection, pseudo-reduction loop", "clpoly/charset.hh")])
P("C02", "Triangular decompositions keep exactly the zeros of the system",
  "The zeros of a system are the union of the zeros of its Wu chains outside their initials. Splitting a zero-dimensional triangular set by a polynomial (wrsd, rsd) puts every zero where the polynomial vanishes into the first part and every other zero into the second and loses none; the regular decomposition of a zero-dimensional system consists of regular chains with exactly its zeros; the square-free decomposition keeps every zero of the chain exactly once, as a simple zero.",
  "all polynomial systems, triangular sets and polynomials", "Vanishing subresultants and initials need coefficient relations; the tests check only that something is returned.",
  ["clpoly/charset.hh", "clpoly/resultant.hh"], [("Wucharset, GRDforZD, ZDtoRC", "clpoly/charset.hh"), ("wrsd, rsd, RCtoSqrfree", "clpoly/charset.hh")])
P("X01", "Real root isolation finds every real root exactly once",
  "For every square-free polynomial (or square-free basis), each returned interval is either an exact root or an open interval whose ends are not roots and which contains exactly one real root of its polynomial; intervals are pairwise disjoint and increasing, no real root is missed (0 included), and the root bound bounds all roots. Realroot on several polynomials attributes each root to the polynomials vanishing there with the right multiplicity.",
  "all integer polynomials", "Roots at 0, at bisection points or exactly at interval ends are coefficient relations.",
  ["clpoly/realroot.cc", "clpoly/realroot.hh"], [("Uspensky/Descartes bisection", "clpoly/realroot.cc")])
P("X02", "Comparing real algebraic numbers agrees with the real numbers",
  "Comparison of two isolated roots, and of a root with a rational, yields the order of the real numbers they denote - including equal roots of different polynomials and infinities - and refining an interval keeps the root inside.",
  "all pairs of isolating intervals and defining polynomials, all rationals", "Common roots with overlapping intervals are special.",
  ["clpoly/realroot.cc", "clpoly/realroot.hh"], [("uroot::comp, interval shrinking", "clpoly/realroot.cc")])
P("A01", "Chordal completion and elimination orderings are what they claim",
  "The associated graph joins exactly the variables occurring together in a polynomial; chordal completion returns a minimal chordal supergraph (the graph itself if it is chordal) together with a perfect elimination ordering of it; the elimination game, the perfect-elimination test, connected components and elimination height agree with their graph-theoretic definitions.",
  "all graphs and orderings", "The number of graphs is exponential; tests use a few.",
  ["clpoly/associatedgraph.cc", "clpoly/associatedgraph.hh"], [("MCS / MCS-M, elimination game", "clpoly/associatedgraph.cc")])
P("V01", "Variables with the same name are the same variable, others are different",
  "Two variables compare equal exactly when their names are equal, names are returned unchanged, automatically named variables are new and differ from every existing one, and deleting or re-creating variables never identifies two different live variables.",
  "all names and all sequences of creation, lookup and deletion", "Registry histories are unbounded.",
  ["clpoly/variable.hh", "clpoly/variable.cc"], [("name/serial registry", "clpoly/variable.hh")], ("histories", "inputs"))
P("T01", "Printed text reads back as exactly the value printed",
  "Integers, rationals, elements of prime fields, monomials, polynomials (sparse in every order, univariate; over the integers, the rationals and prime fields), lists and sets of them, graphs and isolating intervals are printed as text that denotes exactly the printed value: every coefficient, sign, exponent, variable, element and edge, zero and one included. Reading an integer or rational from text yields its value in canonical form (whatever its size, unreduced fractions and negative denominators included); malformed integers and zero denominators are reported by an exception and never stored.",
  "all values and texts", "The sign and omission rules of the printers (1, -1, constants, first term) combine over terms; tests compare a few strings.",
  ["clpoly/basic_polynomial.hh", "clpoly/basic_monomial.hh", "clpoly/number/ZZ.hh", "clpoly/number/QQ.hh", "clpoly/upolynomial.hh"], [("operator<< and str()", "clpoly/basic_polynomial.hh"), ("string constructors, operator>>", "clpoly/number/ZZ.hh, clpoly/number/QQ.hh")])
P("T02", "Random generators deliver objects of exactly the requested shape",
  "Whatever the random source returns: a random polynomial of given degree and length has exactly min(length, number of monomials) distinct terms (plus the constant term when requested), exactly the requested degree, nonzero coefficients in the given range and only the given variables; with a probability, each monomial up to the degree occurs at most once (always for 1, never for 0); indices and samples are distinct, in range and as many as requested, also for spaces larger than 2^32; random graphs are simple (edgeless for 0, complete for 1).",
  "all parameters and all random draws", "The draws are arbitrary: a test sees a handful of seeds.",
  ["clpoly/random.hh"], [("monomial unranking, selection without rejection", "clpoly/random.hh")])
P("F06", "Multivariate lifting recovers the factors and solves its equations",
  "Taylor coefficients, evaluations at powers of a point, transposed Vandermonde systems, reductions modulo a prime, common variable powers and pseudo-remainders satisfy their defining identities. The univariate, bivariate, multivariate and sparse Diophantine solvers return the unique solution of small degree when one exists for coprime images and report images that are not coprime or a support that does not fit. Evaluation points keep the degree and stay square-free; the leading coefficient is distributed completely and consistently over the images; lifting the images of a product at such a point with the right leading coefficients returns exactly the factors, also when their coefficients exceed the prime.",
  "all polynomials, primes and evaluation points within the preconditions", "Degenerate points, vanishing Taylor terms and carries between p-adic digits are coefficient relations; the factoriser retries and hides a failing lift.",
  ["clpoly/polynomial_factorize_wang.hh"], [("MTSHL: Taylor lifting, sparse interpolation, p-adic recovery", "clpoly/polynomial_factorize_wang.hh"), ("Wang leading coefficient, multivariate Hensel", "clpoly/polynomial_factorize_wang.hh")])
