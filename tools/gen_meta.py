#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))

UB, BI, RA, FP = "src/ubigint", "src/bigint", "src/ratio", "src/fp192"

p("C01", "Unsigned big-integer addition, subtraction, multiplication and powers are exact",
  "For all unsigned big integers of any length, addition, multiplication (including by a machine word and by a power of two), integer powers, sums and products of lists return the exact mathematical result, and subtraction returns the exact difference or is refused (a panic) exactly when it would be negative. Each in-place variant leaves the same value as its pure counterpart, pure operations leave their operands unchanged, and every result is in the canonical form without superfluous high zero limbs.",
  ["inputs"], "all operand pairs (checked up to 300 limbs), all 32-bit words, all exponents whose result fits the tested size",
  "The tests use fixed literals and small random samples that mostly compare one operation against another of the same library; carries across several limbs, all-ones limbs and zero limbs are hit by chance only.",
  [f"{UB}/arith/add.rs", f"{UB}/arith/sub.rs", f"{UB}/arith/mul.rs", f"{UB}/arith/pow.rs", f"{UB}/arith.rs"],
  [("carry and borrow propagation over limbs", f"{UB}/arith/add.rs, {UB}/arith/sub.rs"), ("schoolbook multiplication with carry", f"{UB}/arith/mul.rs"), ("square and multiply", f"{UB}/arith/pow.rs"), ("removal of high zero limbs", f"{UB}.rs, src/utils.rs")])

p("C02", "Unsigned division and remainder satisfy a = q*d + r with r < d",
  "For every unsigned big integer a and every non-zero divisor d, big or one machine word, the quotient q and the remainder r returned by division and remainder (pure and in-place) are the unique pair with a = q*d + r and 0 <= r < d, in canonical form. Division and remainder by zero panic and never return a value.",
  ["inputs"], "all dividend/divisor pairs (checked up to 300 limbs), including quotient digits near the limb base",
  "Estimated quotient digits that need several corrections occur for a vanishing share of random operands; the tests sample a few pairs.",
  [f"{UB}/arith/div.rs", f"{UB}/arith/rem.rs"],
  [("approximate-and-correct division", f"{UB}/arith/div.rs"), ("word division", f"{UB}/arith/div.rs: div_u32"), ("word remainder", f"{UB}/arith/rem.rs")])

p("C03", "Signed big-integer arithmetic is exact with truncating division",
  "For all signed big integers and all 32-bit words (including both ends of the range), addition, subtraction, multiplication, powers, negation, absolute value and sign predicates return the exact mathematical result; division truncates toward zero and the remainder has the sign of the dividend, so a = q*d + r with |r| < |d|. In-place and pure variants agree, zero is never negative, and dividing by zero panics.",
  ["inputs"], "all operand pairs and sign combinations (checked up to 40 limbs, rarely 240), all 32-bit words",
  "Tests sample few sign combinations and few results that are zero or cross a limb; the extreme words are not sampled.",
  [f"{BI}/arith/add.rs", f"{BI}/arith/sub.rs", f"{BI}/arith/mul.rs", f"{BI}/arith/div.rs", f"{BI}/arith/rem.rs", f"{BI}/arith/pow.rs", f"{BI}/funcs.rs"],
  [("sign/magnitude case split", f"{BI}/arith/add.rs, {BI}/arith/sub.rs"), ("sign of quotient and remainder", f"{BI}/arith/div.rs, {BI}/arith/rem.rs")])

p("C04", "Any history of integer operations keeps values exact and canonical",
  "After any sequence of in-place and pure operations mixing signed and unsigned integers, word operands and conversions between them, every live value equals the exact result of that sequence, is in canonical form (no superfluous high zero limbs, zero not negative), and equality, ordering and hashing of live values agree with the exact values. Operations never change values other than their target.",
  ["histories"], "all finite operation sequences over a set of registers (checked: 4..40 steps over 8 registers)",
  "Tests execute single operations or short fixed scripts; a wrong internal form left by one operation shows only when a later operation consumes it.",
  [f"{UB}.rs", f"{BI}.rs", f"{UB}/arith.rs", f"{BI}/arith.rs", f"{UB}/comp.rs", f"{BI}/comp.rs"],
  [("canonical limb vectors", "src/utils.rs: remove_suffix_0"), ("is_neg flag kept false for zero", f"{BI}.rs")])

p("C05", "Integer comparisons are the exact total order and agree with equality and hash",
  "For all signed and unsigned big integers and 32-bit words, every comparison (equal, less, greater, at most, at least, three-way, against a word, maximum and minimum, zero/one/sign predicates) equals the comparison of the exact values. Equal values hash equally and sorting yields exact ascending order.",
  ["inputs"], "all pairs of integers (checked up to 40 limbs, rarely 240) and all 32-bit words",
  "Tests compare a few pairs; values equal up to one low limb, of different length, or of opposite sign with equal magnitude are sampled rarely.",
  [f"{UB}/comp.rs", f"{BI}/comp.rs"],
  [("length-then-limb comparison", f"{UB}/comp.rs"), ("sign-aware comparison", f"{BI}/comp.rs")])

p("C06", "Integer text: rendering and parsing are exact inverses in every radix",
  "Decimal, hexadecimal, octal and binary renderings of every integer (with or without prefix) denote exactly that integer without superfluous leading zeros, and parsing a well-formed literal (optional minus sign for signed numbers, 0x/0o/0b prefix in either case, underscores between digits) yields exactly its value. A malformed string is refused with an error, never a panic and never a value; scientific notation shows the exact leading digits, truncated.",
  ["inputs"], "all integers and all strings (checked: integers up to 60 limbs, literals from the grammar, mutated and arbitrary strings including non-ASCII)",
  "The set of strings is infinite; the tests hold a handful of literals and a round trip of a few numbers.",
  [f"{UB}/convert.rs", f"{BI}/convert.rs"],
  [("per-limb decimal conversion with zero padding", f"{UB}/convert.rs"), ("literal grammar", f"{UB}/convert.rs, {BI}/convert.rs"), ("scientific notation", f"{UB}/convert.rs")])

p("C07", "Conversions between big integers and machine integers are exact or refused",
  "Converting any machine integer of any width and sign into a big integer preserves its value exactly, and converting back succeeds with the exact value precisely when it lies in the target type's range; otherwise an error is returned and nothing is truncated, wrapped or panics. Converting a negative machine or big integer into an unsigned big integer is refused (where fallible) and conversions between signed and unsigned big integers preserve the value.",
  ["inputs"], "all machine integers of the 12 primitive types and all big integers around every type bound",
  "Tests sample a few values; both ends of every range of every type and every source/target pair are not enumerated.",
  [f"{UB}/convert/from.rs", f"{UB}/convert/into.rs", f"{BI}/convert/from.rs", f"{BI}/convert/into.rs", f"{UB}/convert.rs", f"{BI}/convert.rs"],
  [("width checks by limb count", f"{UB}/convert.rs"), ("sign checks", f"{BI}/convert.rs, {BI}/convert/into.rs")])

p("C08", "Integer square root is the exact floor and gcd the exact greatest common divisor",
  "For every unsigned integer n the square root is the unique s with s*s <= n < (s+1)*(s+1), and for a negative integer it is the negated root of its magnitude. The greatest common divisor of any two integers (big or 32-bit) is the exact non-negative one, with gcd(n, 0) = |n|.",
  ["inputs"], "all integers (checked up to 40 limbs, rarely 240), in particular around perfect squares and with planted common factors",
  "Newton corrections fail only next to perfect squares of particular lengths; tests sample random numbers.",
  [f"{UB}/funcs.rs", f"{BI}/funcs.rs", "src/utils.rs"],
  [("Newton iteration with final correction", f"{UB}/funcs.rs: sqrt, sqrt_u64"), ("Euclid", f"{UB}/funcs.rs: gcd_ubi, src/utils.rs: gcd_i32")])

p("C09", "Primality tests and factorisations are correct",
  "The primality test is true exactly for the primes, for every unsigned integer within reach. The factorisation of n >= 2 is the ascending list of primes, with multiplicity, whose product is n; 0 and 1 have their documented degenerate results.",
  ["inputs"], "all integers (checked exhaustively below 20000, sampled up to 2^40 and for smooth numbers of many limbs)",
  "Tests check short fixed lists.",
  [f"{UB}/funcs.rs"],
  [("trial division by 2 and odd numbers", f"{UB}/funcs.rs: is_prime, prime_factorial")])

p("C10", "Factorials and Fibonacci numbers are exact for every argument",
  "For every argument n the factorial function returns exactly n! and the Fibonacci function returns exactly F(n) with F(0) = 0 and F(1) = 1.",
  ["inputs"], "all arguments (checked exhaustively from 0 up, sampled beyond)",
  "Tests check a few values.",
  [f"{UB}/funcs.rs"],
  [("factorial product", f"{UB}/funcs.rs: factorial"), ("Fibonacci recurrence", f"{UB}/funcs.rs: fibonacci")])

p("C11", "Binary logarithm and exponential of integers are exact to their stated scale",
  "The integer binary logarithm equals floor(log2 n) for every n >= 1, and 2^n is exact for every n. The 2^32-scaled logarithm equals log2(n)*2^32 rounded down (either neighbour only when that is within 2^-90 of an integer); the 2^32-scaled exponential of x equals floor(2^(x/2^32)) up to a relative error of 2^-29 plus one unit.",
  ["inputs"], "all integers (checked up to 300 limbs)",
  "Tests compare a few sampled points with floating point.",
  [f"{UB}/funcs/log.rs", f"{UB}/funcs/exp.rs", f"{BI}/funcs.rs"],
  [("limb count and leading-limb logarithm", f"{UB}/funcs/log.rs"), ("table of 2^(2^-i)", f"{UB}/funcs/exp.rs")])

p("C12", "Limb shifts, slices and limb-vector forms are exact",
  "Shifting an unsigned integer by k limbs multiplies it by 2^(32k) or divides it by 2^(32k) rounding down, for every k including 0 and beyond its length, in pure and in-place form. Limb slices and conversions to and from limb vectors denote exactly the corresponding base-2^32 digits, and the results are canonical.",
  ["inputs"], "all integers, shift counts and slice bounds",
  "Tests sample a few shifts.",
  [f"{UB}/funcs/shift.rs", f"{UB}.rs", f"{UB}/funcs.rs"],
  [("limb vector rotation/truncation", f"{UB}/funcs/shift.rs")])

p("C13", "Rational arithmetic is exact, in lowest terms with a positive denominator",
  "For all rationals, and integer and 32-bit operands of any value, addition, subtraction, multiplication, division, integer powers, negation, reciprocal and construction from numerator and denominator return the exact rational result in lowest terms with a positive denominator and zero represented as 0/1. In-place and pure variants agree and leave other operands unchanged; dividing by zero, inverting zero or a zero denominator is refused with a panic or an error and never yields a value.",
  ["inputs"], "all pairs of rationals (checked up to 12-limb numerators and denominators, rarely 72), all 32-bit words, exponents -60..60",
  "Tests sample few fractions; cancellation, shared factors, negative results and extreme words are infinite families.",
  [f"{RA}/arith/add.rs", f"{RA}/arith/sub.rs", f"{RA}/arith/mul.rs", f"{RA}/arith/div.rs", f"{RA}/arith/pow.rs", f"{RA}.rs", f"{RA}/funcs.rs", f"{RA}/convert/from.rs"],
  [("cross multiplication then reduction", f"{RA}/arith/add.rs"), ("reduction to lowest terms and sign normalisation", f"{RA}.rs: fit")])

p("C14", "Any history of rational operations keeps values exact, reduced and independent",
  "After any sequence of in-place and pure rational operations (arithmetic with rationals, integers and words, negation, reciprocal, rounding, cloning) every live value equals the exact result, stays in lowest terms with a positive denominator, and equality, ordering and hashing agree with the exact values. An operation changes no value other than its target.",
  ["histories"], "all finite operation sequences (checked: 4..30 steps over 4 registers)",
  "Tests run single operations; a result left unreduced or with a negative denominator only misleads a later comparison or operation.",
  [f"{RA}.rs", f"{RA}/arith.rs", f"{RA}/comp.rs", f"{RA}/funcs.rs"],
  [("normalisation after each operation", f"{RA}.rs: fit")])

p("C15", "Rational comparisons are the exact total order and agree with equality and hash",
  "For all rationals and all 32-bit words, equality, less/greater/at most/at least, three-way comparison and the zero, one, sign and integer predicates equal the comparison of the exact values. Equal values hash equally and sorting yields exact ascending order.",
  ["inputs"], "all pairs of rationals (checked up to 12 limbs, rarely 72), all 32-bit words",
  "Tests compare a few pairs; pairs differing only in the last place of long numerators are never sampled.",
  [f"{RA}/comp.rs"],
  [("cross multiplication with sign shortcuts", f"{RA}/comp.rs")])

p("C16", "Rational rounding, truncation, fraction and integer conversion are exact",
  "For every rational the floor, truncation and nearest-integer functions return the exact integers of those definitions (a tie goes away from zero), the fractional part is the exact difference to the truncation, and numerator, denominator, sign, absolute value and common-denominator queries are exact. Converting to any integer type yields the truncated value exactly when it fits the target type and an error otherwise.",
  ["inputs"], "all rationals (checked up to 12 limbs, rarely 80), in particular at and next to integers and half-integers of both signs",
  "Ties and negative non-integers are sampled by a few literals only.",
  [f"{RA}/funcs.rs", f"{RA}.rs", f"{RA}/convert/into.rs", f"{RA}/convert.rs"],
  [("truncating division plus sign correction", f"{RA}/funcs.rs")])

p("C17", "Parsing a rational literal is exact and malformed text is refused",
  "A decimal literal (optional minus sign, digits with optional underscores, optional fraction, optional exponent up to 3000 in magnitude) or a prefixed integer literal is parsed to exactly the rational it denotes, in lowest terms. Any other string is refused with an error: no panic, no wrong value; literals with larger exponents, exponents on prefixed integers and underscores next to leading zeros are left open.",
  ["inputs"], "all strings (checked: grammar-generated and mutated literals including non-ASCII)",
  "The set of strings is infinite; tests hold a handful of literals.",
  [f"{RA}/convert.rs"],
  [("literal scanner", f"{RA}/convert.rs: from_string")])

p("C18", "Rational text shows the exact value, or its correctly truncated leading digits",
  "The fraction form is exactly numerator/denominator (denominator omitted when 1). For magnitudes within 10^-9990..10^9990 the approximate decimal form and the scientific form denote the value truncated toward zero at the last shown digit, have the requested length (at least 6, longer only when an exponent needs it) and show as many digits as it allows (next to an exponent at least eight if they fit, sixteen in the scientific form); beyond that range they are within 0.2 percent. The sign is always shown and texts without an exponent are exact when the decimal expansion fits.",
  ["inputs"], "all rationals (checked over 10^-400..10^400 and at 10^+-9985..12000, powers of ten and their neighbours included) and requested lengths 0..40",
  "Tests render a few dozen numbers; digits next to powers of ten and runs of nines or zeros are the cases that break.",
  [f"{RA}/convert.rs"],
  [("decimal and scientific rendering", f"{RA}/convert.rs: to_approx_string, to_scientific_notation"), ("fraction rendering", f"{RA}/convert.rs: to_ratio_string")])

p("C19", "Floating-point conversions are exact one way and nearest the other way",
  "Every finite f32 or f64, including subnormals, zeros and extremes, converts to exactly the rational it denotes, and infinities and NaN are refused with their own errors. Every rational and every big integer converts to a nearest f32 or f64 (a tie may go either way), underflowing gradually to subnormals and zero, and is refused as out of range when the nearest value would exceed the largest finite float.",
  ["inputs"], "all 2^32 f32 and 2^64 f64 bit patterns (sampled by class), all rationals and big integers around representable values",
  "Tests sample ordinary magnitudes; carries out of the mantissa, subnormals and the overflow threshold are missed.",
  [f"{RA}/convert/ieee754.rs"],
  [("bit decoding", f"{RA}/convert/ieee754.rs: from_ieee754_*"), ("mantissa rounding and exponent assembly", f"{RA}/convert/ieee754.rs: to_ieee754_*")])

p("C20", "Shrinking a rational respects the size limit and keeps its leading precision",
  "Limiting a rational to k limbs, for k of at least 3, either reports success with numerator and denominator of at most k limbs each or reports how far it got; in every case the sign is kept, the result is in lowest terms and differs from the value by at most 2^-62 relative. A rational already small enough is returned unchanged, and limits below 3 are refused and leave it unchanged.",
  ["inputs"], "all rationals (checked up to 40 limbs) and limits 0..40",
  "Tests check a handful of values.",
  [f"{RA}.rs", f"{RA}/funcs.rs"],
  [("dropping low limbs of numerator and denominator together", f"{RA}.rs: shrink")])

p("C21", "Iterative pi, e and ln 2 meet their accuracy at every iteration count",
  "For every permitted iteration count k, the approximation of pi errs by at most 2^-(8(k+1)+3), that of ln 2 by at most 2^-(6(k+2)+3) and that of e by at most 2/(k+20)!. The constants offered without an iteration count err by at most 2^-64.",
  ["inputs"], "all iteration counts up to 254 (pi), 199 (ln 2) and 399 (e): enumerated",
  "Tests look at a few decimal digits for one or two counts.",
  [f"{RA}/pi.rs", f"{RA}/e.rs", f"{RA}/ln2.rs"],
  [("pre-computed prefixes plus series", f"{RA}/pi.rs, {RA}/ln2.rs"), ("factorial series", f"{RA}/e.rs")])

p("C22", "Rational roots, exponentials, logarithms and powers converge with the iterations",
  "For every argument and iteration count n: the square root of |x| has relative error at most 2^(2-16(n+1)) and is non-negative, the cube root at most 2^-(8*2^n), e^x at most 4f^(n+1)/(n+1)! + 2(|trunc x|+2)/(n+20)! relative with f the fractional magnitude, ln x at most 4m^(2n+2)/(2n+2) + |k|*2^-(6(n+2)+3) with x = 2^k(1+-m), and log and pow satisfy the bounds those imply. Logarithms of zero or negative numbers and powers of negative numbers panic rather than return a value, and 0 to any power is 0.",
  ["inputs"], "all rationals (checked over 2^-60..2^60) and iteration counts (roots 0..8, others 0..20)",
  "Tests compare a few rendered digits of a few arguments.",
  [f"{RA}/funcs/root.rs", f"{RA}/funcs/exp.rs", f"{RA}/funcs/ln.rs", f"{RA}/funcs/pow.rs"],
  [("Newton iterations with shrinking", f"{RA}/funcs/root.rs"), ("argument reduction by powers of two / integer part, then series", f"{RA}/funcs/exp.rs, {RA}/funcs/ln.rs")])

p("C23", "Rational trigonometric functions and inverses converge with the iterations",
  "For every angle x and iteration count n, sine and cosine err by at most 2t^(4n+4)/(4n+4)! plus the number of half turns times 2^-(8(n+1)+3), with t = min(|x|, 0.8), and tangent is their quotient; the arc functions stay within the truncation error of their series (arcsine |x|^(2n+5)/((1-x^2)*2(2n+5)), arctangent 1.1*t^(4n+5)/(4n+5) with t = min(|x|,1/|x|)) plus that of pi. Arcsine and arccosine outside [-1, 1] panic rather than return a value.",
  ["inputs"], "all rationals (checked up to 2^60 radians and in every octant) and iteration counts 1..8 (inverse functions 0..40)",
  "Tests compare a few rendered digits of a few angles.",
  [f"{RA}/funcs/trigo.rs", f"{RA}/funcs/atrigo.rs"],
  [("argument reduction by half turns and octants", f"{RA}/funcs/trigo.rs"), ("Taylor series with recurrence", f"{RA}/funcs/trigo.rs, {RA}/funcs/atrigo.rs")])

p("C24", "Matrix construction, sums, products and transposes are exact; bad shapes refused",
  "For matrices of rationals of every shape, construction (from rows, by a generator function, zero, identity, empty), element access, sum, product, scalar multiple, transpose and textual form are exactly those of linear algebra, in pure and in-place form. Ragged rows and mismatched shapes are refused with an error naming the needed and given dimensions, and a refused in-place operation leaves the matrix unchanged.",
  ["inputs", "histories"], "all shapes (checked 0..6 by 0..6) and entries, and operation histories over three matrices",
  "Tests use two fixed examples; non-square shapes and row/column confusion escape them.",
  ["src/matrix.rs", "src/matrix/utils.rs", "src/matrix/err.rs"],
  [("dimension checks", "src/matrix.rs"), ("row-major element access", "src/matrix.rs: get")])

p("C25", "Determinants and inverses are exact, and singular matrices are refused",
  "The determinant of every square matrix is exact at every size, and a matrix with non-zero determinant has as inverse exactly the matrix whose product with it, on either side, is the identity. Singular, non-square and empty matrices are refused with their respective errors.",
  ["inputs"], "all square rational matrices (checked up to 7x7, determinant up to 8x8; small grids enumerated)",
  "The random test inverts matrices with entries 0..3 of sizes 2..5; size 1, fractional, negative and nearly singular matrices are not reached.",
  ["src/matrix/det.rs", "src/matrix/inv.rs", "src/matrix/utils.rs"],
  [("closed forms up to 4x4, cofactor expansion above", "src/matrix/det.rs"), ("adjugate over determinant", "src/matrix/inv.rs")])

p("C26", "Polynomial evaluation, scaling, derivative, Newton step and text are exact",
  "A polynomial is its coefficient list without leading zeros however it was built; evaluation, multiplication by a constant, differentiation and the Newton step x - f(x)/f'(x) are exact for every polynomial and argument, in pure and in-place form, and a Newton step where the derivative vanishes panics. The textual form lists exactly the non-zero terms in descending order with correct signs, unit coefficients omitted and '0' for the zero polynomial, and the float forms are the nearest floats of the coefficients.",
  ["inputs", "histories"], "all polynomials (checked up to degree 20) and arguments, and chains of operations",
  "Tests hold a dozen small examples.",
  ["src/poly.rs"],
  [("leading zero removal", "src/poly.rs: from_vec"), ("Horner evaluation", "src/poly.rs: calc"), ("term rendering", "src/poly.rs: to_string")])

p("C27", "Interpolation returns the unique polynomial through the given data",
  "For n points with distinct abscissas in any order, interpolation returns the unique polynomial of degree below n through all of them, and the linear, quadratic and cubic Hermite constructions satisfy their values (and derivatives) exactly. Repeated abscissas are refused by the general interpolation, and give a constant, a line through one value per abscissa, or the tangent line in the fixed-size constructions as documented.",
  ["inputs"], "all point sets (checked 1..6 points)",
  "Tests interpolate one curve.",
  ["src/poly/from_points.rs"],
  [("inverse of the Vandermonde system", "src/poly/from_points.rs")])

p("C28", "Complex numbers keep exact parts and add componentwise",
  "A complex number built from any pair of real parts (rationals, machine or big integers, texts, floats) holds exactly those parts, construction fails when a part is not representable, and adding complex numbers or machine integers is exact componentwise in pure and in-place form.",
  ["inputs", "histories"], "all pairs of parts and sequences of additions",
  "There is no test of complex numbers.",
  ["src/complex.rs", "src/complex/arith/add.rs", "src/complex/convert.rs"],
  [("componentwise rational addition", "src/complex/arith/add.rs")])

p("C29", "F192 conversions are exact or correctly rounded, and refused when out of range",
  "Every machine integer becomes an F192 of exactly its value and converts back unchanged; an F192 converts to a machine integer by truncation precisely when the truncated value is in range and is refused otherwise (a negative value may be refused by an unsigned type). Every finite f32/f64 (subnormals included) becomes an F192 of exactly its value and back; infinities and NaN are refused; an F192 becomes a nearest f32/f64, or an infinity of the right sign only when it is too large. An F192 becomes a rational of exactly its value and a rational becomes an F192 within half a unit in the last place.",
  ["inputs"], "all machine integers and floats, all F192 and rationals (checked: binary exponents -1200..1200, sampled to 2^46)",
  "The tests convert small integers and a few decimals; bounds of the types, subnormals, overflow to infinity and carries of the rounding are not sampled.",
  [f"{FP}/convert.rs", f"{FP}.rs"],
  [("normalised 128-bit significand with implicit top bit", f"{FP}.rs"), ("rounding with carry into the exponent", f"{FP}/convert.rs")])

p("C30", "F192 arithmetic is accurate to the last few of its 128 significant bits",
  "For all finite F192 of in-range exponents, the sum and the product/quotient with a 32-bit word err by at most 2^-125 of the exact result, the difference by 2^-125 of the exact difference (so cancellation loses nothing and equal operands give exactly zero), the product by 2^-123 and the quotient by 2^-122, with the sign of the exact result. Results are exact whenever operands and result are integers (or integers times a power of two) of at most 124 bits. Every operation ends and none panics except division by zero.",
  ["inputs"], "all operand pairs with binary exponents up to 2^46 in magnitude, all 32-bit words",
  "The tests use integers of at most 97 bits, whose products and sums are exact.",
  [f"{FP}/arith/add.rs", f"{FP}/arith/sub.rs", f"{FP}/arith/mul.rs", f"{FP}/arith/div.rs", f"{FP}/funcs/ln.rs", f"{FP}/funcs/pow.rs"],
  [("alignment shift and carry", f"{FP}/arith/add.rs"), ("64x64 partial products", f"{FP}/arith/mul.rs"), ("bisection for the quotient", f"{FP}/arith/div.rs")])

p("C31", "F192 ordering, rounding, sign operations, shifts and constants are exact",
  "Comparison of F192 values is the exact total order of the represented numbers and agrees with equality and hashing. Floor, ceiling, truncation, rounding (half away from zero), fractional part, integrality, negation, absolute value, shifts by powers of two and the next-value step return exactly the represented values, and every named constant equals its mathematical value to 126 bits.",
  ["inputs"], "all F192 (checked: binary exponents -300..300, sampled to 2^46, and shifts up to 2^40), all named constants",
  "The tests round twenty decimals and never compare two non-integers.",
  [f"{FP}/comp.rs", f"{FP}/funcs.rs", f"{FP}/consts.rs", f"{FP}.rs"],
  [("sign-aware comparison of exponent then digits", f"{FP}/comp.rs"), ("masking of fraction bits", f"{FP}/funcs.rs")])

p("C32", "F192 text and 13-character codes round trip within their precision",
  "Parsing any decimal literal (underscores, fraction, exponent) yields its value within 2^-108, and a prefixed integer with its sign; malformed strings are refused without panicking. Rendering shows the value within 1.05e-18 relative (1e-20 absolute in plain form below one) at any exponent, without superfluous zeros, and parsing it back lands within the same distance; short literals are shown as exactly the number they denote. A value's 13-character code uses only letters and digits, decodes within 2^-63, re-encodes to itself, is refused when too large and zero when too small; malformed codes are refused.",
  ["inputs"], "all strings, all F192 (checked: exponents up to 2^46 for rendering), all codes of 0..14 characters",
  "The tests hold a few dozen literals and codes.",
  [f"{FP}/convert/string.rs"],
  [("literal state machine and 39-digit accumulation", f"{FP}/convert/string.rs: from_str"), ("scaling by powers of ten", f"{FP}/convert/string.rs: to_approx_string"), ("base-62 code", f"{FP}/convert/string.rs: into_code13, from_code13")])

p("C33", "F192 roots, logarithms and powers meet their error bounds over the whole domain",
  "The square of a square root is within 2^-119 of its argument (negative arguments give zero); binary and natural logarithms err by at most 2^-114 + 2^-120|result| and the integer logarithm is the exact floor; integer powers err by (|n|+2)*2^-121 relative for every exponent including the extremes; 2^x errs by 2^-60 relative (2^-120 for integers) and x^y by 2^-58. Logarithms and real powers of non-positive numbers panic.",
  ["inputs"], "all F192 in the domain (checked: binary exponents -300..300, sampled to 2^46; integer powers -200..200, to 2^45 for powers of two and numbers near one, and the extremes of i64 for units; pow2 of integers up to 2^40)",
  "The tests compare a few printed digits of a few arguments.",
  [f"{FP}/funcs/sqrt.rs", f"{FP}/funcs/ln.rs", f"{FP}/funcs/pow.rs"],
  [("Newton iteration from an integer root", f"{FP}/funcs/sqrt.rs"), ("repeated 256th powers", f"{FP}/funcs/ln.rs: log2_iter"), ("series for 2^fraction", f"{FP}/funcs/pow.rs: pow2")])

p("C34", "F192 trigonometric functions and inverses meet their error bounds",
  "Sine and cosine err by at most 2^-70 + |x|*2^-118 for every angle (2^-69 relative sine for |x| < 0.7), are odd and even respectively, and the tangent is their quotient to the same accuracy; arcsine and arctangent err by at most 2^-57 relative and arccosine by 2^-57 over the whole domain, the arctangent of every real included, and are odd. Arcsine and arccosine outside [-1, 1] panic.",
  ["inputs"], "all angles (checked up to 2^112, every octant and next to multiples of pi/4), all arguments of the inverse functions including 1, -1 and the neighbourhood of 1/sqrt 2",
  "The tests sample 120 angles; the inverse functions have no passing test.",
  [f"{FP}/funcs/trigo.rs", f"{FP}/funcs/atrigo.rs"],
  [("reduction by full turns, then octants", f"{FP}/funcs/trigo.rs"), ("series below 1/sqrt 2, identities above", f"{FP}/funcs/atrigo.rs")])

p("C35", "Random integers, rationals and matrices stay in their documented ranges",
  "A random unsigned integer of scale s lies between 1 and 2^(32s) exclusive (0 for scale 0), a random signed one likewise in magnitude with both signs occurring, a random rational lies strictly between 0 and 1 in lowest terms, and a random matrix has the requested number of columns and rows with such entries. All are in canonical form and successive draws differ.",
  ["inputs"], "all scales and shapes (checked scale 0..40, shapes up to 6x6) and all outcomes of the random source (sampled)",
  "Each draw is one sample; no test checks the range.",
  [f"{UB}/funcs.rs", f"{BI}/funcs.rs", f"{RA}/funcs.rs", "src/matrix.rs"],
  [("independent limbs of at least one", f"{UB}/funcs.rs: random"), ("denominator 2^128", f"{RA}/funcs.rs: random")])

#MORE

TECH = "property-based testing: generated inputs against exact reference arithmetic (choice-tape engine with shrinking)"
NOTE = "Random and enumerated cases against an independent exact oracle written in the harness (schoolbook big integers, rationals and fixed-point reals, themselves validated against Python/mpmath); holds on everything generated, not a proof. A crash or hang of the code under test is attributed to its case and reported."
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))) + "\n")
        for x in q["files"]:
            assert os.path.exists("/repo/" + x), x
man = dict(version=1, setup_cmd="./run.sh build", checks=[
    dict(property=q["id"], quick_cmd=f"./run.sh {q['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {q['id']}",
         evidence_file=f"evidence/{q['id']}.json", technique=q["technique"] or TECH, level="exploration", level_note=q["note"] or NOTE) for q in P],
    not_applicable=[], notes="No hooks: the harness uses the public API only. Repairs of genuine defects are listed in known_findings.txt.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
