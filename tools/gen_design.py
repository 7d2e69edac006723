import json
G={
'C01':('limb vectors of 0..300 limbs (rarely up to 1000) built from patterns (random, all-ones, sparse, runs, powers of two +-1, shared prefixes); words from the edge set; sizes above 64 limbs on both sides for the Karatsuba branch','Nat arithmetic; pure vs in-place; operands unchanged; canonical form','33 s'),
'C02':('dividends built as q*d+r with r in {0,1,d-1,random}, divisors with extreme leading limbs (1, 2^31, all ones), operands that agree in leading limbs, plus independent random pairs up to 300 limbs (rarely 600)','the unique (q, r) by Knuth D in Nat, cross-checked by q*d+r=a, r<d; division by zero must panic','20 s'),
'C03':('signed pairs as above with equal and opposite magnitudes; all i32 edge words; exhaustive grid -30..30 squared','Int arithmetic with truncation','23 s'),
'C04':('stateful: 4..40 random operations (pure, in-place, word, conversions, clones) over 8 registers','a model machine on Int executes the same history; after every step every register is compared for value, canonical form, equality, order and hash','22 s'),
'C05':('pairs biased to be equal, to differ in one limb, in length or in sign only; lists to sort','comparison of Int; Hash equality for equal values','10 s'),
'C06':('integers up to 60 limbs (rarely 300) incl. powers of 10/8/16 +-1; literals from the grammar with underscores and prefixes; mutated literals and arbitrary Unicode strings','own renderer/parser of the documented grammar; round trip; scientific notation = truncated leading digits','44 s'),
'C07':('every bound of the 12 primitive types +-3, random values, big integers around each bound','i128/u128 and Int ranges; success iff in range','21 s'),
'C08':('perfect squares +-1, random, words near 2^64, up to 120 limbs; gcd of built multiples','s*s<=n<(s+1)^2; Euclid on Nat','14 s'),
'C09':('all n < 20 000 exhaustively; products of known primes, prime squares, Carmichael numbers, semiprimes; 8 slow cases with prime factors beyond 2^32','sieve / deterministic Miller-Rabin; product and primality of the factor list','123 s'),
'C10':('exhaustive n! for n<1200 and F(n) for n<4000; random larger n','running product / recurrence on Nat','2 s'),
'C11':('integers up to 40 limbs, powers of two +-1; scaled exponents','bit length; certified log2/exp2 enclosures','15 s'),
'C12':('shift counts 0..len+3, vectors with zero limbs at either end','base-2^32 digits of Nat','13 s'),
'C13':('rationals built from shared prime pools (so gcds are non-trivial), large co-prime parts, all word edges, exhaustive small grid','Rat arithmetic in lowest terms; division by zero must be refused','45 s'),
'C14':('stateful histories over rational registers','Rat model machine, as C04','21 s'),
'C15':('pairs that are equal, neighbours in the Stern-Brocot tree, or differ in the last limb; lists to sort','cross multiplication on Int','21 s'),
'C16':('integers +- ties +- tiny offsets, exhaustive grid n/24','definitions of floor/ceil/trunc/round on Int','20 s'),
'C17':('literals from the grammar (fractions, exponents to 3000, prefixes, underscores), mutated and arbitrary strings','own parser to Rat','23 s'),
'C18':('values over 10^-9990..10^9990, decimals with exact expansion, runs of 9s, negative values, all lengths 0..40; powers of ten and neighbours beyond 10^+-9990','digits by exact division on Nat; length rule','35 s'),
'C19':('all exponent classes of f32/f64, subnormals, extremes; rationals at midpoints of adjacent floats +- tiny offsets; big integers','bit-exact decoding; nearest-float by exact comparison with both neighbours','39 s'),
'C20':('rationals of 1..40 limbs per part, balanced and lopsided, limits 0..12','Rat distance, limb count, lowest terms','17 s'),
'C21':('every iteration count up to 255/200/400','certified enclosures','16 s'),
'C22':('arguments near 0, 1, powers of two, large/small magnitude; iteration counts 0..8 (0..24 thorough), and separate generators with 20..250 iterations on small arguments','certified enclosures with the error bound of the statement','63 s'),
'C23':('angles at multiples of pi/4 +- tiny, angles up to 2^60 with enough iterations for a meaningful bound, rationals in [-1,1] incl. ends; counts 0..6','as C22','104 s'),
'C24':('shapes 0..6 x 0..6 (all 1296 shape pairs exhaustively), entries with shared factors; in-place histories','naive linear algebra on Rat','19 s'),
'C25':('sizes 1..8 incl. rank-deficient, permutation, triangular, Vandermonde; exhaustive 2x2 and 3x3 grids','Bareiss elimination on Rat; A*inv = I; multiplicativity, transpose','30 s'),
'C26':('coefficient lists with leading/inner zeros and unit coefficients; histories; exhaustive small texts','Horner on Rat, own renderer','43 s'),
'C27':('distinct abscissas in any order, derivative data, duplicates','evaluate back; Lagrange on Rat','24 s'),
'C28':('parts of every accepted source type','componentwise Rat','17 s'),
'C29':('all integer widths and bounds, all float classes, midpoints, random F192 over exponents to 2^46, rationals of thousands of bits','exact value of an F192 through its rational (itself checked against integers and floats)','27 s'),
'C30':('F192 with patterned mantissas, exponent differences 0..130 and far, near-cancelling pairs, extreme exponents (wide)','Rat with the stated relative bounds','33 s'),
'C31':('pairs differing in sign/exponent/last bit; values around integers and halves; every named constant; exponents to 2^46','Rat order and rounding; certified constants','19 s'),
'C32':('literals, mutated literals, values at every exponent; 13-character codes, values at the wrap of the code and at its exponent limits, arbitrary strings','own parser to Rat with relative bound; code alphabet and idempotence','24 s'),
'C33':('squares, powers of two +- ulp, exponents to the range ends, integer exponents incl. i64 extremes','certified enclosures','38 s'),
'C34':('angles near multiples of pi/4, large angles (to 2^112), [-1,1] incl. neighbourhoods of the ends','certified enclosures','31 s'),
'C35':('scales/shapes 0..40; repeated draws','range, canonical form, both signs, variety','2 s'),
}
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=open('/verif/tools/design_head.md').read()
out+='| id | property | generated | oracle | quick cost |\n|---|---|---|---|---|\n'
for p in P:
    g=G.get(p['id'])
    out+=f"| {p['id']} | {p['title']} | {g[0]} | {g[1]} | ~{g[2]} |\n"
out+=open('/verif/tools/design_tail.md').read()
import glob,os
out+='\n| planted bug | caught by | what it breaks |\n|---|---|---|\n'
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d))
    out+=f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} |\n"
out+='\n'+open('/verif/tools/design_end.md').read()
open('/verif/DESIGN.md','w').write(out)
