#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'include/nil/crypto3/algebra/'
FE = A + 'fields/detail/element/'
CD = A + 'curves/detail/'
FO = CD + 'forms/'
TESTS = 'The stable tests are static_asserts on small double matrices and vectors; '
P = []


def prop(id, title, statement, text, files, mech, why, over=('inputs',), note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, files=[f for f in files], mech=mech, why=why, note=note))


prop('C01', 'Field and extension arithmetic follow the ring laws',
     'Addition, subtraction, negation, doubling, squaring, multiplication, scaling by subfield elements, equality and the zero/one constants of the prime field and of every extension tower compute exactly the operations of the quotient ring that the tower describes. This holds for every operand, including aliased operands and zero coordinates, and for every non-residue.',
     'all operands, all moduli (as identities over Z) and all tower constants', [FE + f for f in ('fp.hpp', 'fp2.hpp', 'fp3.hpp', 'fp4.hpp', 'fp6_2over3.hpp', 'fp6_3over2.hpp', 'fp12_2over3over2.hpp')],
     [('operators of the element classes', FE)], TESTS + 'no field test builds here, and a test would sample a few operands of one field.')
prop('C02', 'Inverses of field elements are inverses',
     'The inverse of every invertible element of the prime field and of each extension multiplies with it to one. The unitary inverse times the element is its relative norm, so it is the inverse on the norm-one subgroup.',
     'all elements with non-zero norm', [FE + f for f in ('fp.hpp', 'fp2.hpp', 'fp3.hpp', 'fp4.hpp', 'fp6_2over3.hpp', 'fp6_3over2.hpp', 'fp12_2over3over2.hpp')],
     [('inversion formulas', FE)], TESTS + 'inversion is not exercised at all.')
prop('C03', 'Frobenius maps and cyclotomic squaring are the powers they stand for',
     'The Frobenius map with index i sends every element to its p^i-th power in every extension field the library defines. Cyclotomic squaring equals squaring on the cyclotomic subgroup.',
     'all elements, all Frobenius indices up to twice the degree, all elements of the cyclotomic subgroup', [FE, A + 'fields/detail/extension_params/'],
     [('coefficient tables and coordinate maps', A + 'fields/detail/extension_params/')], TESTS + 'a wrong table entry shows only for one index of one field.', over=('inputs', 'configurations'))
prop('C04', 'Exponentiation computes powers for every exponent',
     'Raising a field element to a non-negative integer yields the product of that many copies of it, for every exponent including zero, in the prime field and in all extensions. Cyclotomic exponentiation gives the same result on the cyclotomic subgroup.',
     'all bases and all exponents', [A + 'fields/detail/exponentiation.hpp', FE], [('square-and-multiply loops', A + 'fields/detail/exponentiation.hpp')],
     TESTS + 'exponents are unbounded.')
prop('C05', 'Sparse products equal full products',
     'Multiplying an extension element by a sparse operand through the special-purpose products gives the same result as the full multiplication by that operand.',
     'all operands of the documented shape', [FE + f for f in ('fp12_2over3over2.hpp', 'fp4.hpp', 'fp6_2over3.hpp')], [('sparse multiplication formulas', FE)],
     TESTS + 'the sparse products are only used deep inside the pairing.')
prop('C06', 'Square tests and square roots agree with the field',
     'The square test answers yes exactly for squares (zero included) and a square root of a square multiplies with itself to the argument, in the prime field and in the quadratic and cubic extensions.',
     'all elements', [FE + f for f in ('fp.hpp', 'fp2.hpp', 'fp3.hpp')], [('Euler criterion and Tonelli-Shanks', FE)], TESTS + 'roots depend on the 2-adic structure of each field.')
prop('C07', 'Field constants are the ones their definitions demand',
     'Every shipped field has a prime modulus of the declared size; its group order, two-adic decomposition, generators, roots of unity, non-residues and Montgomery constants satisfy their defining equations. Every extension is defined by an irreducible polynomial and carries complete, correct Frobenius tables.',
     'every field the library ships', [A + 'fields/'], [('constant tables', A + 'fields/')], TESTS + 'constants are only ever transcribed; a wrong digit compiles.', over=('configurations',))
prop('C08', 'Short Weierstrass addition, doubling and negation are the group law',
     'In every coordinate system, adding, mixed-adding, doubling, subtracting and negating points of a short Weierstrass curve yields a representative of the chord-and-tangent result. This includes the point at infinity, equal points, opposite points, points of order two and rescaled representatives.',
     'all points and representatives, all curve coefficients', [FO + 'short_weierstrass/'], [('point operation formulas and their case distinctions', FO + 'short_weierstrass/')],
     TESTS + 'no curve test builds; exceptional cases are easily missed by samples.')
prop('C09', 'Edwards and twisted Edwards operations are the group law',
     'In every coordinate system, adding, mixed-adding, doubling, subtracting and negating points of an Edwards or twisted Edwards curve yields a representative of the Edwards addition, for the neutral element, equal, opposite and rescaled operands alike.',
     'all points with non-vanishing denominators (complete curves), all coefficients', [FO + 'edwards/', FO + 'twisted_edwards/'],
     [('point operation formulas', FO + 'twisted_edwards/')], TESTS + 'no curve test builds.')
prop('C10', 'Montgomery arithmetic and conversions between forms are group-compatible',
     'Montgomery point operations follow the group law; conversions between coordinate systems and between birationally equivalent forms map points to the same point of the target and take the neutral element to the neutral element.',
     'all points and representatives', [FO], [('to_affine, to_projective, to_twisted_edwards, to_montgomery, to_short_weierstrass and similar', FO)], TESTS + 'conversions are not covered.')
prop('C11', 'Curve membership, equality and zero tests are exact',
     'A point is reported well formed exactly when its coordinates satisfy the curve equation or represent the neutral element, two points compare equal exactly when they represent the same group element, and the zero test accepts exactly the neutral element.',
     'all coordinate vectors', [FO], [('is_well_formed, operator==, is_zero', FO)], TESTS + 'negative cases are unbounded.')
prop('C12', 'Scalar multiplication is repeated addition for every scalar',
     'Multiplying a point by an integer or a scalar field element yields the sum of that many copies of the point, for zero, one and any other scalar.',
     'all points, all scalars', [CD + 'scalar_mul.hpp', CD], [('double-and-add loop', CD + 'scalar_mul.hpp')], TESTS + 'the scalar is unbounded.')
prop('C13', 'Curve constants describe the curves they name',
     'Every generator lies on its curve and has the declared prime order, cofactors match, coefficients are non-singular and match across equivalent forms, and twist coefficients agree with the extension.',
     'every curve the library ships', [CD, A + 'curves/params/'], [('constant tables', CD)], TESTS + 'constants are only transcribed.', over=('configurations',))
prop('C14', 'Miller loop steps and precomputations evaluate the right line functions',
     'Each doubling and addition step of the pairing precomputations moves the running point by the group law and stores the coefficients of the tangent or chord through the points; the loops consume exactly the precomputed coefficients in order.',
     'all points', [A + 'pairing/'], [('precompute and Miller loops', A + 'pairing/')], TESTS + 'pairings are not built here.')
prop('C15', 'Final exponentiation raises to the full exponent',
     'The final exponentiation raises every non-zero extension field element to a fixed multiple, prime to the group order, of (p^k-1)/r.',
     'all non-zero elements', [A + 'pairing/'], [('addition chains', A + 'pairing/')], TESTS + 'pairings are not built here.')
prop('C16', 'Pairing policies carry consistent curve-family constants',
     'Loop counts, twist types, final exponent digits and twist coefficients of every pairing policy agree with the curve family they serve.',
     'every shipped pairing policy', [A + 'pairing/'], [('policy constants', A + 'pairing/')], TESTS + 'constants are only transcribed.', over=('configurations',))
prop('C17', 'Multi-exponentiation equals the sum of the individual products',
     'Every multi-exponentiation policy returns the sum of scalar times base over its inputs, for any number of terms, zero and one scalars, repeated or zero bases and any chunking.',
     'all inputs of every length', [A + 'multiexp/'], [('bucket methods', A + 'multiexp/')], TESTS + 'multiexp tests are not built here.')
prop('C18', 'Windowed and wNAF exponentiation agree with plain exponentiation',
     'Fixed-base window tables and signed-window exponentiation give the scalar multiple for every scalar and window size.',
     'all scalars and window sizes', [A + 'multiexp/multiexp.hpp', A + 'wnaf.hpp'], [('window tables', A + 'multiexp/multiexp.hpp')], TESTS + 'scalars and window sizes are unbounded.')
prop('C19', 'Point serialization round-trips and follows the wire format',
     'Encoding a point and decoding the octets yields the same point in compressed and uncompressed form, with the documented flag bits and byte order; malformed encodings (wrong flags, coordinates not below the modulus, octets of the infinity encoding that are not zero, points that are not on the curve) are rejected by an assertion where assertions are on.',
     'all points and octet strings', [A + 'curves/detail/marshalling.hpp', A + 'marshalling.hpp'], [('octet codecs', A + 'marshalling.hpp')], TESTS + 'marshalling tests are not built.')
prop('C20', 'Field element serialization round-trips',
     'Converting a field element to octets and back yields the same element for every field degree and byte order, using exactly the documented number of octets.',
     'all elements', [A + 'marshalling.hpp'], [('bincode codecs', A + 'marshalling.hpp')], TESTS + 'marshalling tests are not built.')
prop('C21', 'Hash-to-curve maps land on the curve deterministically',
     'The simplified map to the curve, the isogeny and the sign convention follow the standard: every field element is mapped to a point of the right curve, with the sign of the second coordinate tied to that of the input. Inputs in the kernel of the isogeny go to the point at infinity. (BLS12-381 G1 and G2; the standard is RFC 9380.)',
     'all field elements', [CD + 'h2c/'], [('map-to-curve and isogeny', CD + 'h2c/')], TESTS + 'hash-to-curve tests are not built.')
prop('C22', 'Vector algebra obeys its definitions',
     'Element-wise arithmetic, scaling, dot and cross products, sums, norms, products and comparisons of vectors equal their mathematical definitions for all entries, and generic application visits every entry exactly once.',
     'all entries, dimensions 1 to 4', [A + 'vector/'], [('element-wise templates', A + 'vector/')], 'The stable vector test evaluates one or two fixed integer vectors per function.', over=('inputs', 'configurations'))
prop('C23', 'Matrix algebra obeys its definitions',
     'Element-wise arithmetic, scaling, matrix-matrix and matrix-vector products, Kronecker products, transposes, conjugates, trace and reductions equal their mathematical definitions for all entries and shapes.',
     'all entries, shapes up to 4x4', [A + 'matrix/'], [('loops over the entries', A + 'matrix/')], 'The stable matrix test evaluates a few fixed matrices, mostly square ones.', over=('inputs', 'configurations'))
prop('C24', 'Row reduction, rank, determinant and inverse are correct',
     'Row reduction yields the unique reduced echelon form of the input, the rank is the number of its non-zero rows, the determinant is the alternating multilinear form and the inverse of an invertible matrix multiplies with it to the identity.',
     'all matrices over exact reals of shapes up to 3x4, including singular ones', [A + 'matrix/math.hpp'], [('Gauss-Jordan elimination', A + 'matrix/math.hpp')],
     'The stable matrix test reduces one or two fixed matrices.', over=('inputs', 'configurations'))
prop('C25', 'Reshaping and indexing utilities preserve entries',
     'Slicing, concatenation, submatrices, row and column access and exchange, repetition, fill, identity and generation place every entry where their definition says, for every shape and offset.',
     'all entries, shapes up to 4x4, all offsets', [A + 'matrix/utility.hpp', A + 'vector/utility.hpp'], [('index arithmetic', A + 'matrix/utility.hpp')], 'The stable tests check one shape per function.', over=('inputs', 'configurations'))
prop('C26', 'Scalar mathematics returns the value of its definition',
     'Integer powers (for every int exponent), absolute values and moduli, conjugates, square roots and n-th roots of the scalar module return the value of their definition for every argument of their domain, and terminate.',
     'all arguments', [A + 'scalar/math.hpp'], [('iterations', A + 'scalar/math.hpp')], 'The stable tests use a handful of arguments.')

prop('C27', 'The public pairing functions compute a bilinear pairing',
     'pair, pair_reduced, precompute_g1, precompute_g2, miller_loop, double_miller_loop and final_exponentiation combine the operations of the pairing policy of the curve: pair is the Miller loop over both precomputed points, pair_reduced its final exponentiation, the double loop gets both pairs in order. Precomputed points compare equal exactly when all their components are. On the curves whose policy can be instantiated the reduced pairing is bilinear, not degenerate, and one if either point is the neutral element.',
     'all points', [A + 'algorithms/pair.hpp', A + 'pairing/'], [('public pairing functions', A + 'algorithms/pair.hpp')], TESTS + 'pairings are not built here.')
prop('C28', 'The exclusive or of sequences is taken element by element',
     'strxor of two sequences of equal length writes the exclusive or of corresponding elements to the output in order and nothing behind it, for ranges and for iterators of any kind, in place as well; the form over iterators returns the end of what it wrote.',
     'all elements and lengths', [A + 'algorithms/strxor.hpp'], [('strxor', A + 'algorithms/strxor.hpp')], TESTS + 'strxor is not tested.')
prop('C29', 'Random elements are drawn uniformly and independently',
     'random_element draws every coordinate over the prime field independently and exactly once, from the integers 0 to p - 1 of the distribution, and returns the element with these coordinates; a random element of a group is the generator times a scalar drawn from 0 to r - 1.',
     'all fields, towers and groups, all draws', [A + 'random_element.hpp'], [('random_element', A + 'random_element.hpp')], TESTS + 'A test sees some samples; bias of one value in p cannot be seen in samples.')
NOTE = ('Deductive: the compiled code of the current tree is executed symbolically, path by path, and each postcondition is discharged as a polynomial identity under '
        'the path facts for all inputs; contracts of the absent multiprecision library are assumed (exact residues and integers). ')
EXTRA = {}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in P:
        mod = os.path.join(V, 'props', p['id'] + '.py')
        if os.path.exists(mod):
            checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                           'technique': 'contracts on the real code, deductive verification by symbolic execution of its LLVM bitcode' + EXTRA.get(p['id'], ''), 'level': 'proof',
                           'level_note': NOTE + (p['note'] or '')})
        else:
            na.append({'property': p['id'], 'reason': NA.get(p['id'], 'contracts for it are not finished')})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
               'hooks': {'guard': 'CRYPTO3_ALGEBRA_LOOP_CONTRACT', 'enable': 'harness/loopcontracts.hpp, included before the library, defines the macro (a call of an empty function, read by the verifier)',
                         'source_commits': subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^Loop contract'], capture_output=True, text=True).stdout.split()},
               'notes': 'known_findings.json lists defects that are recorded or fixed.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


NA = {}
if __name__ == '__main__':
    main()
