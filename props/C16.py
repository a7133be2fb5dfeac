"""Pairing parameters: ground obligations over the values the compiler produces from the current source."""
from vc.engine import Ob
from .pairing_common import CURVES
from .paramspec import Tower

ASSUMPTIONS = ['constants are read from the compiled code of the current tree; moduli, non-residues and group parameters themselves are the subject of C07 and C13']
ITEMS = ('integral_type_max_bits ate_loop_count ate_is_loop_count_neg final_exponent final_exponent_z final_exponent_is_z_neg final_exponent_last_chunk_abs_of_w0 '
         'final_exponent_last_chunk_is_w0_neg final_exponent_last_chunk_w1 twist twist_coeff_a twist_coeff_b a b d modulus').split()
MAXV = 40


def dump(c, fn, items=ITEMS):
    o, io = c.call(fn, [], [], nout=MAXV * len(items), niout=len(items), partial=True)
    return {it: o[k * MAXV:k * MAXV + io[k]] for k, it in enumerate(items) if io[k]}


def params(cv):
    k = cv.k

    def fn(c):
        req = c.require_true
        P, G1, G2, B, S = [dump(c, f) for f in ('h_pp', 'h_p1', 'h_p2', 'h_base', 'h_scalar')]
        p, r = B['modulus'][0], S['modulus'][0]
        T = cv.g2
        m = T.mul

        def one(n, d=None):
            return P[n][0] if n in P else d

        def el(D, n):
            return T.unflat([x % p for x in D[n]])
        loop, neg = one('ate_loop_count'), one('ate_is_loop_count_neg', 0)
        s = -loop if neg else loop
        req('the loop bound covers the loop count', loop.bit_length() <= one('integral_type_max_bits') and loop > 1)
        t = p + 1 - r * ((p + 1 + r // 2) // r) if cv.form != 'ed' else p + 1 - 4 * r
        if cv.name.startswith('bls12'):
            z = s
            req('the loop count is the family parameter: r = z^4 - z^2 + 1', r == z ** 4 - z ** 2 + 1)
            req('the loop count is the family parameter: p = (z-1)^2 r / 3 + z', 3 * p == (z - 1) ** 2 * r + 3 * z)
            zz = one('final_exponent_z')
            req('the final exponent parameter is the family parameter', (-zz if one('final_exponent_is_z_neg') else zz) == z)
        elif cv.form == 'bn':
            z = one('final_exponent_z')
            z = -z if one('final_exponent_is_z_neg', 0) else z
            req('the final exponent parameter is the family parameter', p == 36 * z ** 4 + 36 * z ** 3 + 24 * z ** 2 + 6 * z + 1 and r == 36 * z ** 4 + 36 * z ** 3 + 18 * z ** 2 + 6 * z + 1)
            req('the loop count is 6z + 2', s == 6 * z + 2)
        else:
            req('the loop count is the trace minus one', loop == abs(t - 1))
            if 'ate_is_loop_count_neg' in P:
                req('the sign of the loop count is that of the trace minus one', bool(neg) == (t - 1 < 0))
            w1, w0 = one('final_exponent_last_chunk_w1'), one('final_exponent_last_chunk_abs_of_w0')
            w0 = -w0 if one('final_exponent_last_chunk_is_w0_neg') else w0
            phi = p * p + 1 if k == 4 else p * p - p + 1
            req('the digits give the last chunk of the exponent', w1 * p + w0 == phi // r and phi % r == 0)
        if 'final_exponent' in P:
            req('the final exponent is (p^k-1)/r', one('final_exponent') * r == p ** k - 1)
        tw = el(P, 'twist')
        if k == 12:
            xi = T.unflat([x % p for x in dump(c, 'h_xi', ['xi'])['xi']])
            req('the twist is the non-residue of the sextic extension', tw == xi)
        else:
            req('the twist is the generator of the extension', tw == T.gen())
        if 'twist_coeff_a' in P:
            req('the twisted a is that of the second group', el(P, 'twist_coeff_a') == el(G2, 'a'))
            req('the twisted a is the twist of the first', el(P, 'twist_coeff_a') == m(T.embed(G1['a'][0] % p), m(tw, tw)))
        if 'twist_coeff_b' in P:
            b = T.embed(G1['b'][0] % p)
            req('the twisted b is that of the second group', el(P, 'twist_coeff_b') == el(G2, 'b'))
            req('the twisted b is the twist of the first', el(P, 'twist_coeff_b') == (m(b, tw) if k == 12 else m(b, m(tw, m(tw, tw)))))
    return fn


def obligations(tier):
    return [Ob(cv.name + ': pairing parameters', cv.tu('PP'), params(cv), nl=72, elout=False, budget=80_000_000, trials=1, backend='ground evaluation') for cv in CURVES]
