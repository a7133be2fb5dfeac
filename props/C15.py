"""Final exponentiation: the exponent of the result, computed through the real addition chains."""
from math import gcd
from vc.engine import Ob, TU, Refuted
from vc.loops import GVal, GPart
from vc.poly import Infeasible
from vc import powdom
from .paramspec import tower
from .realfields import STD, NR
from .pairing_common import CURVES

ASSUMPTIONS = ['operations of the extension field classes by their contracts (C01 product, square; C02 inverse, conjugate; C03 Frobenius, cyclotomic square on the cyclotomic subgroup)',
               'loop counts and digits are the constants compiled into the current tree; find_wnaf, msb and bit_test by their assumed contracts']


def fe(cv):
    p, r, k = cv.p, cv.r, cv.k
    full, rem = divmod(p ** k - 1, r)
    assert rem == 0
    T = cv.gt
    z, q = 4965661367192848881, p
    # finding alt-bn128-final-exponent: the chain of the BLS12 family evaluated at the BN parameter
    known = (q ** 6 - 1) * (q * q + 1) * (z ** 5 - 2 * z ** 4 + 2 * z * z - z + 3 + (z ** 4 - 2 * z ** 3 + 2 * z - 1) * q + (z ** 3 - 2 * z * z + z) * q ** 2 +
                                          (z * z - 2 * z + 1) * q ** 3) % (p ** k - 1) if cv.form == 'bn' else None
    kmsg = 'the exponent is that of the BLS12 chain at the BN parameter, not a multiple of (p^k-1)/r'

    def fn(c):
        if not c.concrete:
            g = GVal({'a': 1})
            o, _ = c.call('h_fe', [GPart(g, i, k) for i in range(k)], nout=k)
            g = c.domain.glookup(o)
            if any(n != 'a' for n in g.c):
                raise Refuted('the result is a power of the argument', repr(g))
            e = g.c.get('a', 0)
            if e == known:
                raise Refuted(kmsg, None)
            c.require_true('the exponent is a multiple of (p^k-1)/r', e % full == 0)
            c.require_true('the multiple is prime to r', gcd(e // full, r) == 1)
            return
        if c.rng:
            # elements of subfields, elements with few coordinates
            n = [j for j in range(1, k) if k % j == 0]
            sel = c.rng.randrange(len(n) + 3)
            keep = range(n[sel]) if sel < len(n) else [i for i in range(k) if sel == len(n) or c.rng.random() < 0.4]
            for i in range(k):
                if i not in keep:
                    c.env.setdefault('a%d' % i, 0)
        a = [c.cv(c.var('a%d' % i)) for i in range(k)]
        b = [c.cv(c.var('b%d' % i)) for i in range(k)]
        if not any(a) or not any(b):
            raise Infeasible()
        A, B = T.unflat(a), T.unflat(b)
        o = []
        for x in (A, B, T.mul(A, B)):
            v, _ = c.call('h_fe', [c.const(y) for y in T.flat(x)], nout=k)
            o.append(T.unflat(v))
        eq = lambda n, x, y: c.require_eq(n, [c.const(v) for v in T.flat(x)], [c.const(v) for v in T.flat(y)])
        if known and o[0] == T.pow(A, known):
            raise Refuted(kmsg, 'the result to the power r is not one')
        eq('the exponent is a multiple of (p^k-1)/r: the result has order dividing r', T.pow(o[0], r), T.one)
        eq('the result is a power of the argument: multiplicative', o[2], T.mul(o[0], o[1]))
        if o[0] == T.one:
            eq('the multiple is prime to r: the result is one only for elements of the kernel', T.pow(A, full), T.one)
    return fn


def obligations(tier):
    L = []
    for cv in CURVES:
        L.append(Ob(cv.name + ': final exponentiation', cv.tu('FE'), fe(cv), nl=cv.nl, prime=cv.p, domain=powdom.make(cv.p, cv.k, cv.nl), hooks=powdom.hooks(cv.cls, cv.k, cv.p),
                    trials=12 if tier == 'quick' else 60, elout=False, backend='exponent arithmetic', timeout=300))
    return L
