"""The public pairing functions."""
from vc.engine import Ob, TU, Wide
from .pairing_common import CURVES
ASSUMPTIONS = ['the composition is proved over a mock policy whose operations are different polynomials (the functions are templates over the policy); bilinearity of the shipped curves follows '
               'from C14, C15 and C16 by the theory of the Tate pairing and is seen natively only']

_tu = []


def tu():
    if not _tu:
        _tu.append(TU('pairif.cpp', [], name='pairif'))
    return _tu[0]


def pre1(c, x):
    return x * x + c.const(3) * x


def pre2(c, x):
    return x * x * x + c.const(5)


def ml(c, a, b):
    return a * b * b + c.const(7)


def dml(c, x, y, z, t):
    return ml(c, x, y) * ml(c, z, t)


def fe(c, f):
    return f * f * f * f * f


FNS = {'pair': lambda c, x, y, z, t: ml(c, pre1(c, x), pre2(c, y)),
       'pair_reduced': lambda c, x, y, z, t: fe(c, ml(c, pre1(c, x), pre2(c, y))),
       'miller_loop': lambda c, x, y, z, t: ml(c, x, y),
       'double_miller_loop': dml,
       'final_exponentiation': lambda c, x, y, z, t: fe(c, x),
       'precompute_g1': lambda c, x, y, z, t: pre1(c, x),
       'precompute_g2': lambda c, x, y, z, t: pre2(c, y)}


def compose(nm, suffix):
    def f(c):
        v = [c.var(n) for n in 'abcd']
        k = c.choose(4)
        for i in (0, 1):
            if k >> i & 1 and nm.startswith('pair'):
                v[i] = c.const(0)
        o, _ = c.call('h_' + nm + suffix, v, nout=1)
        if nm.startswith('pair') and (c.is_zero(v[0]) or c.is_zero(v[1])):
            c.require('pairing with the neutral element', o[0] - c.const(1))
        else:
            c.require('value', o[0] - FNS[nm](c, *v))
    return f


def size1(cv):
    return {'jac': 2, 'bn': 2, 'mnt': 2 + 2 * cv.e, 'ed': 3}[cv.form]


def size2(cv, n, m):
    return {'jac': (2 + 3 * n) * cv.e, 'bn': (2 + 3 * n) * cv.e, 'mnt': (5 + 4 * n + 2 * m) * cv.e, 'ed': 3 * n * cv.e}[cv.form]


def differ(c, n, e):
    """two lists of n values: any two, or the same with at most one of them changed (the others zero or not), or with a pair of elements of degree e scaled"""
    a = [c.var('a%d' % i) for i in range(n)]
    mode = 0 if hasattr(c, 'chooser') else c.choose(5)     # any two lists are all cases; the other modes aim the native runs
    if mode == 0:
        return a, [c.var('b%d' % i) for i in range(n)]
    if mode == 1:
        a = [c.const(0)] * n
    if mode == 2:
        k = c.choose(n)
        a[k // e * e:(k // e + 1) * e] = [c.const(0)] * len(a[k // e * e:(k // e + 1) * e])
    b = list(a)
    w = c.choose(n + 1)
    if w < n:
        if mode == 3:
            b[w // e * e:(w // e + 2) * e] = [c.const(2) * x for x in b[w // e * e:(w // e + 2) * e]]
        else:
            d = c.var('d')
            c.assume_nonzero(d)
            b[w] = b[w] + d
    return a, b


def same(c, a, b):
    return all(c.is_zero(x - y) for x, y in zip(a, b))


def eq1(cv):
    def f(c):
        a, b = differ(c, size1(cv), cv.e)
        _, io = c.call('h_eq1', a + b, niout=1)
        c.require_true('equal exactly when all components are', io[0] == int(same(c, a, b)))
    return f


def eq2(cv):
    def f(c):
        k = c.choose(5)
        if k < 3:
            nm = [(1, 1), (2, 1), (2, 3)][k]
            a, b = differ(c, size2(cv, *nm), cv.e)
            _, io = c.call('h_eq2', a + b, list(nm) * 2, niout=1)
            c.require_true('equal exactly when all components are', io[0] == int(same(c, a, b)))
            return
        # one is a prefix of the other
        s, t = ((1, 2), (2, 2)) if k == 3 or cv.form != 'mnt' else ((2, 1), (2, 2))
        va, vb = [c.var('a%d' % i) for i in range(size2(cv, *s))], [c.var('b%d' % i) for i in range(size2(cv, *t))]
        if cv.form in ('ed', 'jac'):
            vb[:len(va)] = va
        else:
            vb = [c.const(1)] * len(vb)
            va = [c.const(1)] * len(va)
        _, io = c.call('h_eq2', va + vb, [s[0], s[1], t[0], t[1]], niout=1)
        c.require_true('different numbers of coefficients', io[0] == 0)
    return f


def bilinear(cv):
    """native: scalars a, b; e(aP, bQ) = e(P, Q)^(ab) is no trivial value"""
    def f(c):
        a, b = c.cv(c.var('a')) % cv.r, c.cv(c.var('b')) % cv.r
        if c.choose(2):
            a, b = a % 1000 + 1, b % 1000 + 1
        k = c.choose(4)
        a, b = a * (k != 0), b * (k != 1)
        T = cv.gt
        o, _ = c.call('h_bil', [Wide(a, (cv.r.bit_length() + 63) // 64), Wide(b, (cv.r.bit_length() + 63) // 64)], nout=5 * cv.k)
        g = [T.unflat(o[i * cv.k:(i + 1) * cv.k]) for i in range(5)]
        c.require_true('not degenerate', g[0] != T.one)
        c.require_true('of order r', T.pow(g[0], cv.r) == T.one)
        for i, w, nm in ((1, a * b, 'bilinear'), (2, a, 'linear in the first point'), (3, b, 'linear in the second point'), (4, 1 + a * b, 'double Miller loop')):
            if not b and i in (3, 4):
                continue        # the precomputation needs a finite second point
            c.require_true(nm, g[i] == T.pow(g[0], w % cv.r))
    return f


def obligations(tier):
    L = []
    for nm in FNS:
        for suffix in ('', '_default'):
            L.append(Ob(nm + (' with the policy of the curve' if suffix else ''), tu(), compose(nm, suffix)))
    for cv in CURVES:
        if cv.form == 'bn':
            continue
        L.append(Ob(cv.name + ': equality of precomputed first points', cv.tu('EQ'), eq1(cv), nl=cv.nl, prime=cv.p, trials=60))
        L.append(Ob(cv.name + ': equality of precomputed second points', cv.tu('EQ'), eq2(cv), nl=cv.nl, prime=cv.p, trials=60, bounded='up to 3 coefficients'))
        L.append(Ob(cv.name + ': the reduced pairing is bilinear', cv.tu('BIL'), bilinear(cv), nl=cv.nl, prime=cv.p, symbolic=False, bounded='native evaluations', elout=False,
                    trials=2 if tier == 'quick' else 30))
    return L
