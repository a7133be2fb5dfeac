"""Curve points as the contracts see them: None (neutral element) or an affine pair; and their representations."""
from vc.engine import TU, Ob
from vc.poly import Infeasible

SYM_A, SYM_B, SYM_D, SYM_MA, SYM_C, SYM_MB, SYM_GX, SYM_GY, SYM_ZF = 6, 7, 8, 9, 10, 11, 13, 14, 12
NAMES = ['short Weierstrass affine', 'short Weierstrass jacobian', 'short Weierstrass jacobian_with_a4_0', 'short Weierstrass jacobian_with_a4_minus_3',
         'short Weierstrass projective', 'short Weierstrass projective_with_a4_minus_3', 'twisted Edwards affine',
         'twisted Edwards extended_with_a_minus_1', 'twisted Edwards inverted', 'Montgomery affine', 'Edwards inverted']
KIND = ['aff', 'jac', 'jac', 'jac', 'proj', 'proj', 'twaff', 'ext', 'inv', 'mont', 'inv']
NC = {'aff': 2, 'jac': 3, 'proj': 3, 'twaff': 2, 'ext': 4, 'inv': 3, 'mont': 2}
_tus = {}


def tu(g):
    if g not in _tus:
        _tus[g] = TU('curves.cpp', ['-DGT=%d' % g], name='curve%d' % g)
    return _tus[g]


class Curve:
    """declares the symbolic curve constants and knows the mathematical group law"""

    def __init__(s, c, g):
        s.c = c
        s.g = g
        s.kind = KIND[g]
        s.nc = NC[s.kind]
        s.k = c.const
        if g in (0, 1, 4):
            s.a = c.var('a')
        elif g == 2:
            s.a = s.k(0)
        elif g in (3, 5):
            s.a = s.k(-3)
        elif g == 7:
            s.a = s.k(-1)
        elif g == 10:
            s.a = s.k(1)
        else:
            s.a = c.var('a')
        s.b = c.var('b') if g < 6 else s.k(0)
        s.cc = s.k(1)
        if g in (6, 7, 8, 10):
            s.d = c.var('d', 2)
            for e in (s.a, s.d, s.a - s.d):
                c.assume_nonzero(e)     # the curve is not singular
        else:
            s.d = s.k(0)
        if g == 9:
            s.A = c.var('A')
            s.B = c.var('B')
            c.assume_nonzero(s.B)
        else:
            s.A = s.B = s.k(0)
        s.zf = s.k(c.choose(2, 'second coordinate of zero_fill'))
        s.gx, s.gy = c.vars('gx gy')
        for i, v in ((SYM_A, s.a), (SYM_B, s.b), (SYM_D, s.d), (SYM_MA, s.A), (SYM_MB, s.B), (SYM_C, s.cc), (SYM_GX, s.gx), (SYM_GY, s.gy), (SYM_ZF, s.zf)):
            c.sym(i, v)
        s.edw = s.kind in ('twaff', 'ext', 'inv')

    # ---- representations -------------------------------------------------------------------
    def rep(s, P, n):
        c = s.c
        K = s.k
        if P is None:
            if s.kind == 'aff':
                return [K(0), s.zf]
            if s.kind == 'jac':
                x, y = c.var('zx' + n), c.var('zy' + n)
                return [x, y, K(0)]
            if s.kind == 'proj':
                y = c.var('zy' + n)
                return [K(0), y, K(0)]
            if s.kind == 'twaff':
                return [K(0), K(1)] if c.choose(2, 'neutral as (0,1) or zero_fill') == 0 else [K(0), s.zf]
            if s.kind == 'ext':
                z = c.var('zz' + n)
                c.assume_nonzero(z)
                return [K(0), z, K(0), z]
            if s.kind == 'inv':
                x = c.var('zx' + n)
                return [x, K(0), K(0)]
            if s.kind == 'mont':
                return [K(0), K(0)]
        x, y = P
        if s.kind in ('aff', 'twaff', 'mont'):
            return [x, y]
        if n == 'one':
            l = K(1)
        else:
            l = c.var('l' + n)
            c.assume_nonzero(l)
        if s.kind == 'jac':
            return [x * l * l, y * l * l * l, l]
        if s.kind == 'proj':
            return [x * l, y * l, l]
        if s.kind == 'ext':
            return [x * l, y * l, x * y * l, l]
        if s.kind == 'inv':
            if n == 'one':
                return [c.inv(x), c.inv(y), l]
            # (X:Y:Z) with x = Z/X, y = Z/Y
            return [y * l, x * l, x * y * l]

    def ints(s, *Ps):
        return [int(P is None) for P in Ps]

    def is_neutral_rep(s, X):
        """the coordinates denote the neutral element"""
        c = s.c
        if s.kind == 'aff':
            return c.is_zero(X[0]) and c.is_zero(X[1] - s.zf)
        if s.kind == 'jac':
            return c.is_zero(X[2])
        if s.kind == 'proj':
            return c.is_zero(X[0]) and c.is_zero(X[2])
        if s.kind == 'twaff':
            return c.is_zero(X[0]) and (c.is_zero(X[1] - s.k(1)) or c.is_zero(X[1] - s.zf))
        if s.kind == 'ext':
            return c.is_zero(X[0]) and c.is_zero(X[2]) and c.is_zero(X[1] - X[3])
        if s.kind == 'inv':
            return c.is_zero(X[1]) and c.is_zero(X[2])

    def check(s, name, X, flag, P):
        """X denotes the point P"""
        c = s.c
        if s.kind == 'mont':
            c.require_true(name + ': neutral flag', flag == int(P is None))
            if P is not None:
                c.require_eq(name, X, list(P))
            return
        if P is None:
            if s.kind == 'aff':
                c.require_eq(name + ' is the neutral element', X, [s.k(0), s.zf])
            elif s.kind == 'jac':
                c.require_eq(name + ' is the neutral element', [X[2]], [s.k(0)])
            elif s.kind == 'proj':
                c.require_eq(name + ' is the neutral element', [X[0], X[2]], [s.k(0)] * 2)
            elif s.kind == 'twaff':
                c.require_true(name + ' is the neutral element', s.is_neutral_rep(X))
            elif s.kind == 'ext':
                c.require_eq(name + ' is the neutral element', [X[0], X[2], X[1]], [s.k(0), s.k(0), X[3]])
                c.require_true(name + ': Z != 0', not c.is_zero(X[3]))
            elif s.kind == 'inv':
                c.require_eq(name + ' is the neutral element', [X[1], X[2]], [s.k(0)] * 2)
            return
        x, y = P
        if s.kind in ('aff', 'twaff'):
            c.require_eq(name, X, [x, y])
        elif s.kind == 'jac':
            c.require_true(name + ': Z != 0', not c.is_zero(X[2]))
            z2 = X[2] * X[2]
            c.require_eq(name, [X[0], X[1]], [x * z2, y * z2 * X[2]])
        elif s.kind == 'proj':
            c.require_true(name + ': Z != 0', not c.is_zero(X[2]))
            c.require_eq(name, [X[0], X[1]], [x * X[2], y * X[2]])
        elif s.kind == 'ext':
            c.require_true(name + ': Z != 0', not c.is_zero(X[3]))
            c.require_eq(name, [X[0], X[1], X[2]], [x * X[3], y * X[3], x * y * X[3]])
        elif s.kind == 'inv':
            c.require_true(name + ': Z != 0', not c.is_zero(X[2]))
            c.require_eq(name, [x * X[0], y * X[1]], [X[2], X[2]])

    # ---- points ------------------------------------------------------------------------------
    def on(s, P):
        x, y = P
        one = s.k(1)
        if s.g < 6:
            return y * y - x * x * x - s.a * x - s.b
        if s.g == 9:
            return s.B * y * y - x * x * x - s.A * x * x - x
        return s.a * x * x + y * y - one - s.d * x * x * y * y

    def point(s, n, oncurve=False):
        """a non-neutral affine point; on the curve if asked for"""
        c = s.c
        x, y = c.var('x' + n), c.var('y' + n)
        if s.kind == 'aff':
            # the encoding of the neutral element is not a point of the curve
            if c.is_zero(x) and (c.is_zero(y - s.zf) or c.is_zero(y + s.zf)):
                raise Infeasible()
        if s.edw:
            if c.is_zero(x):
                # (0, 1) is the neutral element itself, (0, 0) its alias; (0, -1) is the other one
                if s.kind == 'inv':
                    raise Infeasible()
                y = s.k(-1)
                if c.is_zero(s.k(2)):
                    raise Infeasible()
            elif s.kind == 'inv':
                c.assume_nonzero(y)
        P = (x, y)
        if oncurve:
            P = s.put_on(P)
        return P

    def put_on(s, P):
        c = s.c
        if c.concrete and not c.is_zero(s.on(P)):
            # look for a point with the same x, or the next ones
            p = c.prime
            x0 = c.cv(P[0])
            for i in range(min(p, 300)):
                x = s.k((x0 + i) % p)
                if s.kind == 'inv' and not c.cv(x):
                    continue
                for t in range(min(p, 12000)):
                    y = s.k((t * 7919 + 3) % p) if p > 100 else s.k(t)
                    if s.edw and (s.kind == 'inv' and not c.cv(y) or not c.cv(x) and c.cv(y) == 1):
                        continue
                    if c.is_zero(s.on((x, y))):
                        return (x, y)
            raise Infeasible()
        c.assume_zero(s.on(P))
        return P

    def neg(s, P):
        if P is None:
            return None
        return (-P[0], P[1]) if s.edw else (P[0], -P[1])

    def dbl(s, P):
        if P is None:
            return None
        c = s.c
        x, y = P
        if s.edw:
            return s.edadd(P, P)
        if c.is_zero(y):
            if s.g < 6:
                c.assume_nonzero(s.k(3) * x * x + s.a)     # the curve is not singular
            return None
        if s.g == 9:
            l = (s.k(3) * x * x + s.k(2) * s.A * x + s.k(1)) * c.inv(s.k(2) * s.B * y)
            x3 = s.B * l * l - s.A - x - x
        else:
            l = (s.k(3) * x * x + s.a) * c.inv(s.k(2) * y)
            x3 = l * l - x - x
        return (x3, l * (x - x3) - y)

    def generic(s, P, Q):
        """x1 != x2"""
        c = s.c
        l = (Q[1] - P[1]) * c.inv(Q[0] - P[0])
        x3 = (s.B * l * l - s.A if s.g == 9 else l * l) - P[0] - Q[0]
        return (x3, l * (P[0] - x3) - P[1])

    def edadd(s, P, Q):
        """the complete law; its denominators are non-zero (a square, d not a square)"""
        c = s.c
        x1, y1 = P
        x2, y2 = Q
        t = s.d * x1 * x2 * y1 * y2
        x3 = (x1 * y2 + y1 * x2) * c.inv(s.k(1) + t)
        y3 = (y1 * y2 - s.a * x1 * x2) * c.inv(s.k(1) - t)
        return s.edclass((x3, y3))

    def complete(s, P):
        if s.edw:
            t = s.d * P[0] * P[0] * P[1] * P[1]
            s.c.assume_nonzero(s.k(1) - t)
            s.c.assume_nonzero(s.k(1) + t)

    def edclass(s, P):
        c = s.c
        if c.is_zero(P[0]):
            if c.is_zero(P[1] - s.k(1)):
                return None
            if s.kind == 'inv':
                raise Infeasible()       # this point has no inverted coordinates
            if s.kind == 'twaff' and c.is_zero(P[1]):
                raise Infeasible()
        elif s.kind == 'inv':
            c.assume_nonzero(P[1])
        return P

    def pair(s, oncurve=False):
        """all the ways two points can be related; returns P, Q, P+Q"""
        c = s.c
        if s.edw:
            n = ['both neutral', 'left neutral', 'right neutral', 'equal', 'opposite', 'any']
        else:
            n = ['both neutral', 'left neutral', 'right neutral', 'equal', 'opposite', 'any']
        k = c.choose(6, 'relation of the operands')
        s.rel = n[k]
        if k == 0:
            return None, None, None
        P = s.point('1', oncurve)
        if k == 1:
            return None, P, P
        if k == 2:
            return P, None, P
        if k == 3:
            return P, P, s.dbl(P)
        if k == 4:
            s.complete(P)
            return P, s.neg(P), None
        Q = s.point('2', False)
        if not s.edw:
            c.assume_nonzero(P[0] - Q[0])
            return P, Q, s.generic(P, Q)
        if oncurve == 2:
            Q = s.put_on(Q)
        if c.is_zero(P[0] - Q[0]) and c.is_zero(P[1] - Q[1]):
            raise Infeasible()
        return P, Q, s.edadd(P, Q)
