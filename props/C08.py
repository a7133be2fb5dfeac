"""Short Weierstrass curves: the group law in every coordinate system."""
from vc.engine import Ob
from .curves_common import *

ASSUMPTIONS = ['the multiprecision library computes exact residues modulo p; the inverse of 0 is 0 (contracts of shim/)',
               'operands denote points of one non-singular curve (two points with equal x are equal or opposite); field characteristic > 3',
               'in affine coordinates zero_fill, (0,0) or (0,1), encodes the neutral element, so it is not a point of the curve (b != 0 or b != 1, depending on zero_fill)']
GS = [0, 1, 2, 3, 4, 5]
E_ = '%s'


def binary(fn, sub, g):
    def f(c):
        C = Curve(c, g)
        P, Q, S = C.pair(C.edw)
        a = C.rep(P, 'p')
        b = C.rep(C.neg(Q) if sub else Q, 'q')
        o, io = c.call(fn, a + b, C.ints(P, Q), nout=3 * C.nc if fn in ('h_add', 'h_sub') else 2 * C.nc, niout=3 if fn in ('h_add', 'h_sub') else 2)
        C.check(fn[2:], o[:C.nc], io[0], S)
        k = C.nc
        if fn in ('h_add', 'h_sub'):
            C.check('left operand unchanged', o[k:2 * k], io[1], P)
            C.check('right operand unchanged', o[2 * k:], io[2], C.neg(Q) if sub else Q)
        else:
            C.check('right operand unchanged', o[k:], io[1], C.neg(Q) if sub else Q)
    return f


def mixed(g):
    def f(c):
        C = Curve(c, g)
        P, Q, S = C.pair(2 if C.g == 7 else C.edw)
        if C.g == 7 and P is not None and Q is not None and C.rel in ('any', 'opposite'):
            # dedicated addition: P - Q and P + Q are not of order 2 or 4
            c.assume_nonzero(P[1] * Q[1] + C.a * P[0] * Q[0])
            c.assume_nonzero(P[0] * Q[1] - P[1] * Q[0])
        a = C.rep(P, 'p')
        b = C.rep(Q, 'one')
        o, io = c.call('h_madd', a + b, C.ints(P, Q), nout=2 * C.nc, niout=2)
        C.check('mixed_add', o[:C.nc], io[0], S)
    return f


def unary(g):
    def f(c):
        C = Curve(c, g)
        P = None if c.choose(2, 'neutral') else C.point('1', C.edw)
        a = C.rep(P, 'p')
        k = c.choose(4 if g != 5 else 3, 'operation')
        z = C.ints(P)
        if k == 0:
            D = C.dbl(P)
            o, io = c.call('h_dbl', a, z, nout=C.nc, niout=1)
            C.check('double_inplace', o, io[0], D)
        elif k == 1:
            o, io = c.call('h_neg', a, z, nout=2 * C.nc, niout=2)
            C.check('negation', o[:C.nc], io[0], C.neg(P))
            C.check('operand of the negation', o[C.nc:], io[1], P)
        elif k == 2:
            D = C.dbl(P)
            o, io = c.call('h_addself', a, z, nout=C.nc, niout=1)
            C.check('P += P', o, io[0], D)
        else:
            if P is not None:
                C.complete(P)
            o, io = c.call('h_subself', a, z, nout=C.nc, niout=1)
            C.check('P -= P', o, io[0], None)
    return f


def consts(g):
    def f(c):
        C = Curve(c, g)
        k = C.nc
        if C.kind == 'inv':
            c.assume_nonzero(C.gx)
            c.assume_nonzero(C.gy)
        o, io = c.call('h_const', [], [], nout=3 * k, niout=3)
        C.check('zero()', o[:k], io[0], None)
        if g == 10:
            c.require_eq('one()', o[k:2 * k], [C.gx, C.gy, C.k(1)])
        else:
            C.check('one()', o[k:2 * k], io[1], (C.gx, C.gy))
        C.check('default-constructed', o[2 * k:], io[2], None)
    return f


def copy(g):
    def f(c):
        C = Curve(c, g)
        P = None if c.choose(2, 'neutral') else C.point('1')
        o, io = c.call('h_copy', C.rep(P, 'p'), C.ints(P), nout=2 * C.nc, niout=2)
        C.check('assignment', o[:C.nc], io[0], P)
        C.check('copy', o[C.nc:], io[1], P)
    return f


def law(GS):
    r = []
    for g in GS:
        n = NAMES[g] + ': '
        r.append(Ob(n + 'P + Q', tu(g), binary('h_add', 0, g)))
        r.append(Ob(n + 'P += Q', tu(g), binary('h_addeq', 0, g)))
        r.append(Ob(n + 'P - Q', tu(g), binary('h_sub', 1, g)))
        if g != 5:
            r.append(Ob(n + 'P -= Q', tu(g), binary('h_subeq', 1, g)))
        r.append(Ob(n + 'doubling, negation, aliased compound operations', tu(g), unary(g)))
        r.append(Ob(n + 'zero(), one(), default construction', tu(g), consts(g)))
        r.append(Ob(n + 'copy and assignment', tu(g), copy(g)))
        if KIND[g] in ('jac', 'proj', 'ext', 'inv'):
            r.append(Ob(n + 'mixed_add', tu(g), mixed(g)))
    return r


def obligations(tier):
    return law(GS)
