"""Equality, the neutral element and curve membership are properties of the point, not of its coordinates."""
from .curves_common import *

ASSUMPTIONS = ['the multiprecision library computes exact residues modulo p (contracts of shim/)',
               'coordinates denote a point (projective coordinates are not all zero unless they are those of zero())']


def cmp(g):
    def f(c):
        C = Curve(c, g)
        k = c.choose(5, 'operands')
        P = C.point('1') if k in (1, 2, 4) else None
        Q = None
        if k == 2:
            Q = P
        elif k in (3, 4):
            Q = C.point('2')
        o, io = c.call('h_cmp', C.rep(P, 'p') + C.rep(Q, 'q'), C.ints(P, Q), niout=4)
        c.require_true('is_zero (left)', io[2] == int(P is None))
        c.require_true('is_zero (right)', io[3] == int(Q is None))
        if P is None or Q is None:
            eq = P is None and Q is None
        else:
            eq = c.is_zero(P[0] - Q[0]) and c.is_zero(P[1] - Q[1])
        c.require_true('==', io[0] == int(eq))
        c.require_true('!=', io[1] == int(not eq))
    return f


def wf(g):
    def f(c):
        C = Curve(c, g)
        P = None if c.choose(2, 'neutral') else C.point('1')
        if P is not None and C.kind == 'ext':
            # arbitrary T as well
            x, y = P
            l, t = c.var('l'), c.var('t')
            c.assume_nonzero(l)
            X = [x * l, y * l, t, l]
            o, io = c.call('h_wf', X, C.ints(P), niout=2)
            c.require_true('is_well_formed', io[0] == int(c.is_zero(t - x * y * l) and c.is_zero(C.on(P))))
            return
        if P is not None and C.kind in ('proj',) and c.choose(3, 'Z = 0') == 2:
            # a point at infinity other than the neutral element is not on the curve
            x, y = c.var('ix'), c.var('iy')
            c.assume_nonzero(x)
            o, io = c.call('h_wf', [x, y, c.const(0)], [0], niout=2)
            c.require_true('is_well_formed at infinity', io[0] == 0 and io[1] == 0)
            return
        o, io = c.call('h_wf', C.rep(P, 'p'), C.ints(P), niout=2)
        c.require_true('is_zero', io[1] == int(P is None))
        c.require_true('is_well_formed', io[0] == int(P is None or c.is_zero(C.on(P))))
    return f


def obligations(tier):
    r = []
    for g in range(11):
        r.append(Ob(NAMES[g] + ': equality and neutral element', tu(g), cmp(g)))
        if g != 0:
            r.append(Ob(NAMES[g] + ': curve membership', tu(g), wf(g)))
    return r
