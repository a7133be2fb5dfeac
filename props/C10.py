"""Montgomery arithmetic; conversions between coordinate systems and between curve forms denote the same point."""
from vc.domain import FieldDomain
from vc.poly import El, Poly, newvar
from .curves_common import *
from . import C08

ASSUMPTIONS = ['the multiprecision library computes exact residues modulo p; a square root is one of the two (contracts of shim/)',
               'points where a conversion map is not defined are excluded: xy = 0 for inverted coordinates and Montgomery form, v = 0 or u = -1 for twisted Edwards form',
               'Montgomery and twisted Edwards constants are those of equivalent curves: A = 2(a+d)/(a-d), B = s^2 * 4/(a-d)']


class SqrtDomain(FieldDomain):
    """sqrt(u): a fresh r with r^2 = u; the same one for equal arguments"""

    def sqrt_hook(s, u):
        log = s.__dict__.setdefault('roots', [])
        for v, r in log:
            if s.facts.provably_zero(u - v):
                return r
        r = El(newvar('root%d' % len(log), 3))
        s.facts.assume_zero(r * r - u)
        log.append((u, r))
        return r


def std(g):
    def f(c):
        C = Curve(c, g)
        P = None if c.choose(2, 'neutral') else C.point('1', C.edw)
        X = C.rep(P, 'p')
        if C.kind != 'aff':
            T = Curve.__new__(Curve)
            T.__dict__.update(C.__dict__)
            T.kind = {'jac': 'aff', 'proj': 'aff', 'ext': 'twaff', 'inv': 'twaff'}.get(C.kind, C.kind)
            o, io = c.call('h_aff', X, C.ints(P), nout=2, niout=1)
            T.check('to_affine', o, io[0], P)
        if C.kind in ('aff', 'jac'):
            T = Curve.__new__(Curve)
            T.__dict__.update(C.__dict__)
            T.kind = 'proj'
            o, io = c.call('h_proj', X, C.ints(P), nout=3, niout=1)
            T.check('to_projective', o, io[0], P)
    return f


def tw(c):
    C = Curve(c, 6)
    P = None if c.choose(2, 'neutral') else C.point('1', True)
    X = C.rep(P, 'p')
    T = Curve.__new__(Curve)
    T.__dict__.update(C.__dict__)
    if P is not None or not c.is_zero(X[1]):
        T.kind = 'ext'
        o, io = c.call('h_ext', X, C.ints(P), nout=4, niout=1)
        T.check('to_extended_with_a_minus_1', o, io[0], P)
    if P is not None and not c.is_zero(P[0]) and not c.is_zero(P[1]):
        T.kind = 'inv'
        o, io = c.call('h_inv', X, C.ints(P), nout=3, niout=1)
        T.check('to_inverted', o, io[0], P)


def from_aff(c):
    C = Curve(c, 8)
    P = C.point('1')
    o, io = c.call('h_from_aff', list(P), [], nout=3, niout=1)
    C.check('inverted coordinates from affine ones', o, io[0], P)


def forms(c, C, s):
    """a - d and s are non-zero; sets A and B"""
    k = C.k
    c.assume_nonzero(C.a - C.d)
    i = c.inv(C.a - C.d)
    c.sym(SYM_MA, k(2) * (C.a + C.d) * i)
    B = k(4) * i * s * s
    c.sym(SYM_MB, B)
    return k(2) * (C.a + C.d) * i, B


def sroot(c, C, got, want, s, name):
    """got = want, up to the choice of the square root"""
    if c.is_zero(got - want):
        c.require_eq(name, [got], [want])
        return 1
    c.require_eq(name + ' (other root)', [got], [-want])
    return -1


def to_mont(c):
    C = Curve(c, 6)
    s = c.var('s')
    c.assume_nonzero(s)
    A, B = forms(c, C, s)
    P = None if c.choose(2, 'neutral') else C.point('1')
    X = C.rep(P, 'p')
    if P is None:
        o, io = c.call('h_mont', X, C.ints(P), nout=2, niout=1)
        c.require_true('to_montgomery: neutral flag', io[0] == 1)
        return
    x, y = P
    c.assume_nonzero(x)
    c.assume_nonzero(C.k(1) - y)
    o, io = c.call('h_mont', X, C.ints(P), nout=2, niout=1)
    c.require_true('to_montgomery: neutral flag', io[0] == 0)
    u = (C.k(1) + y) * c.inv(C.k(1) - y)
    v = u * c.inv(x)
    c.require_eq('to_montgomery u', [o[0]], [u])
    sroot(c, C, o[1], v * c.inv(s), s, 'to_montgomery v')
    # and so the image is on the Montgomery curve whenever the point is on the Edwards one
    e = B * o[1] * o[1] - o[0] * o[0] * o[0] - A * o[0] * o[0] - o[0]
    num = C.on(P)
    # e = num * (factor): the curve equations are equivalent
    c.require_eq('curve equations agree', [e * (C.k(1) - y) * (C.k(1) - y) * (C.k(1) - y) * x * x * (C.a - C.d)], [C.k(-4) * (C.k(1) + y) * num])


def to_tw(c):
    C = Curve(c, 9)
    C.d = c.var('d')
    c.sym(SYM_D, C.d)
    s = c.var('s')
    c.assume_nonzero(s)
    A, B = forms(c, C, s)
    P = None if c.choose(2, 'neutral') else C.point('1')
    X = C.rep(P, 'p')
    if P is None:
        o, io = c.call('h_tw', X, C.ints(P), nout=2, niout=1)
        c.require_true('to_twisted_edwards: neutral', c.is_zero(o[0]) and (c.is_zero(o[1] - C.k(1)) or c.is_zero(o[1] - C.zf)))
        return
    u, v = P
    c.assume_nonzero(v)
    c.assume_nonzero(u + C.k(1))
    o, io = c.call('h_tw', X, C.ints(P), nout=2, niout=1)
    c.require_eq('to_twisted_edwards y', [o[1]], [(u - C.k(1)) * c.inv(u + C.k(1))])
    sroot(c, C, o[0], u * c.inv(v * s), s, 'to_twisted_edwards x')


def round_tw(c):
    """to_montgomery().to_twisted_edwards()"""
    C = Curve(c, 6)
    s = c.var('s')
    c.assume_nonzero(s)
    forms(c, C, s)
    P = None if c.choose(2, 'neutral') else C.point('1')
    X = C.rep(P, 'p')
    if P is not None:
        x, y = P
        c.assume_nonzero(x)
        c.assume_nonzero(C.k(1) - y)
        c.assume_nonzero(C.k(1) + y)
    o, io = c.call('h_mont_round', X, C.ints(P), nout=2, niout=1)
    if P is None:
        C.check('round trip', o, io[0], P)
        return
    c.require_eq('round trip', o, list(P))


def obligations(tier):
    r = C08.law([9])
    r += [Ob(NAMES[g] + ': conversions', tu(g), std(g)) for g in (0, 1, 2, 3, 4, 5, 7, 8)]
    r.append(Ob('twisted Edwards affine: to extended and inverted coordinates', tu(6), tw))
    r.append(Ob('twisted Edwards inverted: construction from affine coordinates', tu(8), from_aff))
    r.append(Ob('twisted Edwards to Montgomery', tu(6), to_mont, domain=SqrtDomain))
    r.append(Ob('Montgomery to twisted Edwards', tu(9), to_tw, domain=SqrtDomain))
    r.append(Ob('twisted Edwards to Montgomery and back', tu(6), round_tw, domain=SqrtDomain))
    return r
