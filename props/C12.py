"""Scalar multiplication is repeated addition, for every scalar."""
from vc.engine import Ob, Wide, TU
from vc.poly import Infeasible
from vc.loops import GroupDomain, SInt
from vc.grouphooks import additive, INTHOOKS
from .curves_common import *

ASSUMPTIONS = ['callees by their contracts: addition, doubling, mixed addition (the second operand normalised), zero, one (C08-C10)',
               'assumed contracts of the multiprecision library: msb and bit_test',
               'scalars have fewer than 2^20 bits',
               'Edwards-type coordinates: no intermediate sum leaves the domain of the addition contracts (points of odd order)']
TR = [{'n': n} for n in (0, 1, 2, 3, 5, 6, 0b1011, 0b110010, 0b1001101, 0b1111111, 0b100000000, 0b10110111001, 0b1010101010101, 0b11011011101100001)]
_t = {}
HOOKED = {}


def stu(g):
    if g not in _t:
        _t[g] = TU('curves.cpp', ['-DGT=%d' % g, '-DSMUL'], name='smul%d' % g)
    return _t[g]


def add(C, P, Q):
    """the group law on concrete points"""
    R = add0(C, P, Q)
    return R and tuple(C.k(C.c.cv(x)) for x in R)


def add0(C, P, Q):
    c = C.c
    if P is None:
        return Q
    if Q is None:
        return P
    if C.edw:
        return C.edadd(P, Q)
    if c.is_zero(P[0] - Q[0]):
        return C.dbl(P) if c.is_zero(P[1] - Q[1]) else None
    return C.generic(P, Q)


def times(C, P, n):
    r = None
    for b in bin(n)[2:] if n else '':
        r = add(C, r, r)
        if b == '1':
            r = add(C, r, P)
    return r


def odd(C, P):
    """a multiple of P of odd order (naive order computation)"""
    c = C.c
    p = c.prime
    for _ in range(6):
        Q = P
        n = 1
        while Q is not None:
            Q = add(C, Q, P)
            n += 1
            if n > 2 * p + 20:
                raise Infeasible()
        if n & 1:
            return P
        P = add(C, P, P)
        if P is None:
            raise Infeasible()
    raise Infeasible()


def mul(fn, g, kind):
    def f(c):
        if c.concrete:
            C = Curve(c, g)
            if C.kind == 'aff':
                c.assume_nonzero(C.b - C.zf * C.zf)      # the encoding of the neutral element is not a point
            if fn == 'h_ctor':
                P = C.put_on((C.gx, C.gy))
                if C.kind == 'aff' and c.is_zero(P[0]) and c.is_zero(P[1] - C.zf):
                    raise Infeasible()
                if C.kind == 'inv' and (c.is_zero(P[0]) or c.is_zero(P[1])):
                    raise Infeasible()
                P = tuple(C.k(c.cv(x)) for x in P)
                c.sym(SYM_GX, c.inv(P[0]) if g == 10 else P[0])
                c.sym(SYM_GY, c.inv(P[1]) if g == 10 else P[1])
                if C.edw:
                    if c.is_zero(P[0]):
                        raise Infeasible()
                    Q = odd(C, P)
                    if Q is not P:
                        raise Infeasible()
            else:
                P = None if c.choose(8, 'neutral') == 7 else C.point('1', True)
                if C.edw and P is not None:
                    P = odd(C, P)
            a = C.rep(P, 'one' if c.choose(2, 'normalised') and P is not None else 'p')
            n = c.bigint('n', 1024 if kind == 'big' else 64 if kind == 'int' else 40)
            if kind == 'fld':
                n %= c.prime
            want = times(C, P, n)
            if fn == 'h_ctor':
                a = []
            ii = C.ints(P)
            o, io = c.call(fn, a + ([Wide(n, 16)] if kind == 'big' else [n] if kind == 'fld' else []), ii + ([n] if kind == 'int' else []), nout=C.nc, niout=1)
            C.check('the product', o, io[0], want)
            return
        nc = NC[KIND[g]]
        c.sym(0, 0) if False else None
        n = c.bigint('n')
        x = 'g' if fn == 'h_ctor' else 'a'
        v = [] if fn == 'h_ctor' else c.group('a', nc)
        o, _ = c.call(fn, v + ([Wide(n, 16)] if kind == 'big' else [n] if kind == 'fld' else []), [0] + ([c.domain.limit(n, 64)] if kind == 'int' else []), nout=nc, niout=1)
        c.require_group('the result is n times the point', o, {x: n.t})
    return f


FN = [('h_mul_big', 'big', 'point * integer'), ('h_big_mul', 'big', 'integer * point'), ('h_mul_fld', 'fld', 'point * field element'), ('h_fld_mul', 'fld', 'field element * point'),
      ('h_mul_modular', 'fld', 'point * residue'), ('h_muleq', 'fld', 'point *= field element'), ('h_mul_sz', 'int', 'point * size_t'), ('h_sz_mul', 'int', 'size_t * point'),
      ('h_ctor', 'big', 'construction from an integer')]


def obligations(tier):
    r = []
    for g in range(11):
        k = KIND[g]
        hooks = INTHOOKS + additive(NC[k], 8 if k == 'mont' else 0, k == 'mont')
        for fn, kind, what in FN:
            if fn == 'h_ctor' and g in (1, 5):
                continue
            r.append(Ob('%s: %s' % (NAMES[g], what), stu(g), mul(fn, g, kind), domain=GroupDomain, hooks=hooks, traces=TR, backend='induction (z3)', primes=(13, 31, 101, 211, 409, 1009), trials=20))
    return r
