"""Sparse products."""
from vc.engine import Ob
from .fields_common import *

ASSUMPTIONS = ['the multiprecision library computes exact residues modulo p (contracts of shim/)',
               'operands have the documented sparse shape']


def mul045(c):
    R = ring(c, 'F12')
    F2 = R.base.base
    a = elem(c, R, 'a')
    l0, lw, lv = (elem(c, F2, n) for n in ('p', 'q', 'r'))
    o, _ = c.call('h_mul045', R.flat(a) + F2.flat(l0) + F2.flat(lw) + F2.flat(lv), nout=24)
    x, y = split(R, o)
    z = F2.zero
    req(c, R, 'mul_by_045', x, R.mul(a, ((lw, z, z), (z, l0, lv))))
    req(c, R, 'mul_by_024', y, R.mul(a, ((l0, z, lv), (z, lw, z))))


def mul023(c):
    R = ring(c, 'F4')
    a = elem(c, R, 'a')
    b = elem(c, R, 'b')
    b = ((b[0][0], c.const(0)), b[1])
    o, _ = c.call('h_mul023', R.flat(a) + R.flat(b), nout=4)
    req(c, R, 'mul_by_023', R.unflat(o), R.mul(a, b))


def mul2345(c):
    R = ring(c, 'F6a')
    a = elem(c, R, 'a')
    b = elem(c, R, 'b')
    b = ((c.const(0), c.const(0), b[0][2]), b[1])
    o, _ = c.call('h_mul2345', R.flat(a) + R.flat(b), nout=6)
    req(c, R, 'mul_by_2345', R.unflat(o), R.mul(a, b))


def obligations(tier):
    return [Ob('Fp12: products with line values', tu('F12'), mul045), Ob('Fp4: mul_by_023', tu('F4'), mul023),
            Ob('Fp6(2 over 3): mul_by_2345', tu('F6a'), mul2345)]
