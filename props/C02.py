"""Inverses in the prime field and in every extension."""
from vc.engine import Ob
from vc.poly import El
from vc import poly
from vc.llvmir import Ptr
from .fields_common import *

ASSUMPTIONS = ['the multiprecision library computes exact residues modulo p (contracts of shim/)',
               'the norm of the element to the prime field is not zero (for a field this says the element is not zero)']


def norm(R, a):
    """the norm to the prime field"""
    while R.rank > 1:
        B = R.base
        if R.n == 2:
            a = B.sub(B.mul(a[0], a[0]), B.mul(R.nr, B.mul(a[1], a[1])))
        else:
            a = B.add(B.add(B.mul(a[0], B.mul(a[0], a[0])), B.mul(R.nr, B.mul(a[1], B.mul(a[1], a[1])))),
                      B.sub(B.mul(B.mul(R.nr, R.nr), B.mul(a[2], B.mul(a[2], a[2]))),
                            B.scal(3, B.mul(R.nr, B.mul(a[0], B.mul(a[1], a[2]))))))
        R = B
    return a


def inverse(ft):
    def f(c):
        R = ring(c, ft)
        a = elem(c, R, 'a')
        if ft != 'F12':
            c.assume_nonzero(norm(R, a))
        elif c.concrete:
            c.assume_nonzero(norm(R, a))
        o, _ = c.call('h_inv', R.flat(a), nout=R.rank)
        req(c, R, 'a * a^-1 = 1', R.mul(a, R.unflat(o)), R.one)
    return f


def inverse_contract(rank):
    """the contract of the inverse in the field below: the result t satisfies x * t = 1 (proved for it separately)"""
    def hook(m, args, name):
        d = m.domain
        ctx = d.ctx
        out, x = args[0], args[1]
        w = 16
        R = ctx.R
        while R.rank > rank:
            R = R.base
        xs = R.unflat([d.fget(Ptr(x.o, x.off + w * i), 1) for i in range(rank)])
        t = [El(poly.newvar('t%d' % i)) for i in range(rank)]
        for g, want in zip(R.flat(R.mul(xs, R.unflat(t))), R.flat(R.one)):
            d.facts.add_equation(g - want)
        for i in range(rank):
            d.put(Ptr(out.o, out.off + w * i), 1, t[i])
    return hook


def modular(ft):
    def f(c):
        R = ring(c, ft)
        a = elem(c, R, 'a')
        if c.concrete:
            c.assume_nonzero(norm(R, a))
        else:
            c.domain.ctx = c
            c.R = R
        o, _ = c.call('h_inv', R.flat(a), nout=R.rank)
        req(c, R, 'a * a^-1 = 1', R.mul(a, R.unflat(o)), R.one)
    return f


def unitary(ft):
    def f(c):
        R = ring(c, ft)
        a = elem(c, R, 'a')
        o, _ = c.call('h_unitary', R.flat(a), nout=R.rank)
        B = R.base
        n = B.sub(B.mul(a[0], a[0]), B.mul(R.nr, B.mul(a[1], a[1])))
        # a * conj(a) is the relative norm; for norm 1 the conjugate is the inverse
        req(c, R, 'a * unitary inverse = relative norm', R.mul(a, R.unflat(o)), R.embed(n))
    return f


def obligations(tier):
    r = []
    for ft in ALL:
        if ft == 'F12':
            r.append(Ob('Fp12: inverse', tu(ft), modular(ft), hooks=[(r'element_fp6_3over2<[^<>]*>::inversed\(\) const', inverse_contract(6))]))
        elif ft == 'F6b':
            r.append(Ob(NAME[ft] + ': inverse', tu(ft), modular(ft), hooks=[(r'element_fp2<[^<>]*>::inversed\(\) const', inverse_contract(2))]))
        else:
            r.append(Ob(NAME[ft] + ': inverse', tu(ft), inverse(ft)))
        if '-DHAS_UNITARY' in FLAGS[ft]:
            r.append(Ob(NAME[ft] + ': unitary inverse', tu(ft), unitary(ft)))
    return r
