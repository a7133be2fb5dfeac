"""Ring operations of the prime field and of every extension."""
from vc.engine import Ob
from .fields_common import *

ASSUMPTIONS = ['the multiprecision library computes exact residues modulo p (contracts of shim/)',
               'the modulus is prime and different from 2; the tower constants are arbitrary field elements']


def ops(ft):
    def f(c):
        R = ring(c, ft)
        a = elem(c, R, 'a')
        b = elem(c, R, 'b')
        o, _ = c.call('h_ops', R.flat(a) + R.flat(b), nout=9 * R.rank)
        add, sub, mul, neg, dbl, sq, pa, ps, pm = split(R, o)
        req(c, R, 'addition', add, R.add(a, b))
        req(c, R, 'subtraction', sub, R.sub(a, b))
        req(c, R, 'multiplication', mul, R.mul(a, b))
        req(c, R, 'negation', neg, R.neg(a))
        req(c, R, 'doubling', dbl, R.add(a, a))
        req(c, R, 'squaring', sq, R.mul(a, a))
        req(c, R, 'compound addition', pa, R.add(a, b))
        req(c, R, 'compound subtraction', ps, R.sub(a, b))
        req(c, R, 'compound multiplication', pm, R.mul(a, b))
    return f


def alias(ft):
    def f(c):
        R = ring(c, ft)
        a = elem(c, R, 'a')
        o, _ = c.call('h_self', R.flat(a), nout=5 * R.rank)
        for n, g, w in zip(('a+=a', 'a-=a', 'a*=a', 'a=a', 'move'), split(R, o), (R.add(a, a), R.zero, R.mul(a, a), a, a)):
            req(c, R, 'aliased ' + n, g, w)
    return f


def consts(ft):
    def f(c):
        R = ring(c, ft)
        o, _ = c.call('h_consts', [], nout=2 * R.rank)
        z, e = split(R, o)
        req(c, R, 'zero', z, R.zero)
        req(c, R, 'one', e, R.one)
    return f


def equality(ft):
    def f(c):
        R = ring(c, ft)
        a = elem(c, R, 'a')
        k = c.choose(R.rank + 3, 'case')
        if k < R.rank:       # differs in one coordinate only
            fl = list(R.flat(a))
            d = c.var('d')
            c.assume_nonzero(d)
            fl[k] = fl[k] + d
            b = R.unflat(fl)
        elif k == R.rank:
            b = a
        elif k == R.rank + 1:
            b = elem(c, R, 'b')
        else:
            a = R.one if c.choose(2, 'one/zero') else R.zero
            b = elem(c, R, 'b')
        _, io = c.call('h_eq', R.flat(a) + R.flat(b), niout=4)
        eq = int(R.is_zero(R.sub(a, b)))
        c.require_true('== is coordinate-wise equality', io[0] == eq)
        c.require_true('!= is its negation', io[1] == 1 - eq)
        c.require_true('is_zero', io[2] == int(R.is_zero(a)))
        c.require_true('is_one', io[3] == int(R.is_zero(R.sub(a, R.one))))
    return f


def scal(ft, sub):
    def f(c):
        R = ring(c, ft)
        S = R
        while S.rank > sub:
            S = S.base
        k = elem(c, S, 'k')
        a = elem(c, R, 'a')
        o, _ = c.call('h_scal%d' % sub, S.flat(k) + R.flat(a), nout=2 * R.rank)
        w = []
        fl = R.flat(a)
        for i in range(0, R.rank, sub):
            w += S.flat(S.mul(k, S.unflat(fl[i:i + sub])))
        c.require_eq('left multiplication by a subfield element', o[:R.rank], w)
        c.require_eq('right multiplication by a subfield element', o[R.rank:], w)
    return f


def mnr(ft):
    def f(c):
        R = ring(c, ft)
        U = R.base
        a = elem(c, U, 'a')
        o, _ = c.call('h_mnr', U.flat(a), nout=U.rank)
        c.require_eq('multiplication by the non-residue', o, U.flat(U.mul(R.nr, a)))
    return f


def f2misc(c):
    R = ring(c, 'F2')
    a = elem(c, R, 'a')
    b = c.var('b')
    o, _ = c.call('h_fp2misc', R.flat(a) + [b], nout=8)
    x, xi, m0, m1 = split(R, o)
    # these helpers are documented for u^2 = -1
    req(c, R, 'a*u (u^2=-1)', x, (-a[1], a[0]))
    req(c, R, 'a*(9+u) (u^2=-1)', xi, (c.const(9) * a[0] - a[1], a[0] + c.const(9) * a[1]))
    req(c, R, 'a*b', m0, (a[0] * b, a[1] * b))
    req(c, R, 'a*b*u (u^2=-1)', m1, (-(a[1] * b), a[0] * b))


def f2int(c):
    R = ring(c, 'F2')
    k = (0, 1, 2, -1, -7, 12345)[c.choose(6)]
    l = (0, 1, 3, -2, 99)[c.choose(5)]
    o, _ = c.call('h_mkint', [], [k, l], nout=2)
    req(c, R, 'element from integers', split(R, o)[0], (c.const(k), c.const(l)))


def fp_steps(c):
    a = c.var('a')
    o, _ = c.call('h_fp', [a], nout=8)
    one = c.const(1)
    c.require_eq('increment and decrement', o, [a + one, a + one, a + one, a + one + one, a + one, a + one, a + one, a])


def fp_ints(c):
    ks = (0, 1, 2, 255, 2 ** 31 - 1, 2 ** 63 - 1)
    k = ks[c.choose(len(ks))]
    l = (0, 1, -1, -5, 2 ** 31 - 1, -2 ** 31)[c.choose(6)]
    m = (0, 1, 200, 255)[c.choose(4)]
    o, _ = c.call('h_fp_int', [], [k, l, m], nout=3)
    c.require_eq('element from machine integers', o, [c.const(k), c.const(l), c.const(m)])


def fp_big(c):
    a = c.var('a')
    o, _ = c.call('h_fp_big', [a], nout=1)
    c.require('element from a big integer', o[0] - a)


def fp_cmp(c):
    # order of the canonical representatives (concrete contract: ordering has no algebraic meaning)
    a = c.var('a')
    b = c.var('b') if c.choose(2) else a
    _, io = c.call('h_fp_cmp', [a, b], niout=4)
    if c.concrete:
        x, y = c.cv(a), c.cv(b)
        c.require_true('order', io == [int(x < y), int(x > y), int(x <= y), int(x >= y)])


def obligations(tier):
    r = []
    for ft in ALL:
        n = NAME[ft]
        r.append(Ob(n + ': ring operations', tu(ft), ops(ft)))
        r.append(Ob(n + ': aliased operands', tu(ft), alias(ft)))
        r.append(Ob(n + ': constants', tu(ft), consts(ft)))
        r.append(Ob(n + ': equality', tu(ft), equality(ft)))
        if '-DHAS_SCAL1' in FLAGS[ft]:
            r.append(Ob(n + ': scaling by Fp', tu(ft), scal(ft, 1)))
        if '-DHAS_SCAL2' in FLAGS[ft]:
            r.append(Ob(n + ': scaling by Fp2', tu(ft), scal(ft, 2)))
        if '-DHAS_SCAL6' in FLAGS[ft]:
            r.append(Ob(n + ': scaling by Fp6', tu(ft), scal(ft, 6)))
        if '-DHAS_MNR' in FLAGS[ft]:
            r.append(Ob(n + ': multiplication by the non-residue', tu(ft), mnr(ft)))
    r.append(Ob('Fp2: helpers for u^2=-1', tu('F2'), f2misc))
    r.append(Ob('Fp2: construction from integers', tu('F2'), f2int, bounded='30 pairs of integers'))
    r.append(Ob('Fp: increment and decrement', tu('F1'), fp_steps))
    r.append(Ob('Fp: construction from machine integers', tu('F1'), fp_ints, bounded='selected integers'))
    r.append(Ob('Fp: construction from big integers', tu('F1'), fp_big))
    r.append(Ob('Fp: order of canonical representatives', tu('F1'), fp_cmp, symbolic=False, bounded='native evaluations only'))
    return r
