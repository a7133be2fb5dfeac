"""Square tests and square roots agree with the field."""
import z3
from vc.engine import Ob, TU
from vc.poly import Infeasible
from vc.loops import GVal, GPart, SInt
from vc.roots import RootDomain, SquareDomain, hooks, invariants
from vc import towers
from .fields_common import RANK, NAME, ring, elem, req
from .C04 import ipow
from . import realfields as rf
from . import paramspec as ps

ASSUMPTIONS = ['callees by their contracts: multiplication, squaring, one (C01), powers (C04)',
               'Euler: a non-zero element is a square exactly when its power (q-1)/2 is one; the even part of the multiplicative group is cyclic and nqr^t generates it '
               '(the constants (q-1)/2, s, (t-1)/2, nqr^t of every field: C07)',
               'assumed contracts of the multiprecision library: powm, ressol (a square root of a square)',
               'square roots are taken of squares (the documentation says that the method does not end otherwise)',
               'the 2-adicity s is less than 2^30']
CLS = {'F1': 'element_fp', 'F2': 'element_fp2', 'F3': 'element_fp3'}
POL = {'F2': 'E2P', 'F3': 'E3P'}
S_TH, S_NQR = 80, 81
_tus = {}


def tu(ft):
    if ft not in _tus:
        _tus[ft] = TU('root.cpp', ['-DFT=' + ft] + (['-DPOL=' + POL[ft]] if ft in POL else []), name='root_' + ft)
    return _tus[ft]


def field(c, ft):
    """a field with its constants (concrete)"""
    R = ring(c, ft)
    p = c.prime
    n = RANK[ft]
    if p == 2:
        raise Infeasible()
    if n > 1:
        nr = c.cv(c.syms[towers.S_NR])
        if (p - 1) % n or nr % p == 0 or pow(nr, (p - 1) // n, p) == 1:
            raise Infeasible()
    q = p ** n
    t, s = q - 1, 0
    while t % 2 == 0:
        t, s = t // 2, s + 1
    if n > 1:
        for i in range(200):
            x = R.unflat([c.const(c.choose(p, 'nqr')) for _ in range(n)])
            if not same(c, R, ipow(R, x, (q - 1) // 2), R.one) and not same(c, R, x, R.zero):
                break
        else:
            raise Infeasible()
        for i, v in enumerate(R.flat(ipow(R, x, t))):
            c.syms[S_NQR + i] = c.cv(v)
        c.syms[S_TH] = (t - 1) // 2
    c.syms[towers.S_HALF] = (q - 1) // 2
    return R, q, s


def same(c, R, a, b):
    return all(c.cv(x) == c.cv(y) for x, y in zip(R.flat(a), R.flat(b)))


def argument(c, R):
    k = c.choose(12, 'kind of argument')
    n = R.rank
    if k == 0:
        return R.zero
    if k == 1:
        return R.one
    if k == 2:
        return R.neg(R.one)
    if k == 3:
        return R.unflat([c.const(c.choose(c.prime, 'x') if i == 0 else 0) for i in range(n)])
    if k == 4:
        return R.unflat([c.const(c.choose(c.prime, 'x') if i == n - 1 else 0) for i in range(n)])
    return elem(c, R, 'a')


def setup(c, ft):
    d, n = c.domain, RANK[ft]
    S, h = z3.Int('s'), c.bigint('t_minus_1_over_2')
    d.assume(z3.And(S >= 1, S < 1 << 30, h.t >= 0))
    d.setup(n, S, h.t)
    d.tests = []
    d.named('u', z3.Int('k_a'))          # a^t
    d.named('z0', z3.IntVal(0))
    d.assume(z3.And(d.k['u'] >= 1, d.k['u'] <= S))
    d.scalar['s'] = S
    c.syms[S_TH] = h
    for i in range(n):
        c.syms[S_NQR + i] = GPart(GVal({'z0': 1}), i, n) if i == 0 else None
    g = c.syms[S_NQR].g
    for i in range(n):
        c.syms[S_NQR + i] = GPart(g, i, n)
    return d


def sqrt(ft, zero=False):
    def f(c):
        n = RANK[ft]
        if c.concrete:
            R, q, s = field(c, ft)
            a = R.zero if zero else argument(c, R)
            if not same(c, R, a, R.zero):
                if not same(c, R, ipow(R, a, (q - 1) // 2), R.one):
                    a = R.mul(a, a)
            o, _ = c.call('h_sqrt', R.flat(a), [s] if n > 1 else [], nout=n)
            r = R.unflat(o)
            req(c, R, 'the square of the result is the argument', R.mul(r, r), a)
            return
        if n == 1 or zero:
            R = ring(c, ft)
            a = c.const(0) if n == 1 else R.zero
            if n == 1 and not zero:
                x = c.var('x')                       # the argument is a square
                a = x * x
            if n == 1:
                c.domain.roots = [] if zero else [x]
            if n > 1:
                c.domain.setup(n, z3.IntVal(2), z3.IntVal(1))
                c.domain.named('z0', z3.IntVal(0))
                c.domain.tests = []
                c.syms[S_TH] = SInt(z3.IntVal(1))
                g = GVal({'z0': 1})
                for i in range(n):
                    c.syms[S_NQR + i] = GPart(g, i, n)
            o, _ = c.call('h_sqrt', R.flat(a), [2] if n > 1 else [], nout=n)
            r = R.unflat(o)
            req(c, R, 'the square of the result is the argument', R.mul(r, r), a)
            return
        d = setup(c, ft)
        o, _ = c.call('h_sqrt', c.group('a', n), [d.zi(d.S)], nout=n)
        g = d.root(d.glookup(o))
        rest = d.twopart(GVal({**g.c, 'a': z3.simplify(z3.IntVal(0) + g.c.get('a', 0) - 1)})) if g is not None else None
        if rest is None or not d.entails(d.height(rest) >= d.S):
            from vc.engine import Refuted
            raise Refuted('the square of the result is the argument', repr(g))
        c.discharged.append('the square of the result is the argument')
    return f


def is_square(ft, zero=False):
    def f(c):
        n = RANK[ft]
        if c.concrete:
            R, q, s = field(c, ft)
            a = R.zero if zero else argument(c, R)
            _, io = c.call('h_is_square', R.flat(a), nout=0, niout=1)
            w = same(c, R, a, R.zero) or same(c, R, ipow(R, a, (q - 1) // 2), R.one)
            c.require_true('square test', (io[0] & 1) == int(w))
            return
        e = c.bigint('q_minus_1_over_2')
        c.domain.assume(e.t >= 1)
        c.syms[towers.S_HALF] = e
        d = c.domain
        d.setup(n, z3.Int('s'), z3.Int('h'))
        d.tests = []
        if zero:
            R = ring(c, ft)
            _, io = c.call('h_is_square', R.flat(R.zero), nout=0, niout=1)
            w = 1
        else:
            d.k = {}
            d.named('u', z3.Int('k_a'))
            d.never_u = True
            _, io = c.call('h_is_square', c.group('a', n), nout=0, niout=1)
            w = d.is_one(GVal({'a': e.t}))
        v = d.truth1(io[0])
        if int(v) != w:
            from vc.engine import Refuted
            raise Refuted('square test', '%s for an argument whose power (q-1)/2 is %s' % (bool(v), 'one' if w else 'not one'))
        c.discharged.append('square test')
    return f


SQUARE = [x + y for x, ys in (('bls12_381', ('_base', '_scalar', '_fp2')), ('bls12_377', ('_base', '_scalar', '_fp2')), ('alt_bn128_254', ('_base', '_scalar', '_fp2')),
                              ('bn128_254', ('_fp2',)), ('mnt4_298', ('_base', '_scalar', '_fp2')), ('mnt6_298', ('_base', '_scalar', '_fp3')), ('edwards_183', ('_base',)))
          for y in ys]       # the others lack constants: is_square does not compile


# ---- the constants of the library's fields, and the two functions over them
class Root(rf.RF):
    def __init__(s, f):
        s.__dict__.update(f.__dict__)
        s.tu = TU('params.cpp', list(f.tu.defs) + ['-DROOTS'], name='roots_' + f.name)


def constants(f):
    def fn(c):
        def req(name, b):
            c.require_true(name, b)
        d = rf.dump(c, 'h_field')
        p = d['modulus']
        if f.kind == 'prime':
            if not f.nog:
                req('(q-1)/2', d['group_order_minus_one_half'] == (p - 1) // 2)
            return
        e = rf.dump(c, 'h_ext')
        T = ps.tower(p, f.kind, rf.std_nrs(f))
        q = T.order()
        s, t = ps.odd_part(q - 1)
        req('(q-1)/2', e['group_order_minus_one_half'] == (q - 1) // 2)
        req('2-adicity', e['s'] == s)
        req('(t-1)/2', e['t_minus_1_over_2'] == (t - 1) // 2)
        r = T.unflat(ps.lst(e['nqr_to_t']))
        req('nqr^t has order 2^s', T.pow(r, 2 ** (s - 1)) != T.one and T.pow(r, 2 ** s) == T.one)
    return fn


def real(f):
    def fn(c):
        p = f.p
        T = ps.tower(p, f.kind, rf.std_nrs(f)) if f.kind != 'prime' else ps.Tower(p)
        q = T.order()
        k = c.choose(6, 'kind of argument')
        x = [c.bigint('x%d' % i, p.bit_length()) % p for i in range(T.rank)]
        if k == 0:
            x = [0] * T.rank
        elif k == 1:
            x = [1] + [0] * (T.rank - 1)
        elif k == 2:
            x = [p - 1] + [0] * (T.rank - 1)
        elif k == 3:
            x = [x[0]] + [0] * (T.rank - 1)
        o, io = c.call('h_root', x, [], nout=2 * T.rank, niout=2)
        v = T.unflat(x)
        w = T.unflat([y % p for y in o[T.rank:]])
        c.require_true('the square of the result is the argument', T.mul(w, w) == T.mul(v, v))
        c.require_true('a square is a square', io[0] & 1)
        c.require_true('square test', (io[1] & 1) == int(v == T.zero or T.pow(v, (q - 1) // 2) == T.one))
    return fn


def real_fields():
    for f in rf.all_fields():
        if f.kind not in ('prime', 'fp2', 'fp3') or f.nlb != 1152 or rf.std_modulus(f) is None:
            continue
        if f.nog or f.name not in SQUARE:
            continue
        r = Root(f)
        r.p = rf.std_modulus(f)
        yield r


def obligations(tier):
    r = []
    for f in real_fields():
        r.append(Ob('%s: constants of the square root' % f.name, f.tu, constants(f), nl=f.nl, elout=False, budget=80_000_000, trials=1, backend='ground evaluation'))
        r.append(Ob('%s: square root and test, concrete field' % f.name, f.tu, real(f), nl=(f.p.bit_length() + 63) // 64, elout=False, prime=f.p, symbolic=False, bounded='native evaluations only', trials=4 if tier == 'quick' else 60))
    N = 60 if tier == 'quick' else 600
    for ft in ('F1', 'F2', 'F3'):
        n = RANK[ft]
        P = {'F1': (3, 5, 7, 11, 13, 17, 97, 193, 257, 769, 1009, 12289, 65537), 'F2': (3, 5, 7, 11, 13, 17, 31, 97, 127, 193, 257, 769, 8191, 12289, 65537),
             'F3': (7, 13, 19, 31, 37, 61, 97, 193, 769, 12289)}[ft]
        H = hooks(CLS[ft], n)
        kw = dict(domain=RootDomain, hooks=H, primes=P, trials=N, elout=True, confirm=True, backend='orders of elements (z3)')
        r.append(Ob('%s: is_square' % NAME[ft], tu(ft), is_square(ft), **kw))
        r.append(Ob('%s: is_square of zero' % NAME[ft], tu(ft), is_square(ft, True), **kw))
        if n == 1:
            r.append(Ob('%s: square root of a square' % NAME[ft], tu(ft), sqrt(ft), domain=SquareDomain, primes=P, trials=N))
            r.append(Ob('%s: square root of zero' % NAME[ft], tu(ft), sqrt(ft, True), domain=SquareDomain, primes=P, trials=N))
        else:
            r.append(Ob('%s: square root of any square but zero' % NAME[ft], tu(ft), sqrt(ft), cuts=invariants(n), **kw))
            r.append(Ob('%s: square root of zero' % NAME[ft], tu(ft), sqrt(ft, True), **kw))
    return r
