from vc.engine import TU, Ob
from vc.realdom import RealDomain, Mag, abs_contract
from vc.llvmir import Ptr
from vc.poly import El
from vc.machine import Fail

_tu = {}
SHAPES = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (2, 4), (4, 2), (1, 4), (4, 1), (3, 4), (4, 3), (4, 4)]
LARGE = [(5, 5), (5, 2), (2, 5), (6, 7), (7, 6), (8, 8), (9, 3), (3, 9), (1, 17), (17, 1)]
ASSUMPTIONS = ['floating point arithmetic is treated as exact real arithmetic']


def tu(part):
    if part not in _tu:
        _tu[part] = TU('linalg.cpp', ['-DPART_' + part], name='linalg_' + part)
    return _tu[part]


def ob(name, part, fn, **kw):
    kw.setdefault('domain', RealDomain)
    kw.setdefault('bounded', None)
    return Ob(name, tu(part), fn, real=True, **kw)


class Rd:
    """walks through the flat outputs"""

    def __init__(s, c, o):
        s.c = c
        s.o = o
        s.k = 0

    def take(s, n):
        r = s.o[s.k:s.k + n]
        s.k += n
        return r

    def eq(s, name, want):
        s.c.require_eq(name, s.take(len(want)), want)


def vec(c, n, name):
    return [c.var('%s%d' % (name, i)) for i in range(n)]


def mat(c, m, n, name):
    return [[c.var('%s%d%d' % (name, i, j)) for j in range(n)] for i in range(m)]


def flat(m):
    return [x for r in m for x in r]


class Cx:
    """complex numbers as pairs"""

    def __init__(s, re, im):
        s.re, s.im = re, im

    def __add__(s, t):
        return Cx(s.re + t.re, s.im + t.im)

    def __sub__(s, t):
        return Cx(s.re - t.re, s.im - t.im)

    def __mul__(s, t):
        return Cx(s.re * t.re - s.im * t.im, s.re * t.im + s.im * t.re)

    def conj(s):
        return Cx(s.re, -s.im)


def parts(l, t):
    if t == 'd':
        return list(l)
    return [y for x in l for y in (x.re, x.im)]


def cj(x):
    return x.conj() if isinstance(x, Cx) else x


def scalar(c, t, name):
    return c.var(name) if t == 'd' else Cx(c.var(name + 'r'), c.var(name + 'i'))


def tvec(c, t, n, name):
    return [scalar(c, t, '%s%d' % (name, i)) for i in range(n)]


def tmat(c, t, m, n, name):
    return [tvec(c, t, n, '%s%d' % (name, i)) for i in range(m)]


def add(l):
    r = l[0]
    for x in l[1:]:
        r = r + x
    return r


def transpose(m):
    return [list(r) for r in zip(*m)]


def matmul(a, b):
    bt = transpose(b)
    return [[add([x * y for x, y in zip(r, k)]) for k in bt] for r in a]


def cabs(c, x):
    return x if c.sign(x) >= 0 else -x


def is_max(c, name, r, l):
    """r is one of l and no smaller than any of them"""
    if c.concrete:
        near = [c.cv(r - x) for x in l]
        e = max([1] + [abs(c.cv(x)) for x in l]) / 10 ** 9
        c.require_true(name + ' is attained', any(abs(x) <= e for x in near))
        c.require_true(name + ' is an upper bound', all(x >= -e for x in near))
        return
    c.require_true(name + ' is attained', any(c.is_zero(r - x) for x in l))
    for x in l:
        c.require_true(name + ' is an upper bound', c.sign(r - x) >= 0)
