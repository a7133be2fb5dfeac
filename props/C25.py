"""Slicing, concatenation, indexing and generation."""
import z3
from vc.realpow import ShiftDomain, Shift
from .linalg_common import *


SHIFTS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 255, 256, -1, -2, -3, -4, -5, -6, -7, -8, -9, -13, -16, -17, -100, -255, -256, 2 ** 31 - 1, 2 ** 31 - 2, 2 ** 30)
EXTREME = (-2 ** 31, 1 - 2 ** 31, 2 - 2 ** 31, -2 ** 30, -65536, 65535, 65536, 2 ** 31 - 1, 2 ** 31 - 3)


def rot(n):
    """any int"""
    def f(c):
        a = vec(c, n, 'a')
        r = c.choose(n)
        if c.concrete:
            k = c.choose(4)
            sh = EXTREME[c.choose(len(EXTREME))] if k == 0 else c.rng.randrange(-2 ** 31, 2 ** 31) if k == 1 else c.rng.randrange(-5 * n, 5 * n)
            o, _ = c.call('v_rot_%d' % n, a, [sh], nout=n)
            c.require_eq('rotate', o, [a[(i + sh) % n] for i in range(n)])
            return
        d = c.domain
        q, sh = z3.Int('q'), z3.Int('shift')
        d.scalar['shift'] = sh
        d.assume(z3.And(sh == n * q + r, sh >= -2 ** 31, sh < 2 ** 31))
        o, _ = c.call('v_rot_%d' % n, a, [d.zi(sh)], nout=n)
        c.require_eq('rotate', o, [a[(i + r) % n] for i in range(n)])
    return f


def gen(n):
    def f(c):
        a, b, d = vec(c, n, 'a'), vec(c, n, 'b'), vec(c, n, 'c')
        s, t = c.var('s'), c.var('t')
        sh = SHIFTS[c.choose(len(SHIFTS))]
        o, _ = c.call('v_gen_%d' % n, a + b + d + [s, t], [sh], nout=10 * n + (n if n > 1 else 0) + 1)
        r = Rd(c, o)
        r.eq('fill', [s] * n)
        r.eq('iota', [s + c.const(i) for i in range(n)])
        if n > 1:
            iv = c.inv(c.const(n - 1))
            r.eq('linspace', [s + (t - s) * c.const(i) * iv for i in range(n)])
        r.eq('generate', [a[i] * s + t for i in range(n)])
        r.eq('ternary elementwise', [x * y - z for x, y, z in zip(a, b, d)])
        r.eq('unary elementwise', [c.const(3) * x + c.const(1) for x in a])
        r.eq('cast', a)
        r.eq('rotate', [a[(i + sh) % n] for i in range(n)])
        r.eq('constant iteration', a)
        r.eq('iteration', a)
        r.eq('indexing', a)
        r.eq('size', [c.const(n)])
    return f


def sl(m, n):
    def f(c):
        a = vec(c, n, 'a')
        o, _ = c.call('v_sl_%d_%d' % (m, n), a, nout=m * (n - m + 2))
        r = Rd(c, o)
        r.eq('slice from the start', a[:m])
        for st in range(n - m + 1):
            r.eq('slice from %d' % st, a[st:st + m])
    return f


def cat(n, m):
    def f(c):
        a, b = vec(c, n, 'a'), vec(c, m, 'b')
        o, _ = c.call('v_cat_%d_%d' % (n, m), a + b, nout=n + m)
        c.require_eq('concatenation', o, a + b)
    return f


def make(c):
    a = vec(c, 4, 'a')
    o, _ = c.call('v_make', a, nout=9)
    c.require_eq('construction', o, a[:3] + a[:2] + a)


def ut(m, n, few=False):
    def f(c):
        a, b, s = mat(c, m, n, 'a'), mat(c, m, n, 'b'), c.var('s')
        if few:                # a covering set of index tuples
            ix = sorted({(i, (i * 3 + x) % m, j, (j * 5 + 2 * x + 1) % n) for i in range(m) for j in range(n) for x in range(2)} | {(0, m - 1, n - 1, 0), (m - 1, 0, 0, n - 1), (m - 1, m - 1, n - 1, n - 1)})
            i, k, j, l = ix[c.choose(len(ix))]
        else:
            i, k = c.choose(m), c.choose(m)
            j, l = c.choose(n), c.choose(n)
        mn = m * n
        o, _ = c.call('m_ut_%d_%d' % (m, n), flat(a) + flat(b) + [s], [i, k, j, l], nout=4 * mn + 6 * mn + 2 * mn + 3 * mn + n + m + 2 + mn + 2)
        r = Rd(c, o)
        r.eq('fill', [s] * mn)
        r.eq('generate', [x * s + y for x, y in zip(flat(a), flat(b))])
        r.eq('elementwise', [x - c.const(2) * y for x, y in zip(flat(a), flat(b))])
        r.eq('cast', flat(a))
        r.eq('repeat', [a[p % m][q % n] for p in range(2 * m) for q in range(3 * n)])
        t = [list(x) for x in a]
        t[i], t[k] = t[k], t[i]
        r.eq('row exchange', flat(t))
        t = [list(x) for x in a]
        for x in t:
            x[j], x[l] = x[l], x[j]
        r.eq('column exchange', flat(t))
        for nm in ('reshape', 'reshape to a row', 'reshape to a column'):
            r.eq(nm, flat(a))
        r.eq('row', a[i])
        r.eq('column', [x[j] for x in a])
        r.eq('constant access', [a[i][j]])
        r.eq('access', [a[i][j]])
        t = [list(x) for x in a]
        t[i][j] = s
        r.eq('assignment changes one entry only', flat(t))
        r.eq('number of rows', [c.const(m)])
        r.eq('number of columns', [c.const(n)])
    return f


def ident(m):
    def f(c):
        o, _ = c.call('m_id_%d' % m, [], nout=2 * m * m)
        r = Rd(c, o)
        for nm in ('get_identity', 'identity'):
            r.eq(nm, [c.const(int(i == j)) for i in range(m) for j in range(m)])
    return f


def as_(n):
    def f(c):
        a = vec(c, n, 'a')
        o, _ = c.call('m_as_%d' % n, a, nout=2 * n)
        c.require_eq('row and column', o, a + a)
    return f


def mcat(m, n, p):
    def f(c):
        a, b = mat(c, m, n, 'a'), mat(c, m, p, 'b')
        o, _ = c.call('m_cat_%d_%d_%d' % (m, n, p), flat(a) + flat(b), nout=2 * m * (n + p))
        r = Rd(c, o)
        h = [x + y for x, y in zip(a, b)]
        r.eq('horizontal concatenation', flat(h))
        r.eq('vertical concatenation', flat(transpose(h)))
    return f


def sub(p, q, m, n):
    def f(c):
        a = mat(c, m, n, 'a')
        o, _ = c.call('m_sub_%d_%d_%d_%d' % (p, q, m, n), flat(a), nout=p * q * (m - p + 1) * (n - q + 1))
        r = Rd(c, o)
        for k in range(m - p + 1):
            for l in range(n - q + 1):
                r.eq('submatrix at %d,%d' % (k, l), [a[k + x][l + y] for x in range(p) for y in range(q)])
    return f


def obligations(tier):
    r = [ob('vector construction', 'V', make)]
    for n in (1, 2, 3, 4):
        r.append(ob('vector generation and rotation %d' % n, 'V', gen(n)))
        r.append(ob('identity %d' % n, 'U', ident(n)))
        r.append(ob('vector as row and column %d' % n, 'U', as_(n)))
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17):
        if n > 9 and tier != 'thorough':
            continue
        r.append(ob('rotation of %d entries by any int' % n, 'V' if n < 5 else 'L', rot(n), domain=ShiftDomain, cuts=lambda n=n: {'rotation_shift': Shift(n)}, backend='induction (z3)', trials=16))
    for m, n in ((1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (1, 4), (2, 4), (3, 4), (4, 4)):
        r.append(ob('vector slice %d of %d' % (m, n), 'V', sl(m, n)))
    for m, n in SHAPES:
        r.append(ob('vector concatenation %d and %d' % (m, n), 'V', cat(m, n)))
        r.append(ob('matrix utilities %dx%d' % (m, n), 'U', ut(m, n)))
    for s in ((1, 1, 1), (1, 2, 3), (2, 1, 2), (2, 2, 1), (3, 2, 2), (3, 1, 3), (2, 3, 3), (4, 2, 1)):
        r.append(ob('matrix concatenation %dx%d with %d columns' % s, 'U', mcat(*s)))
    for s in ((1, 1, 1, 1), (1, 1, 2, 3), (2, 1, 3, 2), (1, 2, 3, 3), (2, 2, 3, 4), (2, 3, 3, 4), (3, 2, 4, 3), (3, 3, 4, 4)):
        r.append(ob('submatrix %dx%d of %dx%d' % s, 'U', sub(*s)))
    for n in (5, 6, 7, 8, 9, 16, 17, 33):
        r.append(ob('vector generation and rotation %d' % n, 'L', gen(n)))
    for n in (5, 7, 8, 9, 17):
        r.append(ob('identity %d' % n, 'L', ident(n)))
        r.append(ob('vector as row and column %d' % n, 'L', as_(n)))
    for m, n in ((1, 5), (4, 5), (5, 8), (7, 9), (8, 17), (16, 17)):
        r.append(ob('vector slice %d of %d' % (m, n), 'L', sl(m, n)))
    for m, n in ((5, 3), (3, 5), (8, 9), (1, 16)):
        r.append(ob('vector concatenation %d and %d' % (m, n), 'L', cat(m, n)))
    for m, n in LARGE:
        r.append(ob('matrix utilities %dx%d' % (m, n), 'K', ut(m, n, True)))
    for s in ((5, 3, 5), (6, 7, 1), (8, 8, 9)):
        r.append(ob('matrix concatenation %dx%d with %d columns' % s, 'K', mcat(*s)))
    for s in ((4, 5, 5, 7), (5, 4, 8, 8), (1, 8, 8, 9)):
        r.append(ob('submatrix %dx%d of %dx%d' % s, 'K', sub(*s)))
    return r
