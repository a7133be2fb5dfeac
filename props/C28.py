"""Exclusive or of sequences."""
import z3
from vc.engine import Ob, TU
from vc.llvmir import Ptr
from vc.machine import SVal, Fail, Unsupported
from vc.loops import GroupDomain, OutArr, SymArr
from .C17 import owner
ASSUMPTIONS = ['the functions are templates over the element type: proved for elements whose operator^ is a symmetric polynomial; lengths up to 33']
_tu = []


def tu():
    if not _tu:
        _tu.append(TU('seqxor.cpp', [], name='seqxor'))
    return _tu[0]


def xor(a, b):
    s = a + b
    return a * b + s * s * s


def run(fn, n, any=False):
    def f(c):
        a, b = [c.var('a%d' % i) for i in range(n)], [c.var('b%d' % i) for i in range(n)]
        it = fn.startswith('it')
        k, ii = ('n', [n]) if any else (n, [])
        o = [c.var('o%d' % i) for i in range(n + it)]
        w = [xor(x, y) for x, y in zip(a, b)]
        if fn == 'in':
            r, io = c.call('h_in_%s' % k, a + b, ii, nout=4 * n, niout=2)
            for i, nm in enumerate(('iterators, over the first operand', 'iterators, over the second operand', 'range, over the first operand', 'range, over the second operand')):
                c.require_eq(nm, r[i * n:(i + 1) * n], w)
            c.require_true('end of the output', list(io) == [n, n])
            return
        r, io = c.call('h_%s_%s' % (fn, k), a + b + o, ii, nout=n + it, niout=it)
        c.require_eq('element', r[:n], w)
        if it:
            c.require('behind the output', r[n] - o[n])
            c.require_true('end of the output', io[0] == n)
    return f


# ---- ranges of any length
class Elem(SVal):
    """element t of an operand, or the exclusive or of two elements"""
    __slots__ = ('k', 't')

    def __init__(s, k, t):
        s.k, s.t = k, t

    def __repr__(s):
        return '%s[%s]' % (s.k, s.t) if s.k != '^' else '(%r ^ %r)' % s.t


def same(d, x, y):
    if x.__class__ is not Elem or y.__class__ is not Elem or x.k != y.k:
        return False
    if x.k != '^':
        return d.entails(x.t == y.t)
    return all(same(d, p, q) for p, q in zip(x.t, y.t)) or all(same(d, p, q) for p, q in zip(x.t, reversed(y.t)))


def h_xor(m, a, name):
    if a[0].__class__ is not Elem or a[1].__class__ is not Elem:
        raise Unsupported('exclusive or of %r and %r' % (a[0], a[1]))
    return Elem('^', (a[0], a[1]))


class Prefix:
    """head of the loop: both operands are at element i, the output too, and the output before i is done"""

    def at(s, m, a):
        d = m.domain
        p = [m.load(x, 8) for x in a]
        if any(x.__class__ is not Ptr for x in p) or [x.o for x in p] != d.xs:
            raise Unsupported('the iterators do not walk over the operands and the output')
        k = [d.split(x.off, 8) for x in p]
        if any(r for _, r in k) or not d.entails(z3.And(k[0][0] == k[1][0], k[0][0] == k[2][0])):
            raise Fail('invariant', 'elements %s, %s and %s of the operands and the output meet' % tuple(q for q, _ in k))
        return k[0][0]

    def check(s, m, a, rec):
        d = m.domain
        i = s.at(m, a)
        if rec is not None and not d.entails(i == rec['i'] + 1):
            raise Unsupported('the operands are not taken one after the other')
        o = d.xs[2]
        o.advance(d, lambda x, y: same(d, x, y))
        if not d.entails(o.front == i):
            raise Fail('invariant', 'the output is done up to %s, not %s' % (o.front, i))

    def havoc(s, m, a):
        d = m.domain
        if not d.entails(s.at(m, a) == 0):
            raise Unsupported('the operands are not taken from the first on')
        i = z3.Int('i%d' % d.fresh())
        d.assume(z3.And(i >= 0, i < d.xs[0].len))
        d.xs[2].front = i
        for x, o in zip(a, d.xs):
            m.store(x, 8, Ptr(o, z3.simplify(8 * i)))
        return {'i': i}

    def owned(s, m, a):
        return owner([(x, 8) for x in a])


def anylen(fn, over):
    def f(c):
        if c.concrete:
            return run('it' if fn == 'h_any_it' and over is None else 'in' if over is not None else 'vec', c.choose((9, 40, 400)[c.choose(3)], 'elements') + 1, True)(c)
        d = c.domain
        c.machine.begin(c.facts, d)
        c.machine_begun = True
        n = z3.Int('len')
        d.assume(z3.And(n >= 0, n < 1 << 40))
        src = lambda k: lambda q, r, sz: Elem(k, q)
        new = lambda q, r, sz: Elem('^', (Elem('a', q), Elem('b', q)))
        o = OutArr('the output', 8, n, src('ab'[over] if over is not None else 'o'), new)
        x = [SymArr('the first operand', 8, n, src('a')), SymArr('the second operand', 8, n, src('b'))]
        if over is not None:
            x[over] = o
        d.xs = x + [o]
        ends = [p for y in d.xs for p in (Ptr(y, 0), Ptr(y, z3.simplify(8 * n)))]
        _, io = c.call(fn, [], ends, niout=fn == 'h_any_it')
        o.advance(d, lambda p, q: same(d, p, q))
        c.require_true('every element of the output is written', d.entails(o.front == n))
        if fn == 'h_any_it':
            c.require_true('end of the output', io[0].__class__ is Ptr and io[0].o is o and d.entails(io[0].off == 8 * n))
    return f


def obligations(tier):
    L = []
    for fn, nm in (('h_any_it', 'iterators'), ('h_any_range', 'ranges')):
        for over, w in ((None, ''), (0, ', over the first operand'), (1, ', over the second operand')):
            L.append(Ob('%s, any number of elements%s' % (nm, w), tu(), anylen(fn, over), domain=GroupDomain, hooks=[(r'^vch_xor$', h_xor)], cuts=lambda: {'xor_prefix': Prefix()},
                        confirm=True, backend='z3', trials=60))
    for n in (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33):
        for fn, nm in (('arr', 'arrays'), ('vec', 'vectors'), ('mix', 'deques into a vector'), ('it', 'iterators'), ('itm', 'iterators of different kinds'), ('in', 'in place')):
            if not n and fn in ('arr', 'vec', 'mix'):
                continue
            L.append(Ob('%s, %d elements' % (nm, n), tu(), run(fn, n), trials=20, bounded='lengths up to 33'))
    return L
