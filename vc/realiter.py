"""Partial correctness of the root iterations over the exact reals: the loop contracts say which numbers the iterates are (positive,
each one step after the other); where the loop ends, the power of the result is the argument.  Termination is not part of it."""
from .llvmir import Ptr
from .machine import Fail, Unsupported
from .poly import El
from . import poly
from .realdom import RealDomain


class IterDomain(RealDomain):
    exact = True


def dread(m, p):
    return m.domain.real(m.load(p, 8, 3))


class Heron:
    """the iterate is positive; args: x, est"""

    def __init__(s):
        s.x = None

    def check(s, m, a, rec):
        x, e = dread(m, a[0]), dread(m, a[1])
        if s.x is not None and not m.domain.facts.provably_zero(x - s.x):
            raise Fail('invariant', 'the argument changes')
        if m.domain.sign(e) <= 0:
            raise Fail('invariant', 'the iterate is not positive')

    def havoc(s, m, a):
        e = El(poly.newvar('est'))
        m.domain.signs.append((e.n, 1))
        m.store(a[1], 8, e)
        return e

    def owned(s, m, a):
        from props.C17 import owner
        return owner([(a[1], 8)])


class Newton:
    """args: x, n, older, prev, est; either the first value, or est is one step after prev and prev is positive (and the same for prev and older,
    unless prev is the first value)"""

    def __init__(s, n):
        s.n = n
        s.x = None

    def step(s, e, x):
        w = e
        for _ in range(s.n - 2):
            w = w * e
        if s.n == 1:
            return x
        iv = w.inv()
        return (e * El(s.n - 1) + x * iv) * El(s.n).inv()

    def check(s, m, a, rec):
        d = m.domain
        z = d.facts.provably_zero
        x, older, prev, e = dread(m, a[0]), dread(m, a[2]), dread(m, a[3]), dread(m, a[4])
        if not z(x - s.x) or m.load(a[1], 4) != s.n:
            raise Fail('invariant', 'the argument changes')
        if d.sign(e) <= 0:
            raise Fail('invariant', 'the iterate is not positive')
        if z(prev + El(1)):
            return
        if not z(e - s.step(prev, x)) or d.sign(prev) <= 0:
            raise Fail('invariant', 'not one step after the last one')

    def havoc(s, m, a):
        d = m.domain
        if d.facts.choose(2):
            p = El(poly.newvar('prev'))
            d.signs.append((p.n, 1))
            e = s.step(p, dread(m, a[0]))
            if d.sign(e) <= 0:
                raise Unsupported('sign of the iterate')
        else:
            p = El(-1)
            e = El(poly.newvar('est'))
            d.signs.append((e.n, 1))
        m.store(a[2], 8, El(poly.newvar('older')))
        m.store(a[3], 8, p)
        m.store(a[4], 8, e)
        return e

    def owned(s, m, a):
        from props.C17 import owner
        return owner([(p, 8) for p in a[2:5]])


def power_contract(m, args, name):
    """x to the n-th, n >= 0 (its contract is proved on its own)"""
    x, n = args[0], args[1]
    if x.__class__ is not El and not isinstance(x, float) or not isinstance(n, int):
        return NotImplemented
    n = n - 2 ** 32 if n >= 2 ** 31 else n
    x = m.domain.real(x)
    if n < 0:
        x = x.inv()
    w = El(1)
    for _ in range(abs(n)):
        w = w * x
    return w


def sqrt_contract(m, args, name):
    """requires x >= 0; ensures r >= 0 and r * r == x"""
    d = m.domain
    x = d.real(args[0])
    if d.sign(x) < 0:
        raise Fail('sqrt', 'square root of a negative number')
    if m.facts.is_zero(x):
        return El(0)
    r = El(poly.newvar('root'))
    m.facts.assume_zero(r * r - x)
    d.signs.append((r.n, 1))
    return r


class Extremum:
    """the running extremum of v[0..i): value == v[index], no v[j] with j < i is beyond it, and those with j < index are short of it;
    args: v, i, value, index"""

    def __init__(s, n, sign):
        s.n = n
        s.sign = sign       # 1: the greatest, -1: the least

    def check(s, m, a, rec):
        d = m.domain
        v = [dread(m, Ptr(a[0].o, a[0].off + 8 * k)) for k in range(s.n)]
        i, x, w = m.load(a[1], 8), dread(m, a[2]), m.load(a[3], 8)
        if not isinstance(i, int) or not isinstance(w, int):
            raise Unsupported('symbolic position')
        if rec is not None and i <= rec:
            raise Fail('variant', 'the position does not increase')
        if not 0 <= i < s.n or not 0 <= w < max(i, 1):
            raise Fail('invariant', 'the position is not valid')
        if not d.facts.provably_zero(x - v[w]):
            raise Fail('invariant', 'the value is not the one at the position')
        for j in range(i):
            t = x - v[j] if s.sign > 0 else v[j] - x
            if j != w and not d.surely(t, '>' if j < w else '>='):
                raise Fail('invariant', 'not the first extremum so far')

    def havoc(s, m, a):
        d = m.domain
        f = d.facts
        v = [dread(m, Ptr(a[0].o, a[0].off + 8 * k)) for k in range(s.n)]
        i = f.choose(s.n)
        w = f.choose(max(i, 1))
        for j in range(i):
            t = v[w] - v[j] if s.sign > 0 else v[j] - v[w]
            if j < w:
                k = t.n.lead_sign_normal()
                d.signs.append((k, 1 if k == t.n else -1))
            elif j > w:
                d.nonneg.append(t.n)
        m.store(a[1], 8, i)
        m.store(a[2], 8, v[w])
        m.store(a[3], 8, w)
        return i

    def owned(s, m, a):
        from props.C17 import owner
        return owner([(p, 8) for p in a[1:]])
