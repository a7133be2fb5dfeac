"""Powers of one real number: floating point values are powers of the base with integer exponents (terms decided by z3), or
integers held in floating point variables.  Products add exponents; the reciprocal negates them."""
import z3
from .machine import SVal, Unsupported, Fail, sgn
from .loops import GroupDomain, GVal, GPart, ZI, isz


class RInt(SVal):
    """an integer (term) as a floating point number"""
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = t


class RealPow(GroupDomain):
    def entails(s, c):
        if GroupDomain.entails(s, c):
            return True
        if isinstance(c, bool):
            return False
        z = z3.Solver()         # products of terms: preprocessing is better without the incremental mode
        z.set('timeout', 10000)
        z.add(*s.cs)
        z.add(z3.Not(c))
        return z.check() == z3.unsat

    def real(s, v):
        r = s.pw(v)
        if r is None:
            raise Unsupported('the result is not a power of the base')
        return GPart(r, 0, 1)

    def pw(s, v):
        if v.__class__ is GPart:
            return v.g
        if v.__class__ is float and v == 1:
            return GVal({})
        return None

    def num(s, v):
        return v.t if v.__class__ is RInt else int(v) if v.__class__ is float and v == int(v) and abs(v) < 2 ** 53 else None

    def rint(s, t):
        if isz(t):
            if not s.entails(z3.And(t < 2 ** 53, t > -2 ** 53)):
                raise Unsupported('integer outside the exact range of double')
            return RInt(t)
        return float(t)

    def fbin(s, op, xs):
        if op == 'fneg':
            n = s.num(xs[0])
            if n is None:
                raise Unsupported('negated power')
            return s.rint(-n)
        a, b = xs[0], xs[1]
        if a.__class__ is GPart or b.__class__ is GPart:
            u, v = s.pw(a), s.pw(b)
            if u is None or v is None or op not in ('fmul', 'fdiv'):
                raise Unsupported('%s of a power of the base' % op)
            return GPart(s.gadd(u, v, 1 if op == 'fmul' else -1), 0, 1)
        u, v = s.num(a), s.num(b)
        if u is None or v is None:
            raise Unsupported('floating point operation')
        if op in ('fadd', 'fsub'):
            return s.rint(u + v if op == 'fadd' else u - v)
        if op == 'fmul' and (not isz(u) or not isz(v)):
            return s.rint(u * v)
        if op == 'fdiv' and not isz(v) and v > 0:
            q = z3.Int('q%d' % s.fresh())
            r = z3.Int('r%d' % s.fresh())
            s.assume(z3.And(u == v * q + r, r >= 0, r < v))
            if s.decide(r == 0):
                return s.rint(q)
            if v == 2:
                return Half(s.rint(q))
        raise Unsupported('floating point ' + op)

    def fcmp(s, pr, a, b):
        u, v = s.num(a), s.num(b)
        if u is None or v is None:
            raise Unsupported('comparison of powers of the base')
        t = pr[1:]
        return s.zb({'eq': u == v, 'ne': u != v, 'gt': u > v, 'ge': u >= v, 'lt': u < v, 'le': u <= v}[t])

    def cast(s, op, x, wi, wo):
        if op in ('sitofp', 'uitofp') and x.__class__ is ZI:
            t = x.t if op == 'sitofp' else s.uns(x.t, wi)
            if wo == -32 and not s.entails(z3.And(t <= 2 ** 24, t >= -2 ** 24)):
                raise Unsupported('integer outside the exact range of float')
            return s.rint(t)
        if op in ('fptosi', 'fptoui'):
            if x.__class__ is RInt:
                return s.bound(x.t, wo)
            if x.__class__ is Half:         # rounds towards zero
                n = s.num(x.n)
                return s.zi(n if not isz(n) or s.decide(n >= 0) else n + 1, wo)
        if op == 'fptrunc' and x.__class__ in (RInt, Half):
            raise Unsupported('single precision')
        return GroupDomain.cast(s, op, x, wi, wo)


class Half(SVal):
    """n + 1/2"""
    __slots__ = ('n',)

    def __init__(s, n):
        s.n = n


class PowerLoop:
    """y * x^k is the power asked for, k >= 2 decreases"""

    def __init__(s, want):
        s.want = want           # exponent of the base

    def exps(s, m, a):
        d = m.domain
        r = []
        for p in a[:2]:
            g = d.pw(m.load(p, 8, 3))
            if g is None or set(g.c) - {'x'}:
                raise Unsupported('not a power of the base')
            r.append(g.c.get('x', 0))
        return r + [d.term(m.load(a[2], 8))]

    def check(s, m, a, rec):
        d = m.domain
        e, f, k = s.exps(m, a)
        w = d.scalar['want']
        if not d.entails(e * k + f == w):
            raise Fail('invariant', 'y * x^k is not the power asked for')
        if not d.entails(k >= 2 if isz(k) else z3.BoolVal(k >= 2)):
            raise Fail('invariant', 'k is not above 1')
        if rec is not None and not d.entails(k < rec['k']):
            raise Fail('variant', 'k does not decrease')

    def havoc(s, m, a):
        d = m.domain
        i = d.fresh()
        e, f, k = z3.Int('e%d' % i), z3.Int('f%d' % i), z3.Int('k%d' % i)
        d.assume(z3.And(k >= 2, k <= 2 ** 31, e * k + f == d.scalar['want']))
        m.store(a[0], 8, GPart(GVal({'x': e}), 0, 1))
        m.store(a[1], 8, GPart(GVal({'x': f}), 0, 1))
        m.store(a[2], 8, d.zi(k))
        return {'k': k}

    def owned(s, m, a):
        from props.C17 import owner
        return owner([(p, 8) for p in a])


class ShiftDomain(GroupDomain):
    """entries of vectors are opaque, the shift is an integer term"""

    def real(s, v):
        return s.el(v)


class Shift:
    """n is congruent to the shift modulo N, negative and grows"""

    def __init__(s, n):
        s.n = n

    def check(s, m, a, rec):
        d = m.domain
        t = d.term(m.load(a[0], 4), 32)
        if not isz(t):
            raise Unsupported('concrete shift')
        if not d.entails((t - d.scalar['shift']) % s.n == 0):
            raise Fail('invariant', 'n is not congruent to the shift')
        if not d.entails(t < 0):
            raise Fail('invariant', 'n is not negative')
        if rec is not None and not d.entails(t > rec):
            raise Fail('variant', 'n does not grow')

    def havoc(s, m, a):
        d = m.domain
        t, q = z3.Int('n%d' % d.fresh()), z3.Int('q%d' % d.fresh())
        d.assume(z3.And(t < 0, t >= -2 ** 31, t == d.scalar['shift'] + s.n * q))
        m.store(a[0], 4, d.zi(t, 32))
        return t

    def owned(s, m, a):
        from props.C17 import owner
        return owner([(a[0], 4)])
