"""The multiplicative group of a finite field around square roots.  Elements are products of powers of named elements; the odd part
of the group order is t, the even part 2^s, z0 = nqr^t.  Every element of the cyclic 2-part is an odd power of z0^(2^k), 0 <= k <= s
(k = s: one); for the named elements of that part k is known as a term.  The argument is a square: a^t has k >= 1."""
import z3
from .llvmir import Ptr
from .poly import El, Poly
from .domain import FieldDomain
from .machine import Fail, Unsupported
from .loops import GroupDomain, GVal, GPart, SInt, isz
from .grouphooks import multiplicative, FD


class RootDomain(GroupDomain):
    multiplicative = True

    def setup(s, rank, S, h):
        s.rank = rank
        s.S = S                # 2-adicity of the group order
        s.h = h                # (t - 1) / 2
        s.k = {}               # element of the 2-part -> k
        s.sq = {}              # x with x * x = a * product of these

    def named(s, name, k):
        s.k[name] = k
        return GVal({name: 1})

    def twopart(s, g):
        """the element as a product of elements of the 2-part (a^t: written u), or None"""
        c = {x: v for x, v in g.c.items() if not s.entails(v == 0)}
        if 'a' in c:
            v = c.pop('a')
            if not s.entails(v == 2 * s.h + 1):
                return None
            c['u'] = c.get('u', 0) + 1
        return c if all(x in s.k and v.__class__ is int for x, v in c.items()) else None

    def height(s, c):
        """k of a product of the 2-part"""
        key = tuple(sorted(c.items()))
        if key in s.hs:
            return s.hs[key]
        r = None
        for x, v in sorted(c.items()):
            if not v:
                continue
            e = s.k[x] + ((v & -v).bit_length() - 1)
            if r is None:
                r = e
            elif s.decide(r == e):         # two odd multiples add up to an even one
                t = z3.Int('k%d' % s.fresh())
                s.assume(z3.And(t >= r + 1, t <= z3.If(r + 1 > s.S, r + 1, s.S)))
                r = t
            else:
                r = r if s.decide(r < e) else e
        s.hs[key] = s.S if r is None else r
        return s.hs[key]

    @property
    def hs(s):
        return s.__dict__.setdefault('_hs', {})

    def is_one(s, g):
        c = s.twopart(g)
        if c is None:
            if s.geq(g, GVal({})):
                return 1
            e = g.c.get('a')
            if s.tests is not None and set(g.c) == {'a'}:      # a power of the argument: either way
                for v, r in s.tests:
                    if s.entails(v == e):
                        return r
                r = 1 if s.facts.choose(2) == 0 else 0
                s.tests.append((e, r))
                s.facts.hyps.append(('one' if r else 'not one', repr(g)))
                return r
            raise Unsupported('is %r one?' % (g,))
        return int(s.decide(s.height(c) >= s.S))

    tests = None

    def from_hook(s, v, q):
        if q is not None or v.__class__ is not GPart:
            raise Unsupported('conversion to residue')
        return v

    def main_pow(s, u, e):
        if u.__class__ is GPart:
            return GPart(s.gscale(u.g, s.int(e)), 0, 1)
        c = u if u.__class__ is int else u.n.cval() if u.__class__ is El and u.n.is_const() and not u.den else None
        if c == 0 and s.entails(s.int(e) > 0):
            return El(Poly.const(0))
        return None

    def root(s, g):
        """g * g with x * x = a * (...) replaced"""
        c = {x: v * 2 for x, v in g.c.items()}
        for x, r in s.sq.items():
            if x in c:
                n = c.pop(x)
                if n != 2:
                    return None
                for y, v in r.items():
                    c[y] = c.get(y, 0) + v
        return GVal({x: (z3.simplify(v) if isz(v) else v) for x, v in c.items()})


class SquareDomain(FieldDomain):
    """the prime field with the library's square root: of a named square, either root"""

    def sqrt_hook(s, u):
        for x in s.roots:
            if s.facts.provably_zero(u - x * x):
                return x if s.facts.choose(2) == 0 else -x
        raise Unsupported('square root of an element not known to be a square')


def coords(d, m, p, n):
    return [d.get(Ptr(p.o, p.off + 16 * i), 1) for i in range(n)]


def pwr_hook(n):
    def h(m, args, name):
        if n == 1:
            return NotImplemented
        d = m.domain
        out, x, e = args
        if e.__class__ is not Ptr:
            return NotImplemented
        vs = coords(d, m, x, n)
        ev = d.get(e, 1)
        if ev.__class__ is not SInt:
            return NotImplemented
        if vs[0].__class__ is GPart:
            d.gwrite(m, out, n, d.gscale(d.glookup(vs), ev.t))
        elif all(v.__class__ is El and v.n.is_const() and not v.den and v.n.cval() == 0 for v in vs):
            if not d.entails(ev.t > 0):
                raise Unsupported('zero to the zero')
            for i in range(n):
                d.put(Ptr(out.o, out.off + 16 * i), 1, vs[i])
        else:
            return NotImplemented
    return h


def cmp_hook(n, neg=False):
    """==, != with one or zero"""
    def h(m, args, name):
        d = m.domain
        a, b = [coords(d, m, p if p.o.__class__ is not str else Ptr(m.gobj(p.o), p.off), n) for p in args]
        ga, gb = a[0].__class__ is GPart, b[0].__class__ is GPart
        if not ga and not gb:
            return NotImplemented
        if not ga:
            a, b, ga, gb = b, a, gb, ga
        g = d.glookup(a)
        if gb:
            o = d.glookup(b)
            r = d.is_one(GVal({x: v for x, v in d.gadd(g, o, -1).c.items()}))
        else:
            c = []
            for v in b:
                v = v if v.__class__ is int else v.n.cval() if v.__class__ is El and v.n.is_const() and not v.den else None
                c.append(v)
            if c == [0] * n:
                r = 0           # elements of the group
            elif c == [1] + [0] * (n - 1):
                r = d.is_one(g)
            else:
                raise Unsupported('comparison with a constant')
        return (1 - r) if neg else r
    return h


def hooks(cls, n):
    C = r'^' + FD + cls + r'<[^()]*>::'
    T = FD + cls + r'<[^()]*> const&'
    H = [(C + r'operator==\(' + T + r'\) const$', cmp_hook(n)), (C + r'operator!=\(' + T + r'\) const$', cmp_hook(n, True))]
    if n > 1:
        H += multiplicative(cls, n, inv=True, tests=False) + [(r'^(?:' + FD + cls + r'<[^()]*> )?' + C[1:] + r'pow<', pwr_hook(n))]
    return H


# ---- Tonelli-Shanks: the invariants written in the code
def sint(d, m, p, w=8):
    return d.term(m.load(p, w), 8 * w)


class Outer:
    """x * x = a * b, z has order 2^v, b is not one and has order less than 2^v"""

    def __init__(s, n):
        s.n = n

    def check(s, m, a, rec):
        d = m.domain
        x, b, z = [d.gread(m, p, s.n) for p in a[:3]]
        v = sint(d, m, a[3])
        sq = d.root(x)
        if sq is None or not d.geq(sq, GVal({**b.c, 'a': b.c.get('a', 0) + 1})):
            raise Fail('invariant', 'x = %r, b = %r' % (x, b))
        cz, cb = d.twopart(z), d.twopart(b)
        if cz is None or cb is None:
            raise Fail('invariant', 'z = %r, b = %r' % (z, b))
        if not d.entails(z3.And(v >= 1, v <= d.S, d.height(cz) == d.S - v)):
            raise Fail('invariant', 'the order of z is not 2^v')
        if not d.entails(d.height(cb) >= d.S - v + 1):
            raise Fail('invariant', 'the order of b is not less than the one of z')
        if rec is not None and not d.entails(v < rec['v']):
            raise Fail('variant', 'the order of z does not decrease')

    def havoc(s, m, a):
        d = m.domain
        i = d.fresh()
        v, k = z3.Int('v%d' % i), z3.Int('k%d' % i)
        d.assume(z3.And(v >= 1, v <= d.S, k >= d.S - v + 1, k < d.S))
        X, B, Z = 'x%d' % i, 'b%d' % i, 'z%d' % i
        d.k[B], d.k[Z] = k, z3.simplify(d.S - v)
        d.sq[X] = {'a': 1, B: 1}
        for p, g in zip(a, (X, B, Z)):
            d.gwrite(m, p, s.n, GVal({g: 1}))
        m.store(a[3], 8, d.zi(v))
        return {'v': v, 'b': B, 'z': Z, 'k': k}

    def owned(s, m, a):
        from props.C17 import owner
        return owner([(p, 16 * s.n) for p in a[:3]] + [(a[3], 8)])


class Order:
    """b2m = b^(2^m), not one"""

    def __init__(s, n):
        s.n = n

    def check(s, m, a, rec):
        d = m.domain
        g = d.twopart(d.gread(m, a[0], s.n))
        i = sint(d, m, a[1])
        if g is None:
            raise Fail('invariant', 'b2m is not in the 2-part')
        if rec is None:
            if not d.entails(i == 0):
                raise Unsupported('m does not start with 0')
            d.base = g
            return
        if not d.entails(i == rec['m'] + 1):
            raise Fail('invariant', 'm is not the number of squarings')
        if g != {rec['g']: 2}:
            raise Fail('invariant', 'b2m is not b^(2^m)')

    def havoc(s, m, a):
        d = m.domain
        i = d.fresh()
        n, k = z3.Int('m%d' % i), d.height(d.base)
        d.assume(z3.And(n >= 0, k + n < d.S))
        d.k['y%d' % i] = z3.simplify(k + n)
        d.gwrite(m, a[0], s.n, GVal({'y%d' % i: 1}))
        m.store(a[1], 8, d.zi(n))
        return {'m': n, 'g': 'y%d' % i}

    def owned(s, m, a):
        from props.C17 import owner
        return owner([(a[0], 16 * s.n), (a[1], 8)])


class Root:
    """w = z^(2^(j0 - j)), j0 the first value of j"""

    def __init__(s, n):
        s.n = n

    def check(s, m, a, rec):
        d = m.domain
        w = d.twopart(d.gread(m, a[0], s.n))
        j = sint(d, m, a[1], 4)
        if w is None:
            raise Fail('invariant', 'w is not in the 2-part')
        if rec is None:
            d.rbase = (w, j)
            return
        if not d.entails(j == rec['j'] - 1) or w != {rec['g']: 2}:
            raise Fail('invariant', 'w is not z^(2^(v - m - 1 - j))')

    def havoc(s, m, a):
        d = m.domain
        w0, j0 = d.rbase
        i = d.fresh()
        j = z3.Int('j%d' % i)
        d.assume(z3.And(j > 0, j <= j0))
        d.k['w%d' % i] = z3.simplify(d.height(w0) + j0 - j)
        d.gwrite(m, a[0], s.n, GVal({'w%d' % i: 1}))
        m.store(a[1], 4, d.zi(j, 32))
        return {'j': j, 'g': 'w%d' % i}

    def owned(s, m, a):
        from props.C17 import owner
        return owner([(a[0], 16 * s.n), (a[1], 4)])


def invariants(n):
    return lambda: {'tonelli_shanks': Outer(n), 'tonelli_shanks_order': Order(n), 'tonelli_shanks_root': Root(n)}
