"""Hash-to-curve maps land on the curve deterministically."""
from vc.engine import Ob, TU, Refuted
from vc.machine import Unsupported, Fail
from vc.poly import El, Poly, newvar
from vc.llvmir import Ptr
from vc.codec import PointDomain, point_hooks
from .C19 import mul, add, neg, cinv, csqrt, P
from . import h2c_tables as T

ASSUMPTIONS = ['the headers h2c_suites.hpp and h2c_sgn0.hpp, which the repository includes but does not contain, are stood in for by the constants and sgn0 of RFC 9380',
               'the inverse of zero is zero, as the library computes it (the maps rely on it)',
               'is_square and square roots by contract (C06); products of two elements that are not squares are squares',
               'the suite satisfies the conditions of RFC 9380, 6.6.2: Z is not a square, g(B/(ZA)) is a square']
TUH = TU('h2c.cpp', [], name='h2c')
A1 = 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d
B1 = 0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0
SUITE = {1: ([A1], [B1], [11]), 2: ([0, 240], [1012, 1012], [-2, -1])}
LEAD = {1: ([0x6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229],
            [0x15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604]),
        2: ([0x171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1, 0],
            [0x124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10, 0])}


def g(x, A, B):
    return add(add(mul(x, mul(x, x)), mul(A, x)), B)


# polynomials over Fp or Fp2, lowest degree first
def pmul(a, b):
    n = len(a[0])
    r = [[0] * n for _ in range(len(a) + len(b) - 1)]
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = [(u + v) % P for u, v in zip(r[i + j], mul(x, y))]
    return r


def padd(a, b):
    n = len(a[0])
    z = [0] * n
    return [[(u + v) % P for u, v in zip(a[i] if i < len(a) else z, b[i] if i < len(b) else z)] for i in range(max(len(a), len(b)))]


def table(n):
    one = [[1, 0][:n]]
    return [getattr(T, 'X_NUM%d' % n), getattr(T, 'X_DEN%d' % n) + one, getattr(T, 'Y_NUM%d' % n), getattr(T, 'Y_DEN%d' % n) + one]


def is_isogeny(n):
    """(x_num/x_den, y y_num/y_den) maps y^2 = x^3 + A x + B to y^2 = x^3 + 4 (4 + 4u); degree 11 (3); leading coefficients as published"""
    xn, xd, yn, yd = table(n)
    A, B, _ = SUITE[n]
    one = [1, 0][:n]
    b = [4, 4][:n]
    l = pmul(pmul(pmul(yn, yn), [B, A, [0] * n, one]), pmul(xd, pmul(xd, xd)))
    r = pmul(padd(pmul(xn, pmul(xn, xn)), pmul([b], pmul(xd, pmul(xd, xd)))), pmul(yd, yd))
    return padd(l, pmul([[P - 1, 0][:n]], r)) == [[0] * n] * max(len(l), len(r)) and len(xn) == len(xd) + 1 == {1: 12, 2: 4}[n] and (xn[-1], yn[-1]) == LEAD[n]


def ev(c, t, x):
    """value of a polynomial at x"""
    r = [c.const(0)] * len(x)
    for k in reversed(t):
        r = add(mul(r, x), [c.const(v) for v in k])
    return r


def vec(c, name, n):
    return [c.var('%s%d' % (name, i)) for i in range(n)]


def norm(a):
    return a[0] if len(a) == 1 else a[0] * a[0] + a[1] * a[1]


def zero(c, a):
    r = all([c.is_zero(t) for t in a])
    if not r:
        c.assume_nonzero(norm(a))
    return r


def inv(a):
    k = norm(a).inv()
    return [k] if len(a) == 1 else [a[0] * k, -(a[1] * k)]


def ints(c, a):
    return [c.cv(t) for t in a]


def isomap(n):
    def f(c):
        x, y = vec(c, 'x', n), vec(c, 'y', n)
        if c.concrete and c.choose(2, 'kernel') == 0:
            r = kernel(n)
            x = [c.const(v) for v in r[c.choose(len(r), 'root')]]
        xn, xd, yn, yd = [ev(c, t, x) for t in table(n)]
        if c.concrete:
            inf = not any(ints(c, xd)) or not any(ints(c, yd))
        else:
            inf = zero(c, xd) or zero(c, yd)
        o, _ = c.call('h_iso_g%d' % n, x + y, [], nout=3 * n)
        X, Y, Z = o[:n], o[n:2 * n], o[2 * n:]
        c.require_true('the published map is an isogeny onto the curve', is_isogeny(n))
        if inf:
            c.require_eq('kernel goes to infinity', Z, [c.const(0)] * n)
            return
        c.require_eq('Z', Z, [c.const(1), c.const(0)][:n])
        c.require_eq('X', mul(X, xd), xn)
        c.require_eq('Y', mul(Y, yd), mul(y, yn))
    return f


_kernel = {}


def kernel(n):
    """x of the kernel: roots of x_den"""
    if n not in _kernel:
        d = table(n)[1]
        if n == 2:           # (x - r)^2
            _kernel[2] = [[v * pow(-2, -1, P) % P for v in d[1]]]
        else:
            _kernel[1] = roots([v[0] for v in d])
    return _kernel[n]


def roots(d):
    import random
    rng = random.Random(1)

    def trim(a):
        while a and a[-1] % P == 0:
            a.pop()
        return a

    def rem(a, b):
        a = a[:]
        ib = pow(b[-1], -1, P)
        while len(a) >= len(b):
            q = a[-1] * ib % P
            o = len(a) - len(b)
            for i, v in enumerate(b):
                a[o + i] = (a[o + i] - q * v) % P
            a.pop()
        return trim(a)

    def gcd(a, b):
        while b:
            a, b = b, rem(a, b)
        i = pow(a[-1], -1, P)
        return [v * i % P for v in a]

    def pm(a, b, m):
        r = [0] * max(0, len(a) + len(b) - 1)
        for i, u in enumerate(a):
            for j, v in enumerate(b):
                r[i + j] = (r[i + j] + u * v) % P
        return rem(r, m)

    def power(a, e, m):
        r = [1]
        for bit in bin(e)[2:]:
            r = pm(r, r, m)
            if bit == '1':
                r = pm(r, a, m)
        return r

    def minus(a, b):
        k = max(len(a), len(b))
        return trim([((a[i] if i < len(a) else 0) - (b[i] if i < len(b) else 0)) % P for i in range(k)])
    d = gcd(d, minus(power([0, 1], P, d), [0, 1]))
    out = []
    todo = [d]
    while todo:
        h = todo.pop()
        if len(h) == 2:
            out.append([-h[0] * pow(h[1], -1, P) % P])
        elif len(h) > 2:
            s = gcd(h, minus(power([rng.randrange(P), 1], (P - 1) // 2, h), [1]) or h)
            if len(s) in (1, len(h)):
                todo.append(h)
            else:
                q = []
                a = h[:]
                while len(a) >= len(s):
                    t = a[-1] * pow(s[-1], -1, P) % P
                    q.append(t)
                    o = len(a) - len(s)
                    for i, v in enumerate(s):
                        a[o + i] = (a[o + i] - t * v) % P
                    a.pop()
                todo += [s, list(reversed(q))]
    return sorted(out)


class H2CDomain(PointDomain):
    def __init__(s, *a, **k):
        PointDomain.__init__(s, *a, **k)
        s.parities = []
        s.hints = []
        s.fired = False

    def int_bit(s, v, i, n):
        from vc.domain import Lift
        if v.__class__ is Lift:
            v = v.e
        if v.__class__ is El and i == 0:
            return s.parity(v)
        raise Unsupported('bit of a residue')

    def parity(s, e):
        if s.facts.is_zero(e):
            return 0
        for x, r in s.parities:
            if s.facts.provably_zero(x - e):
                return r
            if s.facts.provably_zero(x + e):
                return 1 - r
        r = 1 if s.facts.choose(2) == 0 else 0
        s.parities.append((e, r))
        s.facts.hyps.append(('odd' if r else 'even', repr(e)[:200]))
        return r

    def is_square(s, cs):
        """zero is set apart in the prime field only: elsewhere the claims hold for either outcome"""
        for w in s.hints:
            for x, rx in s.squares:
                for z, rz in s.squares:
                    if x is not z and rx == rz == 0 and all(s.facts.provably_zero(a - b) for a, b in zip(cs, mul(mul(x, z), mul(w, w)))):
                        return 1
        for x, r in s.squares:
            if all(s.facts.provably_zero(a - b) for a, b in zip(x, cs)):
                return r
        if len(cs) == 1 and s.facts.is_zero(cs[0]):
            return 1
        r = 1 if s.facts.choose(2) == 0 else 0
        s.squares.append((list(cs), r))
        s.facts.hyps.append(('square' if r else 'not a square', repr(cs)[:200]))
        return r

    def root(s, cs):
        """either root of a square; that its square is the argument is kept as a pair, not as equations"""
        for x, y in s.roots:
            if all(s.facts.provably_zero(a - b) for a, b in zip(x, cs)):
                return list(y) if s.facts.choose(2) == 0 else [-t for t in y]
        if not s.is_square(cs):
            raise Fail('sqrt', 'square root of an element that is not a square')
        if len(cs) == 1 and s.facts.is_zero(cs[0]):
            return [El(Poly.const(0))]
        y = [El(newvar('r%d_%d' % (len(s.roots), i))) for i in range(len(cs))]
        if len(cs) == 1:
            s.facts.assume_nonzero(y[0])
        s.add_root(cs, y)
        return y

    def square_of(s, y):
        for x, r in s.roots:
            for k in (1, -1):
                if all(s.facts.provably_zero(a - b * El(Poly.const(k))) for a, b in zip(y, r)):
                    return x
        return None


def sgn0(c, a):
    for t in a:
        if not c.is_zero(t):
            return c.domain.parity(t)
    return 0


def swu(fn, n, const=None):
    """the simplified SWU map of RFC 9380, 6.6.2"""
    def conc(c, A, B, Z, u):
        p = c.prime
        m = lambda a: [t % p for t in a]
        if n == 1:
            iv = lambda a: [pow(a[0], -1, p)]
            sq = lambda a: a[0] % p == 0 or pow(a[0], (p - 1) // 2, p) == 1
        else:
            iv = cinv
            sq = lambda a: csqrt(a) is not None
        t = m(add(mul(mul(Z, Z), mul(mul(u, u), mul(u, u))), mul(Z, mul(u, u))))
        x1 = m(mul(neg(mul(B, iv(A))), add([1, 0][:n], iv(t)))) if any(t) else m(mul(B, iv(m(mul(Z, A)))))
        x = x1 if sq(g(x1, A, B)) else m(mul(mul(Z, mul(u, u)), x1))
        return x, m(g(x, A, B))

    def f(c):
        if const:
            A, B, Z = [[c.const(v) for v in k] for k in const]
        else:
            A, B, Z = vec(c, 'A', 1), vec(c, 'B', 1), vec(c, 'Z', 1)
            if c.concrete:
                p = c.prime
                ch = lambda v: pow(v, (p - 1) // 2, p)
                for _ in range(400):
                    a, b, z = [c.rng.randrange(1, p) for _ in range(3)]
                    if ch(z) == p - 1 and z != p - 1 and ch(g([b * pow(z * a, -1, p)], [a], [b])[0] % p) in (0, 1):
                        break
                else:
                    c.require_true('no suite', True)
                    return
                A, B, Z = [[c.const(v)] for v in (a, b, z)]
                c.sym(5, c.const((p - 1) // 2))
            for i, v in ((6, A), (7, B), (8, Z)):
                c.assume_nonzero(v[0]) if not c.concrete else None
                c.sym(i, v[0])
        u = vec(c, 'u', n)
        if c.concrete:
            o, _ = c.call(fn, u, [], nout=3 * n)
            v = [ints(c, o[i * n:i * n + n]) for i in range(3)]
            x, y2 = conc(c, ints(c, A), ints(c, B), ints(c, Z), ints(c, u))
            c.require_true('X', v[0] == x)
            c.require_true('on the curve', [(s - t) % c.prime for s, t in zip(mul(v[1], v[1]), y2)] == [0] * n)
            sg = lambda a: next((t & 1 for t in a if t), 0)
            c.require_true('sign of Y', not any(v[1]) or sg(v[1]) == sg(ints(c, u)))
            c.require_true('Z', v[2] == [1, 0][:n])
            return
        d = c.domain
        u2 = mul(u, u)
        Zu2 = mul(Z, u2)
        t = add(mul(Zu2, Zu2), Zu2)
        exc = zero(c, t)
        d.squares.append((Z, 0))
        x0 = mul(B, inv(mul(Z, A)))
        d.squares.append((g(x0, A, B), 1))
        x1 = x0 if exc else mul(neg(mul(B, inv(A))), add([c.const(1), c.const(0)][:n], inv(t)))
        d.hints.append(mul(Zu2, u))
        o, _ = c.call(fn, u, [], nout=3 * n)
        X, Y, W = o[:n], o[n:2 * n], o[2 * n:]
        c.require_eq('Z', W, [c.const(1), c.const(0)][:n])
        first = d.is_square(g(x1, A, B))
        x = x1 if first else mul(Zu2, x1)
        c.require_eq('X', X, x)
        s = d.square_of(Y)
        if s is None and all([d.facts.provably_zero(a) for a in Y]):
            s = [c.const(0)] * n
        c.require_true('Y is a square root', s is not None)
        c.require_eq('on the curve', s, g(x, A, B))
        c.require_true('sign of Y', all([c.is_zero(a) for a in Y]) or sgn0(c, Y) == sgn0(c, u))
    return f


def mapped(n):
    """the composition"""
    def f(c):
        u = vec(c, 'u', n)
        if c.concrete:
            o, _ = c.call('h_map_g%d' % n, u, [], nout=3 * n)
            w, _ = c.call('h_swu_g%d' % n, u, [], nout=3 * n)
            xn, xd, yn, yd = [ev(c, t, w[:n]) for t in table(n)]
            if not any(ints(c, xd)) or not any(ints(c, yd)):
                c.require_eq('kernel goes to infinity', o[2 * n:], [c.const(0)] * n)
                return
            c.require_eq('X', mul(o[:n], xd), xn)
            c.require_eq('Y', mul(o[n:2 * n], yd), mul(w[n:2 * n], yn))
            c.require_eq('on the curve', mul(o[n:2 * n], o[n:2 * n]), add(mul(o[:n], mul(o[:n], o[:n])), [c.const(v) for v in [4, 4][:n]]))
            return
        d = c.domain
        x, y = vec(c, 'x', n), vec(c, 'y', n)
        d.swu = (u, x + y + [c.const(1), c.const(0)][:n])
        xn, xd, yn, yd = [ev(c, t, x) for t in table(n)]
        inf = zero(c, xd) or zero(c, yd)
        o, _ = c.call('h_map_g%d' % n, u, [], nout=3 * n)
        if not d.fired:
            raise Unsupported('the map is not called')
        if inf:
            c.require_eq('kernel goes to infinity', o[2 * n:], [c.const(0)] * n)
            return
        c.require_eq('Z', o[2 * n:], [c.const(1), c.const(0)][:n])
        c.require_eq('X', mul(o[:n], xd), xn)
        c.require_eq('Y', mul(o[n:2 * n], yd), mul(y, yn))
    return f


def h_swu(m, args, name):
    from vc.codec import _coords
    d = m.domain
    if not hasattr(d, 'swu'):
        return NotImplemented
    u, r = d.swu
    out, x = args
    if not all(d.facts.provably_zero(a - b) for a, b in zip(_coords(m, x, len(u), 6), u)):
        raise Unsupported('the map is called on something else')
    for i, e in enumerate(r):
        d.put(Ptr(out.o, out.off + 56 * i), 6, e)
    d.fired = True


def obligations(tier):
    t = 40 if tier == 'quick' else 400
    r = [Ob('simplified SWU, any suite over a prime field', TUH, swu('h_swu_abs', 1), nl=1, domain=H2CDomain, hooks=point_hooks(1), trials=t, primes=(10007, 1000003, 2 ** 61 - 1))]
    kw = dict(nl=6, prime=P, domain=H2CDomain, trials=t)
    for n in (1, 2):
        r.append(Ob('G%d: simplified SWU' % n, TUH, swu('h_swu_g%d' % n, n, SUITE[n]), hooks=point_hooks(6), **kw))
        r.append(Ob('G%d: isogeny' % n, TUH, isomap(n), hooks=point_hooks(6), **kw))
        r.append(Ob('G%d: map to the curve' % n, TUH, mapped(n), hooks=point_hooks(6) + [(r'm2c_simple_swu<.*>::process\(', h_swu)], **kw))
    return r
