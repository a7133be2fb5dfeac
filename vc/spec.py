"""Mathematical specifications, written independently of the code under verification (textbook definitions)."""
from .poly import El, Poly


class Fld:
    """the base field: elements are El"""
    rank = 1

    def __init__(s, ctx):
        s.c = ctx
        s.zero = ctx.const(0)
        s.one = ctx.const(1)

    def add(s, a, b):
        return a + b

    def sub(s, a, b):
        return a - b

    def mul(s, a, b):
        return a * b

    def neg(s, a):
        return -a

    def scal(s, k, a):
        return s.c.const(k) * a

    def flat(s, a):
        return [a]

    def unflat(s, l):
        return l[0]

    def is_zero(s, a):
        return s.c.is_zero(a)

    def inv(s, a):
        """a is known to be non-zero"""
        s.c.assume_nonzero(a)
        return a.inv()

    def embed(s, x):
        return x

    def from_int(s, k):
        return s.c.const(k)


class Ext:
    """base[x]/(x^n - nr)"""

    def __init__(s, base, n, nr):
        s.c = base.c
        s.base = base
        s.n = n
        s.nr = nr
        s.rank = n * base.rank
        s.zero = (base.zero,) * n
        s.one = (base.one,) + (base.zero,) * (n - 1)

    def add(s, a, b):
        return tuple(s.base.add(x, y) for x, y in zip(a, b))

    def sub(s, a, b):
        return tuple(s.base.sub(x, y) for x, y in zip(a, b))

    def neg(s, a):
        return tuple(s.base.neg(x) for x in a)

    def scal(s, k, a):
        return tuple(s.base.scal(k, x) for x in a)

    def mul(s, a, b):
        B = s.base
        r = [B.zero] * (2 * s.n - 1)
        for i in range(s.n):
            for j in range(s.n):
                r[i + j] = B.add(r[i + j], B.mul(a[i], b[j]))
        for k in range(2 * s.n - 2, s.n - 1, -1):
            r[k - s.n] = B.add(r[k - s.n], B.mul(s.nr, r[k]))
        return tuple(r[:s.n])

    def flat(s, a):
        return [y for x in a for y in s.base.flat(x)]

    def unflat(s, l):
        k = s.base.rank
        return tuple(s.base.unflat(l[i * k:(i + 1) * k]) for i in range(s.n))

    def is_zero(s, a):
        return all(s.c.is_zero(x) for x in s.flat(a))

    def gen(s):
        return (s.base.zero, s.base.one) + (s.base.zero,) * (s.n - 2)

    def embed(s, x):
        """from the base ring"""
        return (x,) + (s.base.zero,) * (s.n - 1)

    def from_int(s, k):
        return s.embed(s.base.from_int(k))

    def inv(s, a):
        """a unit; n = 2 or 3"""
        B = s.base
        if s.n == 2:
            nrm = B.sub(B.mul(a[0], a[0]), B.mul(s.nr, B.mul(a[1], a[1])))
            i = B.inv(nrm)
            return (B.mul(a[0], i), B.neg(B.mul(a[1], i)))
        A0, A1, A2 = a
        c0 = B.sub(B.mul(A0, A0), B.mul(s.nr, B.mul(A1, A2)))
        c1 = B.sub(B.mul(s.nr, B.mul(A2, A2)), B.mul(A0, A1))
        c2 = B.sub(B.mul(A1, A1), B.mul(A0, A2))
        d = B.add(B.mul(A0, c0), B.mul(s.nr, B.add(B.mul(A2, c1), B.mul(A1, c2))))
        i = B.inv(d)
        return (B.mul(c0, i), B.mul(c1, i), B.mul(c2, i))


def rpow(R, a, n):
    r = R.one
    while n:
        if n & 1:
            r = R.mul(r, a)
        n >>= 1
        if n:
            a = R.mul(a, a)
    return r
