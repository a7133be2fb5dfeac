"""Point serialization round-trips and follows the wire format (BLS12-381, ZCash format)."""
from .codec_common import *
from vc.codec import PointDomain, Rejected, IntB, point_hooks, Less

ASSUMPTIONS = ['assumed contracts of the multiprecision library: export_bits writes the significant octets of the number (at least one) and nothing else, import_bits reads all octets, '
               'both lowest octet first when asked to; order of residues; square roots modulo p',
               'is_square and the square root of Fp2 by contract (C06)',
               'rejection is a failed BOOST_ASSERT: a build that switches assertions off accepts malformed encodings',
               'membership in the subgroup of prime order is not part of the format']
P = rf.STD['bls12_381'][0]
NL = 6
BB = {1: [4], 2: [4, 4]}
# points of the second curve whose ordinate is real or purely imaginary
SPECIAL = [
    ([0x9f1477ff0430ca4808b4b98f3ce959fcb5be667df6ef1073e182a4f887fa0f0b7fdd6105d99e027bba24c6b4e932032, 0xc2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced],
     [3, 0]),
    ([0x6e99ef914eed7209b51759c94a6a109ee476e3ca4db49c3182d8d0edf61d6213002db9a55f4b71c1f3be3a372d96323, 0x6ed7257d7405e1ed5c54516c836a4f374fb2dffd1b4e3854ebd0a58f5bd48fb9b07ea16a89d7be9c945a5d6b033a8a5],
     [6, 0]),
    ([0x13c131576e41ee41c216f6da067a8d48c040448cafe6a857a0b2f5a5ecea99e7f1a033d32a640a3ce77d90d19e5a3c38, 0x8834e4317abb5a809288fe94510d38de7e06761dc9066e7cd52efcfaeed7104734eda18ee837a98e9e3e5fac3a8994c],
     [15, 0]),
    ([0x100fca6a493cd9f5ca905c1d4f7d1737991b651d141621b82918a8516e31553366ae29ee53ba1fd7fe5cb394b16c8a79, 0xc2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced],
     [0, 1]),
    ([0x6c543499ce9d5f59c6c7c5a392529462a9c9282e21f69657aba6e1270c5fd705c721628b2c1838562dac7e0d653d286, 0x15414f538d4d6ca41391897233e0896e18137560a8f62ed91a8d93548a00eb6e791630f7262344d5f3c6dce86a3de55f],
     [0, 2]),
    ([0xba11f37d3a442de78808e88690017cad357c5d6df8e88159035d5db542f03e5a80e98e229b0295bf26e21f911fcbe0, 0x10a6458a54684d7ae56899903415bd5d5b6fc538e5433f835817382498547545d76917c7ae5904efec99e20f01b2dfd0],
     [0, 5]),
]


# Fp, Fp2 = Fp[u]/(u^2 + 1) on lists, of El or of integers
def mul(a, b):
    return [a[0] * b[0]] if len(a) == 1 else [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def neg(a):
    return [-x for x in a]


def rhs(c, x):
    return add(mul(x, mul(x, x)), [c.const(v) for v in BB[len(x)]])


def cinv(a):
    n = pow(sum(x * x for x in a) if len(a) == 2 else a[0], -1, P)
    return [a[0] * n % P, -a[1] * n % P] if len(a) == 2 else [n]


def csqrt(a):
    """a square root, or None"""
    a = [x % P for x in a]
    if len(a) == 1:
        r = pow(a[0], (P + 1) // 4, P)
        return [r] if r * r % P == a[0] else None
    if a[1] == 0:
        r = csqrt(a[:1])
        return r + [0] if r else [0] + csqrt([-a[0]])
    n = csqrt([a[0] * a[0] + a[1] * a[1]])
    if n is None:
        return None
    for s in (n[0], -n[0]):
        r = csqrt([(a[0] + s) * pow(2, -1, P)])
        if r and r[0]:
            return [r[0], a[1] * pow(2 * r[0], -1, P) % P]
    return None


def csign(y):
    y = [v % P for v in y]
    if len(y) == 2 and y[1]:
        return int(y[1] > P // 2)
    return int(y[0] > P // 2)


def sign(c, y):
    """the sign of the format: the highest coordinate that is not zero is above (p-1)/2"""
    d = c.domain
    for v in reversed(y):
        if not d.facts.is_zero(v):
            return d.above_half(v)
    return 0


def order(x, y=None):
    """coordinates in the order of the format, highest first"""
    return list(reversed(x)) + (list(reversed(y)) if y is not None else [])


def bytes_of(vs):
    return [(v >> (8 * (47 - i))) & 255 for v in vs for i in range(48)]


def require_octets(c, got, vs, flags):
    """got: the octets of the residues, highest octet first, with the flags"""
    if c.concrete:
        w = bytes_of([c.cv(v) if not isinstance(v, int) else v % P for v in vs])
        w[0] |= flags
        for i, (g, x) in enumerate(zip(got, w)):
            c.require_true('octet %d' % i, g & 255 == x)
        c.require_true('number of octets', len(got) == len(w))
        return
    for i, g in enumerate(got):
        e = vs[i // 48]
        w = c.domain.octet(e, 47 - i % 48) if not isinstance(e, int) else 0
        if i == 0:
            if w.__class__ is Octet:
                w = Octet(w.src, w.k, w.bits, w.set | flags)
            else:
                w |= flags
        if g.__class__ is Octet and w.__class__ is Octet and w.same(g) or g.__class__ is int and w.__class__ is int and g & 255 == w:
            c.discharged.append('octet %d' % i)
        else:
            raise Refuted('octet %d' % i, '%r instead of %r' % (g, w))


def point(c, n):
    """a representation of a point (on the curve or not; Z may be zero)"""
    r = [[c.var('%s%d' % (k, i)) for i in range(n)] for k in 'XYZ']
    if c.concrete:
        if c.choose(3, 'short coordinates') == 0:
            r = [[c.const(c.cv(v) >> c.choose(390, 'shift')) for v in r[0]], [c.const(c.cv(v) >> c.choose(390, 'shift')) for v in r[1]], [c.const(v) for v in [1, 0][:n]]]
        if c.choose(4, 'Y near the middle') == 0:
            r[1][n - 1] = c.const(P // 2 + c.choose(3) - 1)
            r[2] = [c.const(v) for v in [1, 0][:n]]
        if n == 2 and c.choose(3, 'real Y') == 0:
            r[1][1] = c.const(0)
            r[2][1] = c.const(0)
    return r


def encoding(n, mode):
    fn = 'h_g%d_enc' % n

    def f(c):
        X, Y, Z = point(c, n)
        comp = mode != 1
        size = 48 * n * (1 if comp else 2)
        if c.concrete:
            z = [c.cv(v) for v in Z]
            inf = not any(z)
        else:
            inf = all([c.is_zero(v) for v in Z])
            if not inf and n == 2:
                c.assume_nonzero(Z[0] * Z[0] + Z[1] * Z[1])
        _, io = c.call(fn, X + Y + Z, [mode], niout=1 + size)
        c.require_true('number of octets', io[0] == size)
        if inf:
            require_octets(c, io[1:], [0] * (size // 48), 0x40 | (0x80 if comp else 0))
            return
        if c.concrete:
            zi = cinv(z)
            z2 = mul(zi, zi)
            x = [v % P for v in mul([c.cv(v) for v in X], z2)]
            y = [v % P for v in mul([c.cv(v) for v in Y], mul(z2, zi))]
            s = csign(y)
        else:
            if n == 1:
                zi = [Z[0].inv()]
            else:
                k = (Z[0] * Z[0] + Z[1] * Z[1]).inv()
                zi = [Z[0] * k, -(Z[1] * k)]
            z2 = mul(zi, zi)
            x, y = mul(X, z2), mul(Y, mul(z2, zi))
            s = sign(c, y) if comp else 0
        require_octets(c, io[1:], order(x, None if comp else y), (0xa0 if s else 0x80) if comp else 0)
    return f


def sample_octets(c, n, comp):
    """octets near an encoding"""
    size = 48 * n * (1 if comp else 2)
    kind = c.choose(8, 'kind of octets')
    if kind == 0:
        return [c.choose(256, 'octet') for _ in range(size)]
    if kind == 1:
        b = [0] * size
        b[0] = 0x40 | (0x80 if comp else 0)
        k = c.choose(5, 'blemish')
        if k == 1:
            b[c.choose(size, 'position')] |= 2 + c.choose(254, 'octet')
        elif k == 2:
            b[c.choose(size, 'position')] |= 1 << c.choose(8, 'bit')
        return b
    x = [c.cv(c.var('x%d' % i)) for i in range(n)]
    y = None
    for _ in range(1 if kind == 2 else 40):
        y = csqrt([v.n.cval() for v in rhs(c, [c.const(v) for v in x])])
        if y:
            break
        x[0] = (x[0] + 1) % P
    y = y or [c.cv(c.var('y%d' % i)) for i in range(n)]
    if n == 2 and c.choose(3, 'special point') == 0:
        x, y = map(list, SPECIAL[c.choose(len(SPECIAL), 'which')])
    if c.choose(2, 'sign'):
        y = [-v % P for v in y]
    if kind == 3:
        i = c.choose(n, 'coordinate')
        x[i] = P + x[i] % ((1 << 381) - P) if c.choose(2) else P - 1 + c.choose(3)
    if kind == 4 and not comp:
        i = c.choose(n, 'coordinate')
        y[i] = P + y[i] % ((1 << 381) - P)
    b = bytes_of(order(x, None if comp else y))
    b[0] |= (0x80 | (csign(y) << 5)) if comp else 0
    if kind == 5:
        b[0] ^= 1 << (5 + c.choose(3, 'flag'))
    if kind == 6:
        b[c.choose(size, 'position')] ^= 1 << c.choose(8, 'bit')
    return b


def decoding(n, mode, comp):
    """any octets: rejected exactly when they are no encoding, otherwise the point they encode"""
    fn = 'h_g%d_dec' % n

    def conc(c):
        size = 48 * n * (1 if comp else 2)
        b = sample_octets(c, n, comp)
        o, io = c.call(fn, [], [mode, size] + b, nout=3 * n, niout=1, partial=True)
        flags = b[0] & 0xe0
        v = [b[0] & 31] + b[1:]
        ok = flags not in (0x20, 0x60, 0xe0) and bool(flags & 0x80) == comp
        cs = [int.from_bytes(bytes(v[48 * i:48 * i + 48]), 'big') for i in range(size // 48)]
        x = y = None
        if ok and flags & 0x40:
            ok = not any(v)
        elif ok:
            ok = all(t < P for t in cs)
            x = list(reversed(cs[:n]))
            r = [t.n.cval() % P for t in rhs(c, [c.const(t) for t in x])]
            if ok and comp:
                y = csqrt(r)
                ok = y is not None
                if ok and csign(y) != bool(flags & 0x20):
                    y = [-t % P for t in y]
            elif ok:
                y = list(reversed(cs[n:]))
                ok = [t % P for t in mul(y, y)] == r
        c.require_true('accepted exactly when well formed', bool(io[0]) != bool(ok))
        if not ok:
            return
        o = [c.cv(t) for t in o]
        o = [o[0:n], o[n:2 * n], o[2 * n:]]
        if x is None:
            c.require_true('infinity', not any(o[2]))
            return
        z2 = mul(o[2], o[2])
        c.require_true('point', any(o[2]) and all((s - t) % P == 0 for s, t in zip(o[0] + o[1], mul(x, z2) + mul(y, mul(z2, o[2])))))

    def f(c):
        if c.concrete:
            return conc(c)
        d = c.domain
        size = 48 * n * (1 if comp else 2)
        flags = c.choose(8, 'flags') << 5
        b = [d.var(i, c.var('b%d' % i), *((5, flags) if i == 0 else ())) for i in range(size)]
        rejected = 0
        try:
            o, io = c.call(fn, [], [mode, size] + b, nout=3 * n, niout=1)
            rejected = io[0]
        except Rejected:
            rejected = 1
        ok = flags not in (0x20, 0x60, 0xe0) and bool(flags & 0x80) == comp
        x = y = r = None
        if ok and flags & 0x40:
            ok = not any(d.known_set(v) for v in b) and all(d.octeq(v, 0) for v in b)
        elif ok:
            plain = [Octet(b[0].src, b[0].k, 5, 0)] + b[1:]
            us = [IntB({k: plain[48 * i + 47 - k] for k in range(48)}) for i in range(size // 48)]
            ok = all(d.less_than_p(u) for u in us)
            es = [d.poly(u) for u in us]
            x = list(reversed(es[:n]))
            r = rhs(c, x)
            if ok and comp:
                ok = d.is_square(r)
            elif ok:
                y = list(reversed(es[n:]))
                ok = all([c.is_zero(s - t) for s, t in zip(mul(y, y), r)])
        c.require_true('accepted exactly when well formed', bool(rejected) != bool(ok))
        if not ok:
            return
        X, Y, Z = o[0:n], o[n:2 * n], o[2 * n:]
        if x is None:
            c.require_eq('infinity', Z, [c.const(0)] * n)
            return
        if any(not d.facts.provably_zero(s - t) for s, t in zip(Z, [c.const(1), c.const(0)][:n])):
            raise Unsupported('Z is not one')
        c.require_eq('X', X, x)
        if comp:
            c.require_eq('Y squared', mul(Y, Y), r)
            c.require_true('sign of Y', all([c.is_zero(t) for t in Y]) or sign(c, Y) == flags >> 5 & 1)
        else:
            c.require_eq('Y', Y, y)
    return f


def roundtrip(n, mode, comp):
    def f(c):
        x, y, Z = [[c.var('%s%d' % (k, i)) for i in range(n)] for k in 'xyz']
        if c.concrete:
            x = [c.cv(t) for t in x]
            while True:
                yy = csqrt([t.n.cval() for t in rhs(c, [c.const(t) for t in x])])
                if yy:
                    break
                x[0] = (x[0] + 1) % P
            if n == 2 and c.choose(3, 'special point') == 0:
                x, yy = map(list, SPECIAL[c.choose(len(SPECIAL), 'which')])
            if c.choose(2, 'sign'):
                yy = [-t for t in yy]
            x, y = [c.const(t) for t in x], [c.const(t) for t in yy]
            inf = not any(c.cv(t) for t in Z)
        else:
            d = c.domain
            r = rhs(c, x)
            if n == 1 and not c.is_zero(y[0]):
                c.assume_nonzero(r[0])
            for a, b in zip(mul(y, y), r):
                d.facts.add_equation(a - b)
            d.add_root(r, y)
            if n == 2:
                Z = [Z[0], c.const(0)] if c.choose(2, 'Z') else [c.const(1), c.const(0)]
            inf = all([c.is_zero(v) for v in Z])
        z2 = mul(Z, Z)
        size = 48 * n * (1 if comp else 2)
        _, io = c.call('h_g%d_enc' % n, mul(x, z2) + mul(y, mul(z2, Z)) + Z, [(2 if mode == 2 else 0) if comp else 1], niout=1 + size)
        try:
            o, rj = c.call('h_g%d_dec' % n, [], [mode, size] + list(io[1:]), nout=3 * n, niout=1, partial=c.concrete)
            rj = rj[0]
        except Rejected:
            rj = 1
        c.require_true('accepted', not rj)
        X, Y, W = o[:n], o[n:2 * n], o[2 * n:]
        if inf:
            c.require_eq('infinity', W, [c.const(0)] * n)
            return
        c.require_eq('Z', W, [c.const(1), c.const(0)][:n])
        c.require_eq('X', X, x)
        c.require_eq('Y', Y, y)
    return f


TUP = TU('codec.cpp', ['-DPOINTS'], name='codec_points')


def obligations(tier):
    r = []
    kw = dict(nl=NL, prime=P, domain=PointDomain, hooks=point_hooks(NL), trials=60 if tier == 'quick' else 600, backend='polynomial identity')
    M = {0: 'compressed', 1: 'uncompressed', 2: 'through the curve'}
    for n in (1, 2):
        for m in M:
            r.append(Ob('G%d: encoding, %s' % (n, M[m]), TUP, encoding(n, m), **kw))
        for m, mn in ((0, ''), (1, ', vector'), (2, ', through the curve')):
            for comp in ((True, False) if m < 2 else (True,)):
                t = ('compressed' if comp else 'uncompressed') + mn
                r.append(Ob('G%d: decoding of any octets, %s' % (n, t), TUP, decoding(n, m, comp), **kw))
                r.append(Ob('G%d: round trip, %s' % (n, t), TUP, roundtrip(n, m, comp), **kw))
    return r
