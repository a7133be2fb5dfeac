"""Curve constants: ground obligations over the values the compiler produces from the current source."""
import math
import sympy
from vc.engine import Ob, TU
from .paramspec import Tower

ASSUMPTIONS = ['primality is decided by sympy.isprime (deterministic below 2^64, strong BPSW above)', 'constants are read from the compiled code of the current tree',
               'the order of a point is computed with an independent implementation of the group law']
ITEMS = 'a b c d A B twist cofactor one_fill zero_fill modulus value_bits'.split()
MAXV = 40
FORMS = 'nil/crypto3/algebra/curves/detail/forms/'
H = 'nil/crypto3/algebra/curves/'
SW, TE, ED, MO = 'short_weierstrass', 'twisted_edwards', 'edwards', 'montgomery'


class CG:
    """one group of one curve: form, coordinates, extension degree"""

    def __init__(s, name, curve, hdr, co, form=SW, deg=1, g='g1_type', pre=(), cofactor=None, g2=None, post=None, xi=False):
        s.g2, s.xi = g2, xi
        s.name, s.form, s.co, s.deg, s.cofactor = name, form, co, deg, cofactor
        grp = '%s%s<co::%s, fo::%s>' % ('', 'curves::%s::%s' % (curve, g), co, form)
        d = ['-DHDR=<%s%s.hpp>' % (H, hdr), '-DGROUP=%s' % grp, '-DCURVE=curves::%s' % curve]
        for i, p in enumerate(pre):
            d.append('-DPRE%d=<%s%s>' % (i, FORMS, p))
        if deg > 1:
            d.append('-DEXTF')
        if form == SW and co == 'affine' or name.startswith('curve25519'):
            d.append('-DNO_WF')
        if post:
            d.append('-DPRE2=<%s%s>' % (FORMS, post))
        if xi:
            d.append('-DXIF')
        if g2:
            d.append('-DPARAMS2=' + ('typename curves::%s::%s<co::%s, fo::%s>::params_type' % g2 if isinstance(g2, tuple) else g2))
        s.tu = TU('curveconst.cpp', d, name='cc_' + name)
        s.nl = 18


def groups():
    L = []
    for v in (377, 381):
        c = 'bls12<%d>' % v
        for co in ('jacobian_with_a4_0', 'affine'):
            L += [CG('bls12_%d_g1_%s' % (v, co), c, 'bls12', co),
                  CG('bls12_%d_g2_%s' % (v, co), c, 'bls12', co, deg=2, g='g2_type', g2=(c, 'g1_type', co, SW), xi=True)]
    c, co = 'alt_bn128<254>', 'jacobian_with_a4_0'
    L += [CG('alt_bn128_g1', c, 'alt_bn128', co), CG('alt_bn128_g2', c, 'alt_bn128', co, deg=2, g='g2_type', g2=(c, 'g1_type', co, SW), xi=True)]
    for n, k in ((4, 2), (6, 3)):
        c = 'mnt%d<298>' % n
        L += [CG('mnt%d_g1' % n, c, 'mnt%d' % n, 'projective'), CG('mnt%d_g2' % n, c, 'mnt%d' % n, 'projective', deg=k, g='g2_type', g2=(c, 'g1_type', 'projective', SW))]
    for n in ('pallas', 'vesta'):
        for co in ('jacobian_with_a4_0', 'affine'):
            L.append(CG(n + '_' + co, n, n, co))
    for v in (160, 192, 224, 256):
        L.append(CG('secp_k1_%d' % v, 'secp_k1<%d>' % v, 'secp_k1', 'jacobian_with_a4_0'))
    for v in (160, 192, 224, 256, 384, 521):
        for co in ('projective', 'jacobian', 'jacobian_with_a4_minus_3', 'projective_with_a4_minus_3'):
            L.append(CG('secp_r1_%d_%s' % (v, co), 'secp_r1<%d>' % v, 'secp_r1', co))
    for n in ('jubjub', 'babyjubjub'):
        L.append(CG(n + '_te', n, n, 'affine', TE, cofactor=8))
        L.append(CG(n + '_mont', n, n, 'affine', MO, cofactor=8, g2=(n, 'g1_type', 'affine', TE)))
    L.append(CG('ed25519_te', 'ed25519', 'ed25519', 'extended_with_a_minus_1', TE, cofactor=8))
    L.append(CG('curve25519_mont', 'curve25519', 'curve25519', 'affine', MO, cofactor=8, pre=('montgomery/element_g1_affine.hpp', 'twisted_edwards/element_g1_affine.hpp'),
                g2=('curve25519', 'g1_type', 'extended_with_a_minus_1', TE)))
    L.append(CG('edwards_te', 'edwards<183>', 'edwards', 'inverted', TE, cofactor=4, g2='curves::detail::edwards_g1_params<183, fo::edwards>'))
    return L


def dump(c, fn, items=ITEMS):
    o, io = c.call(fn, [], [], nout=MAXV * len(items), niout=len(items), partial=True)
    return {it: o[k * MAXV:k * MAXV + io[k]] for k, it in enumerate(items) if io[k]}


def inv(T, a):
    return T.pow(a, T.order() - 2)


class Curve:
    """affine points over the tower T, None is the point at infinity of the Weierstrass and Montgomery forms"""

    def __init__(s, T, form, **k):
        s.T, s.form = T, form
        s.k = k

    def on(s, P):
        T, k, m = s.T, s.k, s.T.mul
        x, y = P
        xx, yy = m(x, x), m(y, y)
        if s.form == SW:
            return yy == T.add(T.add(m(xx, x), m(k['a'], x)), k['b'])
        if s.form == TE:
            return T.add(m(k['a'], xx), yy) == T.add(T.one, m(k['d'], m(xx, yy)))
        if s.form == ED:
            c2 = m(k['c'], k['c'])
            return T.add(xx, yy) == m(c2, T.add(T.one, m(k['d'], m(xx, yy))))
        return m(k['B'], yy) == T.add(T.add(m(xx, x), m(k['A'], xx)), x)

    def neg(s, v):
        return s.T.unflat([-x % s.T.p for x in s.T.flat(v)])

    def sub(s, a, b):
        return s.T.add(a, s.neg(b))

    def zero(s):
        return (s.T.zero, s.k.get('c', s.T.one)) if s.form in (TE, ED) else None

    def add(s, P, Q):
        T, k, m = s.T, s.k, s.T.mul
        if s.form in (TE, ED):
            (x1, y1), (x2, y2) = P, Q
            if s.form == ED:
                a, c = T.one, k['c']
            else:
                a, c = k['a'], T.one
            xy = m(m(x1, x2), m(y1, y2))
            t = m(k['d'], xy)
            ic = inv(T, c)
            return (m(m(T.add(m(x1, y2), m(x2, y1)), inv(T, T.add(T.one, t))), ic),
                    m(m(s.sub(m(y1, y2), m(a, m(x1, x2))), inv(T, s.sub(T.one, t))), ic))
        if P is None:
            return Q
        if Q is None:
            return P
        (x1, y1), (x2, y2) = P, Q
        B = k.get('B', T.one)
        A = k.get('A', T.zero)
        a = k.get('a', T.one)
        if x1 == x2:
            if y1 != y2 or y1 == T.zero:
                return None
            x3 = m(x1, x1)
            n = T.add(T.add(T.add(x3, T.add(x3, x3)), m(T.add(A, A), x1)), a)
            l = m(n, inv(T, m(B, T.add(y1, y1))))
        else:
            l = m(s.sub(y2, y1), inv(T, s.sub(x2, x1)))
        x3 = s.sub(s.sub(s.sub(m(B, m(l, l)), A), x1), x2)
        return (x3, s.sub(m(l, s.sub(x1, x3)), y1))

    def mul(s, n, P):
        R = s.zero()
        for b in bin(n)[2:]:
            R = s.add(R, R)
            if b == '1':
                R = s.add(R, P)
        return R


def hasse(p, r):
    """the unique h with r*h in the Hasse interval of F_p"""
    h = (p + 1 + r // 2) // r
    return h if (p + 1 - r * h) ** 2 <= 4 * p else None


def group(g):
    def fn(c):
        req = c.require_true
        P, S, Bf = dump(c, 'h_params'), dump(c, 'h_scalar'), dump(c, 'h_base')
        p, r = Bf['modulus'][0], S['modulus'][0]
        req('fields of the curve and of its parameters agree', dump(c, 'h_cbase')['modulus'][0] == p and dump(c, 'h_cscalar')['modulus'][0] == r)
        F = Tower(p)
        if g.deg > 1:
            nr = dump(c, 'h_nr', ['nr'])['nr'][0]
            T = Tower(p, F, g.deg, nr % p)
        else:
            T = F

        def val(k):
            v = P[k]
            if len(v) == 1:
                v = v + [0] * (T.rank - 1)
            return T.unflat([x % p for x in v])
        names = {SW: ('a', 'b'), TE: ('a', 'd'), ED: ('c', 'd'), MO: ('A', 'B')}[g.form]
        if g.form == MO and 'A' not in P:
            P['A'], P['B'] = P['a'], P['b']
        k = {n: val(n) for n in names}
        E = Curve(T, g.form, **k)
        m = T.mul

        def sm(n, x):
            return T.unflat([n * y % p for y in T.flat(x)])
        if g.form == SW:
            req('non-singular', T.add(sm(4, m(k['a'], m(k['a'], k['a']))), sm(27, m(k['b'], k['b']))) != T.zero)
            if g.co.endswith('a4_0'):
                req('the coordinates assume a = 0', k['a'] == T.zero)
            if g.co.endswith('minus_3'):
                req('the coordinates assume a = -3', k['a'] == sm(p - 3, T.one))
        elif g.form == TE:
            req('non-singular', k['a'] != k['d'] and k['a'] != T.zero and k['d'] != T.zero)
            req('complete: a is a square and d is not', pow(k['a'], (p - 1) // 2, p) == 1 and pow(k['d'], (p - 1) // 2, p) == p - 1)
            if g.co == 'extended_with_a_minus_1':
                req('the coordinates assume a = -1', k['a'] == p - 1)
        else:
            req('non-singular', k['A'] not in (2, p - 2) and k['B'] != 0)
        q = [x % p for x in P['one_fill']]
        n = T.rank
        one = (T.unflat(q[:n]), T.unflat(q[n:2 * n]))
        req('generator is on the curve', E.on(one))
        req('declared order is prime', sympy.isprime(r))
        Z = E.zero()
        req('generator has the declared order', E.mul(r, one) == Z and one != Z)
        if T.rank == 1:
            h = hasse(p, r)
            # the group order is a multiple of the order of a point: any multiple of r in the Hasse interval (unique when r > 4 sqrt p)
            req('group order', h is not None and r * r > 16 * p)
            if g.cofactor is not None:
                req('cofactor', h == g.cofactor)
            if 'cofactor' in P:
                req('declared cofactor', P['cofactor'][0] == h)
        # the group's one() and zero()
        o, z, df = [dump(c, fn_, ['X', 'Y', 'Z', 'T']) for fn_ in ('h_one', 'h_zero', 'h_dflt')]

        def pt(d):
            X, Y = T.unflat([x % p for x in d['X']]), T.unflat([x % p for x in d['Y']])
            if 'Z' not in d:
                if g.form in (SW, MO):
                    zf = tuple(T.unflat([x % p for x in P.get('zero_fill', [0] * (2 * n))][i * n:(i + 1) * n]) for i in (0, 1))
                    if 'zero_fill' not in P:
                        zf = (T.zero, T.zero)
                    return None if (X, Y) == zf and not E.on(zf) else (X, Y)
                return (X, Y)
            Zc = T.unflat([x % p for x in d['Z']])
            if g.co == 'inverted':
                if Zc == T.zero or X == T.zero or Y == T.zero:
                    return Z if Y == T.zero and Z and Zc == T.zero or (X == T.one and Y == T.zero) else ('bad', X, Y, Zc)
                return (m(Zc, inv(T, X)), m(Zc, inv(T, Y)))
            if Zc == T.zero:
                return None
            iz = inv(T, Zc)
            if g.co.startswith('jacobian'):
                return (m(X, m(iz, iz)), m(Y, m(iz, m(iz, iz))))
            if 'T' in d:
                req('auxiliary coordinate', m(T.unflat([x % p for x in d['T']]), Zc) == m(X, Y))
            return (m(X, iz), m(Y, iz))
        req('one() is the generator', pt(o) == one)
        io = c.call('h_wf', [], [], nout=0, niout=5)[1]
        req('one() is well formed and not zero, zero() is zero', io == [1, 1, 1, 0, 1])
        if g.co != 'inverted' and g.form != MO:
            req('zero() is the neutral element', pt(z) == Z)
            req('the default is the neutral element', pt(df) == Z)
        if not g.g2:
            return
        Q = dump(c, 'h_params2')
        if g.deg > 1:
            a, b = Q['a'][0] % p, Q['b'][0] % p

            def up(x):
                return T.unflat([x] + [0] * (T.rank - 1))
            if g.xi:
                xi = T.unflat([x % p for x in dump(c, 'h_xi', ['xi'])['xi']])
                req('twist is the non-residue of the sextic extension', 'twist' not in P or val('twist') == xi)
                req('coefficients are those of a sextic twist', k['a'] == T.zero and a == 0 and k['b'] in (m(up(b), xi), m(up(b), inv(T, xi))))
            else:
                u = T.gen()
                req('coefficients are those of a quadratic twist', k['a'] == m(up(a), m(u, u)) and k['b'] == m(up(b), m(u, m(u, u))))
        elif g.form == MO:
            a, d = Q['a'][0] % p, Q['d'][0] % p
            i = pow(a - d, -1, p)
            req('A = 2(a+d)/(a-d)', k['A'] == 2 * (a + d) * i % p)
            req('B = 4/(a-d) up to a square', pow(k['B'] * 4 * i, (p - 1) // 2, p) == 1)
            q2 = [x % p for x in Q['one_fill']]
            x, y = q2[0], q2[1]
            # (x, y) -> (u, v) = ((1+y)/(1-y), s (1+y)/((1-y) x)) with s^2 = 4/((a-d) B)
            u = (1 + y) * pow(1 - y, -1, p) % p
            v = u * pow(x, -1, p) % p
            req('the generators correspond', one[0] == u and one[1] * one[1] % p == v * v * 4 * i * pow(k['B'], -1, p) % p)
        else:
            cc, d = Q['c'][0], Q['d'][0]
            req('coefficients of the Edwards form', k['a'] == 1 and k['d'] == d * pow(cc, 4, p) % p)
            req('the generators correspond', [x * pow(cc, -1, p) % p for x in Q['one_fill']] == list(one))
    return fn


def obligations(tier):
    return [Ob(g.name, g.tu, group(g), nl=g.nl, elout=False, budget=80_000_000, trials=1, backend='ground evaluation') for g in groups()]
