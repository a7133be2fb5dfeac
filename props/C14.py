"""Pairing precomputations and Miller loops."""
from vc.engine import Ob, Refuted
from vc.loops import GVal, GPart
from vc.poly import El, Poly, Infeasible
from vc.machine import Unsupported
from vc import powdom, extdom
from vc.llvmir import Ptr
from vc.spec import Fld, Ext
from .pairing_common import CURVES

ASSUMPTIONS = ['the points of the second group are finite, of odd order greater than the loop count, and (Edwards) have x y != 0',
               'operations of the extension field classes by their contracts (C01, C02, C05)']


def steps(n):
    """the operations of a Miller loop for the count n"""
    r = []
    for b in bin(n)[3:]:
        r.append('d')
        if b == '1':
            r.append('a')
    return r


class Pair:
    """the precomputed values of one pair of points, as free variables"""

    def __init__(s, c, cv, tag):
        s.c, s.cv = c, cv
        F = Fld(c)
        s.F2 = F2 = Ext(F, cv.e, c.const(next(iter(cv.nrs.values()))[0]))
        v = lambda n: c.var(tag + n)
        e2 = lambda n: F2.unflat([c.var('%s%s_%d' % (tag, n, i)) for i in range(cv.e)])
        s.st = steps(abs(cv.loop))
        neg = cv.loop < 0 and cv.form != 'ed'
        s.nd, s.na = s.st.count('d'), s.st.count('a') + (1 if neg and cv.form == 'mnt' else 0)
        L = []

        def put(x):
            L.extend([x] if isinstance(x, El) else F2.flat(x))
            return x
        if cv.form == 'ed':
            s.pxy, s.pxz, s.pzz = put(v('P_XY')), put(v('P_XZ')), put(v('P_ZZplusYZ'))
            s.co = [[put(e2('%s%d' % (n, i))) for n in ('zz', 'xy', 'xz')] for i in range(s.nd + s.na)]
            s.ints = [s.nd + s.na, 0]
        else:
            s.px, s.py = put(v('PX')), put(v('PY'))
            if cv.form == 'mnt':
                s.pxt, s.pyt = put(e2('PXt')), put(e2('PYt'))
            s.qx, s.qy = put(e2('QX')), put(e2('QY'))
            if cv.form == 'mnt':
                s.qy2, s.qxt, s.qyt = put(e2('QY2')), put(e2('QXt')), put(e2('QYt'))
                s.dc = [[put(e2('%s%d' % (n, i))) for n in ('H', '4C', 'J', 'L')] for i in range(s.nd)]
                s.ac = [[put(e2('%s%d' % (n, i))) for n in ('L1', 'RZ')] for i in range(s.na)]
                s.ints = [s.nd, s.na]
            else:
                s.co = [[put(e2('%s%d' % (n, i))) for n in ('l0', 'lVW', 'lVV')] for i in range(s.nd + s.na)]
                s.ints = [s.nd + s.na, 0]
        s.nums = L

    def line(s, what, i, di, ai):
        """coordinates of the value at P of the i-th line"""
        F2, cv = s.F2, s.cv
        m, add = F2.mul, F2.add

        def sc(x, y):
            return F2.unflat([x * e for e in F2.flat(y)])
        if cv.form == 'jac':
            l0, lw, lv = s.co[i]
            z = F2.zero
            parts = [sc(s.py, lw), z, z, z, l0, sc(s.px, lv)]
        elif cv.form == 'ed':
            zz, xy, xz = s.co[i]
            a, b = add(sc(s.pxy, xy), sc(s.pxz, xz)), sc(s.pzz, zz)
            parts = [a, b] if what == 'd' else [b, a]
        elif what == 'd':
            H, C4, J, L = s.dc[di]
            parts = [F2.sub(F2.sub(L, C4), m(J, s.pxt)), m(H, s.pyt)]
        else:
            L1, RZ = s.ac[ai]
            d = F2.sub((s.px,) + (s.c.const(0),) * (cv.e - 1), s.qxt)
            parts = [m(RZ, s.pyt), F2.neg(add(m(s.qyt, RZ), m(d, L1)))]
        return [x for q in parts for x in F2.flat(q)]


def miller(cv, pairs):
    k, T = cv.k, cv.gt

    def fn(c):
        ps = [Pair(c, cv, 'pq'[i]) for i in range(pairs)]
        nums = [x for p in ps for x in p.nums]
        o, _ = c.call('h_ml' if pairs == 1 else 'h_dml', nums, ps[0].ints, nout=k)
        neg = cv.loop < 0 and cv.form != 'ed'
        if c.concrete:
            f = T.one
            mul, sq = T.mul, lambda a: T.mul(a, a)
            val = lambda v: T.unflat([c.cv(x) for x in v])
        else:
            d = c.domain
            f = GVal({})
            mul, sq, val = d.gadd, lambda a: d.gscale(a, 2), d.line
        i = di = ai = 0
        for s in ps[0].st:
            if s == 'd':
                f = sq(f)
            for p in ps:
                f = mul(f, val(p.line(s, i, di, ai)))
            i += 1
            di, ai = di + (s == 'd'), ai + (s == 'a')
        if neg and cv.form == 'mnt':
            for p in ps:
                f = mul(f, val(p.line('a', i, di, ai)))
        nm = 'the result is the product of the line values in the order of the loop'
        if c.concrete:
            got = T.unflat(o)
            if neg:
                if T.pow(f, T.order() - 1) != T.one:
                    raise Infeasible()
                got = T.mul(got, f)
                f = T.one
            c.require_eq(nm, [c.const(x) for x in T.flat(got)], [c.const(x) for x in T.flat(f)])
            return
        if neg:
            f = d.gscale(f, -1)
        g = d.glookup(o)
        if g.c == f.c:
            c.discharged.append(nm)
            return
        if set(g.c) == set(f.c):
            raise Refuted(nm, 'other multiplicities')
        raise Unsupported('the product has other factors than the specified lines')
    return fn


# ---- precomputations --------------------------------------------------------------------------
class TE:
    """an element of a concrete tower, with operators"""
    __slots__ = ('T', 'v')

    def __init__(s, T, v):
        s.T, s.v = T, v

    def __add__(a, b):
        return TE(a.T, a.T.add(a.v, b.v))

    def __mul__(a, b):
        return TE(a.T, a.T.mul(a.v, b.v))

    def __neg__(a):
        return TE(a.T, a.T.unflat([-x % a.T.p for x in a.T.flat(a.v)]))

    def __sub__(a, b):
        return a + -b

    def inv(a):
        if a.v == a.T.zero:
            raise Infeasible()
        return TE(a.T, a.T.pow(a.v, a.T.order() - 2))


class Env:
    """operations of the contracts over symbolic or concrete elements of the second group's field"""

    def __init__(s, c, cv):
        s.c, s.cv, s.T = c, cv, cv.g2
        if not c.concrete:
            s.d = c.domain

    def k(s, n):
        return TE(s.T, s.T.unflat([n % s.cv.p] + [0] * (s.cv.e - 1))) if s.c.concrete else El(Poly.const(n))

    def named(s, nm):
        v = [k for k, n in s.cv_names().items() if n == nm][0]
        return TE(s.T, s.T.unflat(list(v))) if s.c.concrete else s.d.name(nm)

    def cv_names(s):
        return names(s.cv)

    def eq(s, nm, a, b):
        if s.c.concrete:
            s.c.require_true(nm, a.v == b.v)
        else:
            s.c.require(nm, a - b)

    def zero(s, a):
        return a.v == s.T.zero if s.c.concrete else s.c.is_zero(a)

    def nz(s, nm, a):
        s.c.require_true(nm, not s.zero(a))

    def assume(s, a):
        """a != 0"""
        if s.c.concrete:
            if a.v == s.T.zero:
                raise Infeasible()
        else:
            s.c.assume_nonzero(a)


def names(cv):
    if cv.form == 'jac':
        return {(1, 1): 'xi', (4, 4): 'b'}
    g = (0, 1) + (0,) * (cv.e - 2)
    if cv.form == 'ed':
        return {g: 'u'}
    a, nr = {'mnt4': 2, 'mnt6': 11}[cv.name], next(iter(cv.nrs.values()))[0]
    return {g: 'u', (a * nr, 0) if cv.e == 2 else (0, 0, a): 'a'}


def slope(E, form, P, Q=None):
    """numerator and denominator of the slope of the tangent at P, or of the chord"""
    if Q is None:
        n = E.k(3) * P[0] * P[0]
        if form == 'mnt':
            n = n + E.named('a')
        return n, E.k(2) * P[1]
    return P[1] - Q[1], P[0] - Q[0]


def law(E, cv, P, Q=None, d=None):
    """P + Q, or 2 P"""
    if cv.form == 'ed':
        Q = Q or P
        a = E.named('u')
        t = d * P[0] * Q[0] * P[1] * Q[1]
        for x in (E.k(1) + t, E.k(1) - t):
            E.assume(x)
        return (P[0] * Q[1] + P[1] * Q[0]) * (E.k(1) + t).inv(), (P[1] * Q[1] - a * P[0] * Q[0]) * (E.k(1) - t).inv()
    n, m = slope(E, cv.form, P, Q)
    E.assume(m)
    l = n * m.inv()
    x = l * l - P[0] - (Q or P)[0]
    return x, l * (P[0] - x) - P[1]


def curve_d(E, P):
    """the coefficient d of the twisted Edwards curve through P"""
    x2, y2 = P[0] * P[0], P[1] * P[1]
    E.assume(x2 * y2)
    return (E.named('u') * x2 + y2 - E.k(1)) * (x2 * y2).inv()


def line_ok(E, cv, what, co, P, Q, d, nm):
    """the coefficients are those of the tangent at P or of the chord through P and Q, up to a factor"""
    if cv.form == 'ed':
        u = E.named('u')
        zz, xy, xz = co
        if what == 'a':
            zz = zz * u.inv()
        for n, R in ((' at the running point', P), (' at the base', Q))[:1 if what == 'd' else 2]:
            E.eq(nm + ': the conic vanishes' + n, zz * (E.k(1) + R[1]) + xy * R[0] * R[1] + xz * R[0], E.k(0))
        if what == 'd':
            x, y = P
            ex, ey = u * x - d * x * y * y, y - d * x * x * y
            E.eq(nm + ': the conic is tangent', (xy * y + xz) * ey, (zz + xy * x) * ex)
        E.nz(nm + ': the conic is not zero', zz)
        return
    n, m = slope(E, cv.form, P, Q if what == 'a' else None)
    if cv.form == 'jac':
        l0, lw, lv = co
        xi = E.named('xi')
        E.eq(nm + ': slope', lv * xi * m, -(lw * n))
        E.eq(nm + ': constant term', l0 * xi * m, lw * (n * P[0] - P[1] * m))
        E.nz(nm + ': factor', lw)
    elif what == 'd':
        H, C4, J, L = co
        E.eq(nm + ': slope', J * m, H * n)
        E.eq(nm + ': constant term', (L - C4) * m, H * (n * P[0] - P[1] * m))
        E.nz(nm + ': factor', H)
    else:
        L1, RZ = co
        E.eq(nm + ': slope', L1 * m, RZ * n)
        E.nz(nm + ': factor', RZ)


def sqrt2(T, a):
    """square root in F_p2 for p = 3 mod 4"""
    q = T.order()
    if T.pow(a, (q - 1) // 2) != T.one:
        return None
    p = T.p
    a1 = T.pow(a, (p - 3) // 4)
    x0 = T.mul(a1, a)
    al = T.mul(a1, x0)
    if al == T.unflat([p - 1, 0]):
        return T.mul(T.unflat([0, 1]), x0)
    return T.mul(T.pow(T.add(T.one, al), (p - 1) // 2), x0)


def counts(cv):
    st = steps(abs(cv.loop))
    extra = cv.form == 'mnt' and cv.loop < 0
    return st, extra


def outline(cv):
    """number of field elements of the second group written by h_g2"""
    st, extra = counts(cv)
    nd, na = st.count('d'), st.count('a') + extra
    if cv.form == 'mnt':
        return 5 + 4 * nd + 2 * na, [nd, na]
    return (0 if cv.form == 'ed' else 2) + 3 * (nd + na), [nd + na]


def coeffs(cv, els):
    """in the order of the loop: kind and coefficients"""
    st, extra = counts(cv)
    nd = st.count('d')
    if cv.form == 'mnt':
        ds = [els[5 + 4 * i:9 + 4 * i] for i in range(nd)]
        r = els[5 + 4 * nd:]
        ad = [r[2 * i:2 * i + 2] for i in range(len(r) // 2)]
        it = {'d': iter(ds), 'a': iter(ad)}
        return [(s, next(it[s])) for s in st + (['a'] if extra else [])]
    o = 0 if cv.form == 'ed' else 2
    return [(s, els[o + 3 * i:o + 3 * i + 3]) for i, s in enumerate(st)]


def rep(E, cv, P, z):
    if cv.form == 'jac':
        return [P[0] * z * z, P[1] * z * z * z, z]
    if cv.form == 'mnt':
        return [P[0] * z, P[1] * z, z]
    return [P[1] * z, P[0] * z, P[0] * P[1] * z]


def heads(E, cv, els, P):
    """the copies of the point at the front of the result"""
    if cv.form == 'ed':
        return
    E.eq('QX is the affine coordinate', els[0], P[0])
    E.eq('QY is the affine coordinate', els[1], P[1])
    if cv.form == 'mnt':
        u = E.named('u')
        E.eq('QY2 is the square of QY', els[2], P[1] * P[1])
        E.eq('QX_over_twist', els[3] * u, P[0])
        E.eq('QY_over_twist', els[4] * u, P[1])


class Done(Exception):
    pass


def body(m, name, args):
    F = m.mod.fn(name)
    m.touched.add(name)
    m.stack.append(name)
    m.exec(F, args)
    m.stack.pop()


def pre_hooks(cv):
    def h(what):
        def f(m, args, name):
            st = getattr(m.domain, 'steps', None)
            if st is None:
                return NotImplemented
            return st(what, m, args, name)
        return f
    B = r'ate_precompute_g2<[^()]*>::'
    return [(B + r'(?!process)\w*(?:doubl|dbl|tangent)\w*\(', h('d')), (B + r'(?!process)\w*(?:add|chord)\w*\(', h('a'))]


NCO = {'jac': {'d': 3, 'a': 3}, 'mnt': {'d': 4, 'a': 2}, 'ed': {'d': 3, 'a': 3}}
NST = {'jac': 3, 'mnt': 4, 'ed': 4}


def sig(cv, what, m, args):
    """base pointers, state pointer, coefficients pointer of a step"""
    n = {'jac': (3, 3), 'mnt': (2, 5), 'ed': (2, 3)}[cv.form][what == 'a']
    if len(args) != n:
        raise Unsupported('a step with another signature')
    return args[:-2], args[-2], args[-1]


def at(d, p, i):
    return Ptr(p.o, p.off + i * d.xsize())


def state(E, cv, P, z):
    """the representation of the running point, as declared by the invariant of the loop"""
    if cv.form == 'jac':
        return [P[0] * z, P[1] * z, z]
    if cv.form == 'mnt':
        return [P[0] * z * z, P[1] * z * z * z, z, z * z]
    return [P[0] * z, P[1] * z, z, P[0] * P[1] * z]


def state_ok(E, cv, S, R, nm):
    """S represents R and satisfies the invariant"""
    E.nz(nm + ': Z != 0', S[2])
    for n, g, w in zip('XYZT', S, state(E, cv, R, S[2])):
        if n != 'Z':
            E.eq(nm + ': ' + n, g, w)


def step(cv, what):
    """contract of one step, for an arbitrary running point"""
    def fn(c):
        E = Env(c, cv)
        if c.concrete:
            return endtoend(E, c, cv)
        d = E.d
        v = c.var
        P = (v('x'), v('y'))
        z = v('z')
        q = (v('x0'), v('y0'))
        c.assume_nonzero(z)
        for x in (d.name(n) for n in set(d.names.values())):
            c.assume_nonzero(x)
        Q = None
        cd = None
        neg = what == 'n'
        w = 'a' if neg else what
        if cv.form == 'ed':
            cd = v('dd', 2)
            for x in P:
                c.assume_nonzero(x)
            c.assume_zero(cd * P[0] * P[0] * P[1] * P[1] - d.name('u') * P[0] * P[0] - P[1] * P[1] + E.k(1))
            c.assume_nonzero(cd)
            c.assume_nonzero(cd - d.name('u'))
            if w == 'd':
                c.assume_nonzero(E.k(1) - P[1])
                c.assume_nonzero(E.k(1) + P[1])
                Rn = law(E, cv, P, None, cd)
            else:
                Q = (v('x2'), v('y2'))
                for x in Q:
                    c.assume_nonzero(x)
                c.assume_nonzero(P[1] - Q[1])
                c.assume_nonzero(P[0] - Q[0])
                c.assume_nonzero(P[0] + Q[0])
                c.assume_nonzero(P[1] + Q[1])
                c.assume_zero(cd * Q[0] * Q[0] * Q[1] * Q[1] - d.name('u') * Q[0] * Q[0] - Q[1] * Q[1] + E.k(1))
                # the sum and the difference are not of order 2 or 4: the dedicated formulas of Hisil et al. are defined
                c.assume_nonzero(P[1] * Q[1] + d.name('u') * P[0] * Q[0])
                c.assume_nonzero(P[0] * Q[1] - P[1] * Q[0])
                Rn = law(E, cv, P, Q, cd)
        else:
            c.assume_nonzero(E.k(2) * P[1])
            if w == 'd':
                if cv.form == 'jac':
                    c.assume_zero(d.name('b') - P[1] * P[1] + P[0] * P[0] * P[0])
                Rn = law(E, cv, P)
            elif neg:
                Q, Rn = (P[0], -P[1]), None
            else:
                Q = (v('x2'), v('y2'))
                c.assume_nonzero(P[0] - Q[0])
                Rn = law(E, cv, P, Q)

        def hook(kind, m, args, name):
            bs, sp, cp = sig(cv, kind, m, args)
            if kind != w:
                for i in range(NCO[cv.form][kind]):
                    d.xput(at(d, cp, i), El(Poly.const(0)))
                return None
            for i, e in enumerate(state(E, cv, P, z)):
                d.xput(at(d, sp, i), e)
            if kind == 'a':
                if cv.form == 'mnt':
                    base = [Q[0], Q[1], Q[1] * Q[1]]
                    ps = bs
                else:
                    base = [Q[0], Q[1], E.k(1), Q[0] * Q[1]] if cv.form == 'ed' else [Q[0], Q[1]]
                    ps = [at(d, bs[0], i) for i in range(len(base))]
                new = []
                for pp, e in zip(ps, base):
                    new.append(e)
                if cv.form == 'mnt':
                    q3 = []
                    for e in base:
                        t = m.alloc(d.xsize(), 'base')
                        d.xput(t, e)
                        q3.append(t)
                    args = q3 + list(args[-2:])
                else:
                    t = m.alloc(d.xsize() * len(base), 'base')
                    for i, e in enumerate(base):
                        d.xput(at(d, t, i), e)
                    args = [t] + list(args[-2:])
            body(m, name, args)
            S = [d.xget(at(d, sp, i)) for i in range(NST[cv.form])]
            co = [d.xget(at(d, cp, i)) for i in range(NCO[cv.form][kind])]
            if neg:
                E.eq('the vertical line has no second coordinate', co[1], E.k(0))
                E.nz('the vertical line is not zero', co[0])
            else:
                state_ok(E, cv, S, Rn, 'the new running point')
                line_ok(E, cv, kind, co, P, Q, cd, 'the coefficients')
            raise Done()
        d.steps = hook
        a, b, zq = v('xq'), v('yq'), v('zq')
        for x in (a, b, zq):
            c.assume_nonzero(x)
        n, _ = outline(cv)
        try:
            c.call('h_g2', [y for x in rep(E, cv, (a, b), zq) for y in d.parts(x)], nout=n * cv.e, niout=2)
        except Done:
            return
        raise Unsupported('the step was not reached')
    return fn


def whole(cv):
    """the loop: steps by their contracts"""
    def fn(c):
        E = Env(c, cv)
        if c.concrete:
            return endtoend(E, c, cv)
        d = E.d
        P = (c.var('x'), c.var('y'))
        zq = c.var('zq')
        for x in (*P, zq, d.name('xi' if cv.form == 'jac' else 'u')):
            c.assume_nonzero(x)
        pts = {}
        log = []
        cnt = [0]

        def new():
            cnt[0] += 1
            return [c.var('s%d_%d' % (cnt[0], i)) for i in range(NST[cv.form])]

        def run(m, sp):
            S = [d.xget(at(d, sp, i)) for i in range(NST[cv.form])]
            k = pts.get(repr(S[2]))
            if k is None or k[0] is None:
                # the base itself
                for n, g, w in zip('XYZT', S, state(E, cv, P, E.k(1))):
                    E.eq('the loop starts at the point: ' + n, g, w)
                return 1
            for g, w in zip(S, k[1]):
                if not c.facts.provably_zero(g - w):
                    raise Unsupported('the running point is not that left by a step')
            return k[0]

        def hook(kind, m, args, name):
            bs, sp, cp = sig(cv, kind, m, args)
            n = run(m, sp)
            S = [d.xget(at(d, sp, i)) for i in range(NST[cv.form])]
            neg = False
            if kind == 'a':
                if cv.form == 'mnt':
                    B = [d.xget(x) for x in bs]
                    E.eq('third argument is the square of the second', B[2], B[1] * B[1])
                    if S[2] is not None and not c.facts.provably_zero(B[0] - P[0]):
                        z2 = S[2] * S[2]
                        c.assume_nonzero(S[2])
                        E.eq('the last base is the opposite of the running point: X', B[0] * z2, S[0])
                        E.eq('the last base is the opposite of the running point: Y', B[1] * z2 * S[2], -S[1])
                        neg = True
                else:
                    B = [d.xget(at(d, bs[0], i)) for i in range(2 if cv.form == 'jac' else 4)]
                    if cv.form == 'ed':
                        E.eq('the base has Z = 1', B[2], E.k(1))
                        E.eq('the base has T = X Y', B[3], P[0] * P[1])
                if not neg:
                    E.eq('the base is the point: X', B[0], P[0])
                    E.eq('the base is the point: Y', B[1], P[1])
                    c.require_true('the running point is neither the base nor its opposite', n % cv.r not in (1, cv.r - 1, 0))
                k = 0 if neg else n + 1
            else:
                if cv.form == 'jac':
                    t = d.get(bs[0], d.nl)
                    c.require('the first argument is one half', d.el(t) * El(Poly.const(2)) - El(Poly.const(1)))
                c.require_true('the running point is finite', n % cv.r != 0)
                k = 2 * n
            S = new()
            for i, e in enumerate(S):
                d.xput(at(d, sp, i), e)
            pts[repr(S[2])] = (k, S)
            co = [c.var('%s%d_%d' % (kind, len(log), i)) for i in range(NCO[cv.form][kind])]
            for i, e in enumerate(co):
                d.xput(at(d, cp, i), e)
            log.append((kind, n, neg, co))
        d.steps = hook
        n, ns = outline(cv)
        out, io = c.call('h_g2', [y for x in rep(E, cv, P, zq) for y in d.parts(x)], nout=n * cv.e, niout=len(ns), partial=True)
        c.require_true('number of steps', io[:len(ns)] == ns)
        els = [d.ofparts(out[i * cv.e:(i + 1) * cv.e]) for i in range(n)]
        heads(E, cv, els, P)
        st, extra = counts(cv)
        k = 1
        want = []
        for s in st:
            want.append((s, k))
            k = 2 * k if s == 'd' else k + 1
        c.require_true('the loop count is reached', k == abs(cv.loop))
        if extra:
            want.append(('a', k))
        c.require_true('the steps are those of the loop count', [x[:2] for x in log] == want)
        c.require_true('the vertical line comes last', [x[2] for x in log] == [False] * len(st) + [True] * extra)
        ok = all(c.facts.provably_zero(a - b) for x, (s, co) in zip(log, coeffs(cv, els)) for a, b in zip(x[3], co))
        c.require_true('the coefficients are stored in the order of the steps', ok)
    return fn


def endtoend(E, c, cv):
    T = cv.g2
    vs = [c.cv(c.var('n%d' % i)) for i in range(2 * cv.e + 1)]
    x = T.unflat(vs[:cv.e])
    y = T.unflat(vs[cv.e:2 * cv.e])
    if cv.form == 'jac':
        b = T.unflat([4, 4])
        for i in range(40):
            y = sqrt2(T, T.add(T.mul(T.mul(x, x), x), b))
            if y is not None:
                break
            x = T.add(x, T.one)
        else:
            raise Infeasible()
    P = (TE(T, x), TE(T, y))
    z = E.k(vs[-1])
    z = TE(T, T.add(z.v, T.gen()))
    d = curve_d(E, P) if cv.form == 'ed' else None
    n, ns = outline(cv)
    out, io = c.call('h_g2', [c.const(w) for e in rep(E, cv, P, z) for w in T.flat(e.v)], nout=n * cv.e, niout=len(ns))
    c.require_true('number of steps', list(io[:len(ns)]) == ns)
    els = [TE(T, T.unflat(out[i * cv.e:(i + 1) * cv.e])) for i in range(n)]
    heads(E, cv, els, P)
    R = P
    cs = coeffs(cv, els)
    st, extra = counts(cv)
    for i, (s, co) in enumerate(cs):
        if i == len(st):
            E.eq('the vertical line has no second coordinate', co[1], E.k(0))
            E.nz('the vertical line is not zero', co[0])
            break
        line_ok(E, cv, s, co, R, P, d, 'step %d' % i)
        R = law(E, cv, R, None, d) if s == 'd' else law(E, cv, R, P, d)


def pre_g1(cv):
    def fn(c):
        zero = cv.form != 'ed' and c.choose(2, 'point at infinity')
        x, y, z = c.vars('x y z')
        k = c.const
        if not zero:
            c.assume_nonzero(z)
        if cv.form == 'jac':
            r = [x, y, k(0)] if zero else [x * z * z, y * z * z * z, z]
        elif cv.form == 'mnt':
            r = [k(0), y, k(0)] if zero else [x * z, y * z, z]
            if zero:
                c.assume_nonzero(y)
        else:
            c.assume_nonzero(x)
            c.assume_nonzero(y)
            r = [y * z, x * z, x * y * z]
        want = [k(0), k(0)] if zero else [x, y]
        nm = ['PX', 'PY']
        if cv.form == 'mnt':
            z0 = [k(0)]
            want = want + z0 + [want[0]] + z0 * (cv.e - 2) + z0 + [want[1]] + z0 * (cv.e - 2)
            nm += ['PX_twist[%d]' % i for i in range(cv.e)] + ['PY_twist[%d]' % i for i in range(cv.e)]
        elif cv.form == 'ed':
            nm = ['P_XY', 'P_XZ', 'P_ZZplusYZ']
            want = [x * y, x, k(1) + y]
        o, _ = c.call('h_g1', r, nout=len(want))
        if c.concrete:
            o = [k(v) for v in o]
        for n, g, w in zip(nm, o, want):
            c.require(n, (c.domain.el(g) if not c.concrete else g) - w)
    return fn


def sparse(cv):
    if cv.k != 12:
        return None
    z = [0, 0]
    # contract of the sparse products (C05)
    return {'mul_by_045': (lambda l0, lw, lv: lw + z + z + z + l0 + lv, 2), 'mul_by_024': (lambda l0, lw, lv: l0 + z + lv + z + lw + z, 2)}


def obligations(tier):
    L = []
    for cv in CURVES:
        if cv.form == 'bn':
            continue
        for n, nm in ((1, 'Miller loop'), (2, 'double Miller loop')):
            L.append(Ob('%s: %s' % (cv.name, nm), cv.tu('ML'), miller(cv, n), nl=cv.nl, prime=cv.p, domain=powdom.make(cv.p, cv.k, cv.nl, reduce=False), hooks=powdom.hooks(cv.cls, cv.k, cv.p, sparse(cv)),
                        trials=2 if tier == 'quick' else 10, elout=False, backend='exponent arithmetic over line values', timeout=300))
        L.append(Ob(cv.name + ': precomputation of the first point', cv.tu('G1'), pre_g1(cv), nl=cv.nl, prime=cv.p, trials=20, elout=False))
        dom = extdom.make('element_fp%d' % cv.e, cv.e, cv.nl, next(iter(cv.nrs.values()))[0] % cv.p, {tuple(x % cv.p for x in k): n for k, n in names(cv).items()})
        hk = pre_hooks(cv) + extdom.hooks('element_fp%d' % cv.e)
        for nm, f in (('doubling step', step(cv, 'd')), ('addition step', step(cv, 'a'))) + ((('last addition step', step(cv, 'n')),) if cv.form == 'mnt' else ()) + (('precomputation', whole(cv)),):
            L.append(Ob('%s: %s' % (cv.name, nm), cv.tu('G2'), f, nl=cv.nl, prime=cv.p, domain=dom, hooks=hk, trials=3 if tier == 'quick' else 30, elout=False,
                        backend='polynomial identity over the extension field', timeout=300, confirm=True))
    return L
