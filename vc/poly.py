"""Sparse polynomials over Z (or F_p), rational functions with factored denominators, and the fact base of a path:
solved equations (substitutions), triangular reduction rules, known non-zero polynomials."""
import functools

B = 10                     # bits per exponent
M = (1 << B) - 1
MAXDEG = M
NAMES = []                 # variable names
VIDX = {}
PRIO = []                  # elimination priority: higher is eliminated first
P = [None]                 # modulus of the coefficients (None: integers)
USED_PRIMES = set()


def reset(p=None):
    NAMES.clear(); VIDX.clear(); PRIO.clear(); P[0] = p
    USED_PRIMES.clear()
    _factor_cache.clear()


def newvar(name, prio=0):
    if name in VIDX:
        k = 1
        while '%s~%d' % (name, k) in VIDX:
            k += 1
        name = '%s~%d' % (name, k)
    VIDX[name] = len(NAMES)
    NAMES.append(name)
    PRIO.append(prio)
    return Poly({1 << (B * VIDX[name]): 1}, 1)


class Poly:
    __slots__ = ('d', 'deg', '_h')

    def __init__(s, d, deg):
        s.d = d
        s.deg = deg
        s._h = None
        if deg > MAXDEG:
            t = s.totaldeg()
            s.deg = t
            if t > MAXDEG:
                raise OverflowError('degree')

    def totaldeg(s):
        r = 0
        for m in s.d:
            t = 0
            while m:
                t += m & M
                m >>= B
            r = max(r, t)
        return r

    @staticmethod
    def const(c):
        if P[0]:
            c %= P[0]
        return Poly({0: c} if c else {}, 0)

    def __bool__(s):
        return bool(s.d)

    def is_const(s):
        return not s.d or (len(s.d) == 1 and 0 in s.d)

    def cval(s):
        return s.d.get(0, 0)

    def __add__(s, t):
        if len(s.d) < len(t.d):
            s, t = t, s
        d = dict(s.d)
        p = P[0]
        for m, c in t.d.items():
            v = d.get(m, 0) + c
            if p:
                v %= p
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d, max(s.deg, t.deg))

    def __neg__(s):
        p = P[0]
        return Poly({m: (p - c if p else -c) for m, c in s.d.items()}, s.deg)

    def __sub__(s, t):
        d = dict(s.d)
        p = P[0]
        for m, c in t.d.items():
            v = d.get(m, 0) - c
            if p:
                v %= p
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d, max(s.deg, t.deg))

    def __mul__(s, t):
        if len(s.d) > len(t.d):
            s, t = t, s
        p = P[0]
        if not s.d:
            return s
        if len(s.d) == 1:
            (m1, c1), = s.d.items()
            if m1 == 0 and c1 == 1:
                return t
            d = {m1 + m: c1 * c for m, c in t.d.items()}
            if p:
                d = {m: c % p for m, c in d.items() if c % p}
            return Poly(d, s.deg + t.deg)
        d = {}
        get = d.get
        ti = list(t.d.items())
        for m1, c1 in s.d.items():
            for m2, c2 in ti:
                m = m1 + m2
                d[m] = get(m, 0) + c1 * c2
        if p:
            d = {m: c % p for m, c in d.items() if c % p}
        else:
            d = {m: c for m, c in d.items() if c}
        return Poly(d, s.deg + t.deg)

    def scale(s, k):
        return Poly.const(k) * s

    def __pow__(s, n):
        r = Poly.const(1)
        b = s
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __eq__(s, t):
        return s.d == t.d

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.d.items()))
        return s._h

    def vars(s):
        o = 0
        for m in s.d:
            o |= m
        r = []
        i = 0
        while o:
            if o & M:
                r.append(i)
            o >>= B
            i += 1
        return r

    def degv(s, v):
        sh = B * v
        return max(((m >> sh) & M for m in s.d), default=0)

    def coeffs(s, v):
        """{k: Poly coefficient of v^k}"""
        sh = B * v
        r = {}
        for m, c in s.d.items():
            k = (m >> sh) & M
            r.setdefault(k, {})[m - (k << sh)] = c
        return {k: Poly(d, s.deg) for k, d in r.items()}

    def content(s):
        """monomial gcd and integer gcd"""
        import math
        if not s.d:
            return 0, 0
        g = 0
        it = iter(s.d)
        mg = next(it)
        for c in s.d.values():
            g = math.gcd(g, c)
        for m in it:
            if not mg:
                break
            r = 0
            sh = 0
            a = mg
            b = m
            while a and b:
                x = a & M
                y = b & M
                r |= (x if x < y else y) << sh
                a >>= B
                b >>= B
                sh += B
            mg = r
        return mg, g

    def divmono(s, m, c=1):
        return Poly({k - m: v // c for k, v in s.d.items()}, s.deg)

    def divexact(s, t):
        """exact quotient or None"""
        if not s.d:
            return s
        p = P[0]
        lt = max(t.d)
        lc = t.d[lt]
        ilc = pow(lc, -1, p) if p else None
        rem = dict(s.d)
        q = {}
        ti = list(t.d.items())
        steps = 0
        while rem:
            m = max(rem)
            c = rem[m]
            # monomial divisibility
            a, b = m, lt
            while b:
                if (a & M) < (b & M):
                    return None
                a >>= B
                b >>= B
            if p:
                k = c * ilc % p
            else:
                if c % lc:
                    return None
                k = c // lc
            dm = m - lt
            q[dm] = k
            for m2, c2 in ti:
                mm = m2 + dm
                v = rem.get(mm, 0) - k * c2
                if p:
                    v %= p
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
            steps += 1
            if steps > 20000:
                return None
        return Poly(q, s.deg)

    def lead_sign_normal(s):
        """canonical up to sign / unit"""
        if not s.d:
            return s
        lc = s.d[max(s.d)]
        if P[0]:
            return s.scale(pow(lc, -1, P[0])) if lc != 1 else s
        return -s if lc < 0 else s

    def eval(s, env, p):
        r = 0
        for m, c in s.d.items():
            t = c
            i = 0
            while m:
                e = m & M
                if e:
                    t = t * pow(env[i], e, p) % p
                m >>= B
                i += 1
            r += t
        return r % p

    def __repr__(s):
        if not s.d:
            return '0'
        ts = []
        for m in sorted(s.d, reverse=True)[:40]:
            c = s.d[m]
            f = []
            i = 0
            mm = m
            while mm:
                e = mm & M
                if e:
                    f.append(NAMES[i] + ('^%d' % e if e > 1 else ''))
                mm >>= B
                i += 1
            if not f:
                ts.append(str(c))
            elif c == 1:
                ts.append('*'.join(f))
            elif c == -1:
                ts.append('-' + '*'.join(f))
            else:
                ts.append('%d*%s' % (c, '*'.join(f)))
        r = ' + '.join(ts).replace('+ -', '- ')
        if len(s.d) > 40:
            r += ' + ... (%d terms)' % len(s.d)
        return r


_factor_cache = {}


def factor(p):
    """list of irreducible factors (without multiplicity or constants); heuristic for very large polynomials"""
    p = p.lead_sign_normal()
    if p in _factor_cache:
        return _factor_cache[p]
    mg, g = p.content()
    out = []
    q = p
    if mg:
        q = p.divmono(mg)
        i = 0
        m = mg
        while m:
            if m & M:
                out.append(Poly({1 << (B * i): 1}, 1))
            m >>= B
            i += 1
    if not P[0] and g > 1:
        q = Poly({m: c // g for m, c in q.d.items()}, q.deg)
    if not q.is_const():
        vs = q.vars()
        lin = None
        if len(q.d) <= 600 and len(vs) <= 14 and len(q.d) > 1:
            # a polynomial of degree 1 in a variable whose coefficients are coprime is irreducible; let sympy decide
            lin = _sympy_factor(q, vs)
        out += lin if lin is not None else [q.lead_sign_normal()]
    _factor_cache[p] = out
    return out


def _sympy_factor(q, vs):
    from sympy.polys.rings import ring
    from sympy import ZZ, GF
    dom = ZZ
    if P[0]:
        if P[0] > 1 << 61:
            # lift small coefficients symmetrically
            pp = P[0]
            q = Poly({m: (c if c <= pp // 2 else c - pp) for m, c in q.d.items()}, q.deg)
            if any(abs(c) > 1 << 40 for c in q.d.values()):
                return None
        else:
            return None
    R = ring(['v%d' % v for v in vs], dom)[0]
    d = {}
    for m, c in q.d.items():
        d[tuple((m >> (B * v)) & M for v in vs)] = c
    f = R.from_dict(d)
    try:
        _, fl = f.factor_list()
    except Exception:
        return None
    out = []
    for g, _ in fl:
        dd = {}
        for mon, c in g.terms():
            mm = 0
            for e, v in zip(mon, vs):
                mm |= e << (B * v)
            c = int(c)
            if P[0]:
                c %= P[0]
            if c:
                dd[mm] = c
        t = Poly(dd, 1)
        t.deg = t.totaldeg()
        out.append(t.lead_sign_normal())
    return out


class El:
    """rational function num / prod(den_i^e_i); every den_i is known to be non-zero on the current path"""
    __slots__ = ('n', 'den')

    def __init__(s, n, den=()):
        if not isinstance(n, Poly):
            n = Poly.const(n)
        s.n = n
        s.den = den if n.d else ()

    @staticmethod
    def lift(x):
        return x if isinstance(x, El) else El(Poly.const(int(x)))

    @staticmethod
    def _common(a, b):
        if a.den == b.den:
            return a.n, b.n, a.den
        da = dict(a.den)
        db = dict(b.den)
        l = dict(da)
        for k, e in db.items():
            if l.get(k, 0) < e:
                l[k] = e
        an, bn = a.n, b.n
        for k, e in l.items():
            x = e - da.get(k, 0)
            if x:
                an = an * k ** x
            x = e - db.get(k, 0)
            if x:
                bn = bn * k ** x
        return an, bn, tuple(l.items())

    def __add__(a, b):
        b = El.lift(b)
        x, y, d = El._common(a, b)
        return El(x + y, d).simp()

    __radd__ = __add__

    def __sub__(a, b):
        b = El.lift(b)
        x, y, d = El._common(a, b)
        return El(x - y, d).simp()

    def __rsub__(a, b):
        return El.lift(b) - a

    def __neg__(a):
        return El(-a.n, a.den)

    def __mul__(a, b):
        b = El.lift(b)
        if not a.den and not b.den:
            return El(a.n * b.n)
        d = dict(a.den)
        for k, e in b.den:
            d[k] = d.get(k, 0) + e
        return El(a.n * b.n, tuple(d.items())).simp()

    __rmul__ = __mul__

    def __pow__(a, n):
        r = El(1)
        for _ in range(n):
            r = r * a
        return r

    def simp(s):
        if not s.den:
            return s
        if not s.n.d:
            return El(s.n)
        out = []
        n = s.n
        for k, e in s.den:
            if len(k.d) == 1:
                (m, c), = k.d.items()
                if c == 1:
                    while e and all(_divides(m, x) for x in n.d):
                        n = n.divmono(m)
                        e -= 1
            elif len(n.d) <= 400 and len(k.d) <= 40:
                while e:
                    q = n.divexact(k)
                    if q is None:
                        break
                    n = q
                    e -= 1
            if e:
                out.append((k, e))
        return El(n, tuple(out))

    def denpoly(s):
        r = Poly.const(1)
        for k, e in s.den:
            r = r * k ** e
        return r

    def inv(s):
        """caller has established num != 0"""
        num = s.denpoly()
        if s.n.is_const():
            c = s.n.cval()
            if P[0]:
                return El(num.scale(pow(c, -1, P[0])))
            if c == 1:
                return El(num)
            if c == -1:
                return El(-num)
            _note_prime(c)
            return El(num, ((Poly.const(c), 1),))
        den = {}
        n = s.n
        for f in factor(n):
            k = 0
            while True:
                q = n.divexact(f)
                if q is None:
                    break
                n = q
                k += 1
            if k:
                den[f] = k
        if n.is_const():
            c = n.cval()
            if P[0]:
                num = num.scale(pow(c, -1, P[0]))
            elif c == -1:
                num = -num
            elif c != 1:
                _note_prime(c)
                den[Poly.const(c)] = 1
        else:
            den[n] = 1
        return El(num, tuple(den.items())).simp()

    def eval(s, env, p):
        d = s.denpoly().eval(env, p)
        if d == 0:
            raise ZeroDivisionError
        return s.n.eval(env, p) * pow(d, -1, p) % p

    def __repr__(s):
        if not s.den:
            return repr(s.n)
        return '(%r)/(%s)' % (s.n, '*'.join('(%r)^%d' % (k, e) for k, e in s.den))

    # structural equality only
    def same(a, b):
        x, y, _ = El._common(a, El.lift(b))
        return x == y


def _divides(m, x):
    while m:
        if (x & M) < (m & M):
            return False
        m >>= B
        x >>= B
    return True


def _note_prime(c):
    c = abs(c)
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31):
        while c % q == 0:
            c //= q
            USED_PRIMES.add(q)
    if c > 1:
        USED_PRIMES.add(c)


class Infeasible(Exception):
    pass


class Facts:
    def __init__(s, chooser):
        s.subst = {}           # var -> El (fully reduced w.r.t. later ones lazily)
        s.nonzero = []         # Polys
        s.nzorig = []
        s.nzset = set()
        s.rules = []           # (var, degree, poly)
        s.hyps = []            # descriptions
        s.eqs = []
        s.choose = chooser
        s._cache = {}

    # -- normal forms ----------------------------------------------------------------
    def sub_poly(s, p):
        """apply the substitutions; returns El"""
        while True:
            vs = [v for v in p.vars() if v in s.subst]
            if not vs:
                return El(p)
            v = vs[0]
            e = s.subst[v]
            cs = p.coeffs(v)
            k = max(cs)
            if not e.den:
                acc = Poly({}, 0)
                for i in range(k, -1, -1):
                    acc = acc * e.n
                    if i in cs:
                        acc = acc + cs[i]
                p = acc
                continue
            dp = e.denpoly()
            acc = Poly({}, 0)
            dpow = Poly.const(1)
            npow = [Poly.const(1)]
            for i in range(k):
                npow.append(npow[-1] * e.n)
            for i in range(k, -1, -1):
                if i in cs:
                    acc = acc + cs[i] * npow[i] * dpow
                dpow = dpow * dp
            # acc / dp^k ; only the numerator matters up to non-zero factors
            res = El(acc, tuple((f, x * k) for f, x in e.den)).simp()
            r2 = s.sub_poly(res.n)
            # denominators may mention substituted variables as well
            den = {}
            num = r2.n
            for f, x in list(res.den) + list(r2.den):
                g = s.sub_poly(f) if any(v2 in s.subst for v2 in f.vars()) else None
                if g is None:
                    den[f] = den.get(f, 0) + x
                else:
                    num = num * g.denpoly() ** x
                    den[g.n] = den.get(g.n, 0) + x
            return El(num, tuple(den.items())).simp()

    def red(s, p):
        """pseudo-reduction by the rules (numerators only; multiplies by non-zero leading coefficients)"""
        changed = True
        while changed and p.d:
            changed = False
            for v, d, q in s.rules:
                k = p.degv(v)
                if k < d:
                    continue
                lc = q.coeffs(v)[d]
                tail = q - lc * Poly({d << (B * v): 1}, d)
                while True:
                    cs = p.coeffs(v)
                    k = max(cs)
                    if k < d:
                        break
                    top = cs[k]
                    rest = p - top * Poly({k << (B * v): 1}, k)
                    p = (rest * lc if not (lc.is_const() and lc.cval() == 1) else rest) - top * tail * Poly({(k - d) << (B * v): 1}, k - d)
                    changed = True
                    if not p.d:
                        return p
        return p

    def norm(s, x):
        """numerator of x, normalised (zero iff provably zero)"""
        p = x.n if isinstance(x, El) else x
        if p.is_const():
            return p
        c = s._cache.get(p)
        if c is not None:
            return c
        q = s.sub_poly(p).n if s.subst else p
        if s.rules:
            q = s.red(q)
        s._cache[p] = q
        return q

    def value(s, x):
        """x with substitutions applied (an El)"""
        if not s.subst:
            return x
        e = s.sub_poly(x.n)
        if not x.den:
            return e
        d = El(x.denpoly())
        dd = s.sub_poly(d.n)
        return El(e.n * dd.denpoly(), e.den) * El(Poly.const(1), tuple((f, 1) for f in [dd.n])) if True else None

    # -- queries -----------------------------------------------------------------------
    def known_nonzero(s, p):
        if p.is_const():
            c = p.cval()
            if c == 0:
                return False
            if not P[0] and abs(c) != 1:
                _note_prime(c)
            return True
        if p.lead_sign_normal() in s.nzset:
            return True
        return all(f in s.nzset for f in factor(p))

    def provably_zero(s, x):
        n = s.norm(x)
        if not n.d:
            return True
        return bool(s.eqs) and s.combination(n)

    def add_equation(s, x):
        """a polynomial known to vanish that is used as it stands (goals may be linear combinations of these)"""
        n = s.norm(x)
        if n.d:
            s.eqs.append(n)

    def combination(s, n):
        import fractions
        p = P[0]
        if p:
            Fr = lambda c: c % p
            inv = lambda c: pow(c, -1, p)
        else:
            Fr = fractions.Fraction
            inv = lambda c: 1 / c

        def sub(d, c, r):
            for m, v in r.items():
                t = d.get(m, 0) - c * v
                if p:
                    t %= p
                if t:
                    d[m] = t
                else:
                    d.pop(m, None)
        rows = []
        for e in s.eqs:
            d = {m: Fr(c) for m, c in e.d.items()}
            for pm, r in rows:
                c = d.get(pm)
                if c:
                    sub(d, c, r)
            if d:
                pm = max(d)
                iv = inv(d[pm])
                rows.append((pm, {m: Fr(v * iv) for m, v in d.items()}))
        d = {m: Fr(c) for m, c in n.d.items()}
        for pm, r in rows:
            c = d.get(pm)
            if c:
                sub(d, c, r)
                if not p:
                    _note_prime(c.denominator)
        return not d

    def provably_nonzero(s, x):
        n = s.norm(x)
        if not n.d:
            return False
        n = s.strip(n)
        return s.known_nonzero(n)

    def strip(s, n):
        """divide out known non-zero factors"""
        for f in s.nonzero:
            if len(n.d) < len(f.d):
                continue
            while True:
                q = n.divexact(f)
                if q is None or n.is_const():
                    break
                n = q
        return n

    # -- decisions ----------------------------------------------------------------------
    def is_zero(s, x, why=''):
        """decide x == 0 on this path, forking if both outcomes are possible"""
        n = s.norm(x)
        if not n.d:
            return True
        if n.is_const():
            s.known_nonzero(n)
            return False
        if s.eqs and s.combination(n):
            return True
        n = s.strip(n)
        if n.is_const():
            return False
        fs = [f for f in factor(n) if f not in s.nzset]
        if not fs:
            return False
        if s.rules and s.raw_nonzero(x):
            return False
        k = s.choose(len(fs) + 1)
        if k == 0:
            for f in fs:
                s.assume_nonzero(f)
            return False
        for f in fs[:k - 1]:
            s.assume_nonzero(f)
        s.assume_zero(fs[k - 1])
        return True

    def raw_nonzero(s, x):
        """non-zero because every factor of the unreduced polynomial is"""
        p = s.sub_poly(x.n if isinstance(x, El) else x).n
        if not p.d:
            return False
        known = set()
        for o in s.nzorig:
            q = s.sub_poly(o).n
            if q.d:
                known.update(factor(q))
        for f in factor(p):
            if f not in known and not f.is_const() and not s.known_nonzero(s.norm(f)):
                return False
        return True

    def assume_nonzero(s, x):
        n = s.norm(x)
        if not n.d:
            raise Infeasible()
        s.nzorig.append(x.n if isinstance(x, El) else x)
        if n.is_const():
            return
        for f in factor(n):
            if f not in s.nzset:
                s.nzset.add(f)
                s.nonzero.append(f)
        s.hyps.append(('!=', n))

    def assume_zero(s, x):
        n = s.norm(x)
        if not n.d:
            return
        n = s.strip(n)
        if n.is_const():
            if n.cval():
                raise Infeasible()
            return
        fs = [f for f in factor(n) if f not in s.nzset]
        if not fs:
            raise Infeasible()
        if len(fs) > 1:
            k = s.choose(len(fs))
            for f in fs[:k]:
                s.assume_nonzero(f)
            f = fs[k]
        else:
            f = fs[0]
        s.hyps.append(('==', f))
        s._solve(f)

    def _solve(s, f):
        cands = []
        for v in f.vars():
            cs = f.coeffs(v)
            k = max(cs)
            lc = cs[k]
            cands.append((k, -PRIO[v], len(f.d), -v, v, lc))
        cands.sort(key=lambda t: t[:4])
        # linear with a coefficient known to be non-zero
        for k, _, _, _, v, lc in cands:
            if k == 1 and s.known_nonzero(lc):
                return s._install(v, f)
        for k, _, _, _, v, lc in cands:
            if k == 1:
                if s.is_zero(El(lc)):
                    # the rest must vanish as well
                    return s.assume_zero(El(f))
                return s._install(v, f)
        for k, _, _, _, v, lc in cands:
            if s.known_nonzero(lc):
                s.rules.append((v, k, f))
                s._refresh()
                return
        k, _, _, _, v, lc = cands[0]
        if s.is_zero(El(lc)):
            return s.assume_zero(El(f))
        s.rules.append((v, k, f))
        s._refresh()

    def _install(s, v, f):
        cs = f.coeffs(v)
        rest = cs.get(0, Poly({}, 0))
        e = El(-rest) * El(cs[1]).inv()
        s.subst[v] = e
        s._refresh()

    def _refresh(s):
        s._cache = {}
        old = s.nonzero
        s.nonzero = []
        s.nzset = set()
        for f in old:
            n = s.norm(El(f))
            if not n.d:
                raise Infeasible()
            if n.is_const():
                continue
            for g in factor(n):
                if g not in s.nzset:
                    s.nzset.add(g)
                    s.nonzero.append(g)
        rules = s.rules
        s.rules = []
        pend = []
        for v, d, q in rules:
            if any(u in s.subst for u in q.vars()):
                pend.append(s.sub_poly(q).n)
            else:
                s.rules.append((v, d, q))
        s._cache = {}
        s.eqs = [n for n in (s.norm(e) for e in s.eqs) if n.d]
        for q in pend:
            s.assume_zero(El(q))

    # -- concretisation -----------------------------------------------------------------
    def sample(s, rng, p, fixed=None, tries=400):
        """values modulo p for all variables satisfying the facts, or None"""
        n = len(NAMES)
        for _ in range(tries):
            env = [rng.randrange(p) if rng.random() < 0.9 else rng.randrange(min(p, 4)) for _ in range(n)]
            if fixed:
                for v, x in fixed.items():
                    env[v] = x % p
            ok = True
            for v, d, q in reversed(s.rules):
                roots = []
                for t in (range(p) if p < 2000 else [rng.randrange(p) for _ in range(50)]):
                    env[v] = t
                    if q.eval(env, p) == 0:
                        roots.append(t)
                if not roots:
                    ok = False
                    break
                env[v] = rng.choice(roots)
            if not ok:
                continue
            try:
                for v in reversed(list(s.subst)):
                    env[v] = s.subst[v].eval(env, p)
                # substitutions may depend on one another: iterate
                for _r in range(4):
                    ch = False
                    for v in s.subst:
                        t = s.subst[v].eval(env, p)
                        if t != env[v]:
                            env[v] = t
                            ch = True
                    if not ch:
                        break
                if ch:
                    continue
            except ZeroDivisionError:
                continue
            if any(f.eval(env, p) == 0 for f in s.nonzero):
                continue
            if any(q.eval(env, p) for _, _, q in s.rules):
                continue
            return env
        return None
