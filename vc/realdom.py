"""Real numbers: exact reals (rational functions of the inputs), order decided with z3 under the facts of the path.
numeric_limits<T>::epsilon() is an infinitesimal: a magnitude is below a tolerance exactly when it is zero."""
import fractions
import z3
from .llvmir import Ptr, UNDEF
from .poly import Poly, El, Infeasible, M, B, factor
from . import poly
from .machine import EXTERN, Fail, Unsupported, SVal, Obj
from .domain import FieldDomain

EPS = 2.0 ** -52


class Abs(SVal):
    """|e|, only used where the order of magnitudes is irrelevant for the property"""
    __slots__ = ('e',)

    def __init__(s, e):
        s.e = e


class Tol(SVal):
    """an infinitesimal multiple of a magnitude; zero iff all the listed values are zero"""
    __slots__ = ('of',)

    def __init__(s, of):
        s.of = of


class Mag(SVal):
    """a non-negative magnitude that is zero iff all the listed values are zero"""
    __slots__ = ('of',)

    def __init__(s, of):
        s.of = of


ZV = {}      # variables and terms, shared by all paths
ZC = {}


class RealDomain(FieldDomain):
    def __init__(s, facts, symbols=None, prime=None):
        FieldDomain.__init__(s, facts, symbols, prime)
        s.signs = []      # (Poly, sign)
        s.nonneg = []
        s.absof = []      # (x, a name for |x|)
        s.extof = []      # ('min' or 'max', values, a name for the least / greatest of them)
        s.zv = ZV
        s.zcache = ZC
        s.order = s.ordered
        s.pairs = {}
        s.mags = {}
        s.plain = facts.is_zero
        facts.is_zero = s.decide_zero

    def decide_zero(s, x, why=''):
        k = len(s.facts.hyps)
        r = s.plain(x, why)
        if s.signs and len(s.facts.hyps) > k and not s.feasible([]):
            raise Infeasible()
        return r

    # -- z3 ------------------------------------------------------------------------------
    def z(s, p):
        got = s.zcache.get(p)
        if got is not None:
            return got
        r = []
        for m, c in p.d.items():
            t = [z3.RealVal(c)]
            v = 0
            while m:
                k = m & M
                if k:
                    if v not in s.zv:
                        s.zv[v] = z3.Real('v%d' % v)
                    t += [s.zv[v]] * k
                m >>= B
                v += 1
            r.append(z3.Product(t) if len(t) > 1 else t[0])
        r = z3.Sum(r) if r else z3.RealVal(0)
        s.zcache[p] = r
        return r

    def hypotheses(s):
        cs = []
        for k, p in s.facts.hyps:
            if k == '==':
                cs.append(s.z(p) == 0)
            elif k == '!=':
                cs.append(s.z(p) != 0)
        for p in s.nonneg:
            cs.append(s.z(p) >= 0)
        for p, g in s.signs:
            cs.append(s.z(p) > 0 if g > 0 else s.z(p) < 0)
        return cs

    def models(s, rng, names, count=3):
        """rational assignments of the variables that satisfy the facts of the path (candidates for a native replay)"""
        out = []
        base = s.hypotheses()
        for (ka, kb), lt in s.pairs.items():
            a, b = s.mags.get(ka), s.mags.get(kb)
            if a is not None and b is not None:
                za, zb = (s.z(x.n) * s.z(x.n) * s.z(y.denpoly()) * s.z(y.denpoly()) if y.den else s.z(x.n) * s.z(x.n) for x, y in ((a, b), (b, a)))
                base.append(za < zb if lt else za >= zb)
        for _ in range(count):
            sol = z3.Solver()
            sol.set('timeout', 1500)
            sol.add(*base)
            if sol.check() != z3.sat:
                break
            vs = [i for i in range(len(names))]
            rng.shuffle(vs)
            for i in vs:
                v = s.zv.setdefault(i, z3.Real('v%d' % i))
                for _ in range(3):
                    sol.push()
                    sol.add(v == rng.randrange(-9, 10))
                    if sol.check() == z3.sat:
                        break
                    sol.pop()
            if sol.check() != z3.sat:
                continue
            m = sol.model()
            env = {}
            for i in vs:
                x = m.eval(s.zv[i], model_completion=True)
                if not z3.is_rational_value(x):
                    x = x.approx(20)
                env[names[i]] = '%d/%d' % (x.numerator_as_long(), x.denominator_as_long())
            out.append(env)
        return out

    def feasible(s, extra):
        sol = z3.Solver()
        sol.set('timeout', 4000)
        sol.add(*s.hypotheses())
        sol.add(extra)
        return sol.check() != z3.unsat

    def sign(s, d):
        if d.__class__ in (Abs, Mag):
            raise Unsupported('sign of a magnitude')
        d = s.real(d)
        g = s.sign1(d)
        if s.absof:
            # the name of |d| is d, -d or 0 from here on
            rest = []
            for y, v in s.absof:
                same = s.facts.provably_zero(y - d)
                if same or s.facts.provably_zero(y + d):
                    s.facts.assume_zero(v if g == 0 else v - d if g > 0 else v + d)
                else:
                    rest.append((y, v))
            s.absof = rest
        return g

    def known_sign(s, d):
        """the sign of d if the path has decided it"""
        if s.facts.provably_zero(d):
            return 0
        key = d.n * d.denpoly() if d.den else d.n
        if key.is_const():
            return 1 if key.cval() > 0 else -1
        k2 = key.lead_sign_normal()
        for p, g in s.signs:
            if p == k2:
                return g if k2 == key else -g
        return None

    def sign1(s, d):
        if s.facts.is_zero(d):
            return 0
        key = d.n * d.denpoly() if d.den else d.n
        if key.is_const():
            return 1 if key.cval() > 0 else -1
        k2 = key.lead_sign_normal()
        flip = 1 if k2 == key else -1
        for p, g in s.signs:
            if p == k2:
                return flip * g
        zz = s.z(k2)
        pos = s.feasible(zz > 0)
        neg = s.feasible(zz < 0)
        if not pos and not neg:
            raise Infeasible()
        if pos and neg:
            g = 1 if s.facts.choose(2) == 0 else -1
        else:
            g = 1 if pos else -1
        s.signs.append((k2, g))
        return flip * g

    def ordered(s, t, d):
        sg = s.sign(d)
        return {'lt': sg < 0, 'le': sg <= 0, 'gt': sg > 0, 'ge': sg >= 0}[t]

    # -- magnitudes ----------------------------------------------------------------------
    def absname(s, x):
        """a non-negative name for |x|"""
        x = s.real(x)
        g = s.known_sign(x)
        if g is not None:
            return x if g > 0 else -x if g < 0 else El(0)
        for y, v in s.absof:
            if s.facts.provably_zero(x - y) or s.facts.provably_zero(x + y):
                return v
        s.nabs = getattr(s, 'nabs', 0) + 1
        v = El(poly.newvar('|%d|' % (s.nabs - 1)))
        s.absof.append((x, v))
        s.nonneg.append(v.n)
        return v

    def extname(s, kind, l):
        """a name for the least or the greatest of some reals"""
        seen = []
        for x in l:
            x = s.real(x)
            got = [x]
            for k, els, v in s.extof:
                if k == kind and s.facts.provably_zero(v - x):
                    got = els
            for y in got:
                if not any(s.facts.provably_zero(y - z) for z in seen):
                    seen.append(y)
        if len(seen) == 1:
            return seen[0]
        for k, els, v in s.extof:
            if k == kind and len(els) == len(seen) and all(any(s.facts.provably_zero(y - z) for z in els) for y in seen):
                return v
        v = El(poly.newvar('%s%d' % (kind, len(s.extof))))
        s.extof.append((kind, seen, v))
        for y in seen:
            w = y - v if kind == 'min' else v - y
            s.nonneg.append(w.n * w.denpoly() if w.den else w.n)
        return v

    def names_ext(s, kind, w, l):
        """is w the name of the least / greatest of l?"""
        z = s.facts.provably_zero
        l = [s.real(x) for x in l]
        for k, els, v in s.extof:
            if k == kind and z(v - s.real(w)) and all(any(z(y - x) for x in l) for y in els) and all(any(z(y - x) for y in els) for x in l):
                return True
        return all(z(x - s.real(w)) for x in l)

    def surely(s, x, rel):
        """is x > 0 (x >= 0) on this path, without asking case by case?"""
        x = s.real(x)
        x = x.n * x.denpoly() if x.den else x.n
        k = x.lead_sign_normal()
        for p, g in s.signs:
            if p == k:
                return g > 0 if k == x else g < 0
        if rel != '>' and any(p == x for p in s.nonneg):
            return True
        z = s.z(x)
        return not s.feasible(z <= 0 if rel == '>' else z < 0)

    def zero_of(s, m):
        if m.__class__ is Abs:
            return s.facts.is_zero(m.e)
        if m.__class__ in (Tol, Mag):
            return all(s.facts.is_zero(e) for e in m.of)
        return s.facts.is_zero(s.real(m))

    def tiny(s, v):
        """a small multiple of numeric_limits<double>::epsilon()"""
        return v.__class__ is float and 0 < v < 2.0 ** -44

    def fbin(s, op, xs):
        if any(isinstance(x, SVal) for x in xs):
            if op in ('fmul', 'fdiv'):
                a, b = xs
                if a.__class__ is Tol and (b.__class__ is Mag or b.__class__ is Abs):
                    return Tol(b.of if b.__class__ is Mag else [b.e])
                if b.__class__ is Tol and (a.__class__ is Mag or a.__class__ is Abs) and op == 'fmul':
                    return Tol(a.of if a.__class__ is Mag else [a.e])
                for u, v in ((a, b), (b, a)):
                    if isinstance(u, SVal) and not isinstance(v, SVal) and (u is a or op == 'fmul'):
                        w, v = v, s.real(v)
                        if v.n.is_const() and v.n.cval() > 0:
                            if s.tiny(w) and op == 'fmul':
                                return Tol(u.of if u.__class__ is not Abs else [u.e])
                            return u
            if op == 'fadd' and all(x.__class__ in (Abs, Mag) or (x.__class__ is float and x == 0) for x in xs):
                of = []
                for x in xs:
                    of += [x.e] if x.__class__ is Abs else x.of if x.__class__ is Mag else []
                return Mag(of)
            raise Unsupported('arithmetic on a magnitude')
        if op == 'fmul' and any(x.__class__ is float and s.tiny(x) for x in xs):
            o = xs[1] if xs[0].__class__ is float and s.tiny(xs[0]) else xs[0]
            o = s.real(o)
            if o.n.is_const() and o.n.cval() > 0:
                return Tol([El(1)])
            return Tol([o])
        return FieldDomain.fbin(s, op, xs)

    def fcmp(s, pr, a, b):
        if isinstance(a, SVal) and s.tiny(b):
            b = Tol([El(1)])
        if isinstance(b, SVal) and s.tiny(a):
            a = Tol([El(1)])
        if isinstance(a, SVal) or isinstance(b, SVal):
            t = pr[1:]
            if pr in ('ord', 'uno'):
                return int(pr == 'ord')
            if t in ('gt', 'ge'):
                a, b, t = b, a, {'gt': 'lt', 'ge': 'le'}[t]
            if t in ('lt', 'le'):
                return int(s.less(t, a, b))
            if t in ('eq', 'ne') and (s.zero_of(a) or s.zero_of(b)):
                return int((s.zero_of(a) and s.zero_of(b)) == (t == 'eq'))
            raise Unsupported('comparison of magnitudes')
        return FieldDomain.fcmp(s, pr, a, b)

    def less(s, t, a, b):
        """a < b or a <= b for magnitudes"""
        strict = t == 'lt'
        if a.__class__ is Tol or b.__class__ is Tol:
            if a.__class__ is Tol and b.__class__ is Tol:
                raise Unsupported('comparison of tolerances')
            if b.__class__ is Tol:
                # a standard magnitude against an infinitesimal
                if not s.zero_of(a):
                    return False
                return True if not strict else not s.zero_of(b)
            return not s.less('le' if strict else 'lt', b, a)
        za, zb = s.zero_of(a), s.zero_of(b)
        if za and zb:
            return not strict
        if za:
            return True
        if zb:
            return False
        # both non-zero: every order of the magnitudes is considered
        ka, kb = s.key(a), s.key(b)
        if ka == kb:
            return not strict
        k = (ka, kb)
        if k not in s.pairs:
            r = s.facts.choose(2)
            s.pairs[k] = r == 0
            s.pairs[(kb, ka)] = r != 0
        return s.pairs[k]

    def key(s, m):
        if m.__class__ is Abs:
            e = m.e
        elif m.__class__ is Mag:
            return tuple(sorted(repr(e) for e in m.of))
        else:
            e = s.real(m)
        k = repr(e.n.lead_sign_normal()) + '/' + repr(e.den)
        s.mags[k] = e
        return k

    def cast(s, op, x, wi, wo):
        if isinstance(x, SVal) and op in ('freeze', 'fpext', 'fptrunc'):
            return x
        return FieldDomain.cast(s, op, x, wi, wo)

    def fun(s, fn, x):
        if fn is abs:
            return x if s.sign(x) >= 0 else -x
        if getattr(fn, '__name__', '') == 'x_sqrt' or fn is __import__('math').sqrt:
            return s.root(x)
        raise Unsupported('real function of a symbolic value')

    def root(s, x):
        raise Unsupported('real square root')


def abs_named(m, args, name):
    """|x| of a real as a name: non-negative, the same for x and -x"""
    if args[0].__class__ is float:
        return abs(args[0])
    return m.domain.absname(args[0]) if args[0].__class__ is El else NotImplemented


def min_named(m, args, name):
    return ext_named(m, args, 'min')


def max_named(m, args, name):
    return ext_named(m, args, 'max')


def ext_named(m, args, kind):
    """std::min / std::max of two reals as a name for the least / greatest of the values that went into it"""
    d = m.domain
    a, b = [m.load(p, 8, 3) for p in args]
    if a.__class__ is not El and b.__class__ is not El:
        return NotImplemented
    v = d.extname(kind, [a, b])
    for p, x in zip(args, (a, b)):
        if d.facts.provably_zero(v - d.real(x)):
            return p
    o = Obj(8, kind)
    p = Ptr(o, 0)
    m.store(p, 8, v)
    return p


def abs_contract(m, args, name):
    """|x| of a real; its own contract is proved in C26 / C22"""
    x = args[0]
    if x.__class__ is float:
        return abs(x)
    if x.__class__ in (El,):
        return Abs(x)
    return NotImplemented
