"""The multiplicative group of an extension field, written additively over named generators with known integer exponents.
An element whose coordinates are field expressions (a line value) is a generator named by those coordinates; the operations of
the extension classes are replaced by their contracts (C01, C02, C03, C05)."""
import re
from .llvmir import Ptr, UNDEF
from .poly import Poly, El
from .domain import FieldDomain
from .machine import Fail, Unsupported
from .loops import GroupDomain, GVal, GPart, SInt

FD = r'nil::crypto3::algebra::fields::detail::'


class PowDomain(GroupDomain):
    prefixes = False
    multiplicative = True
    N = None            # exponents are taken modulo N
    cyc = None          # e * cyc = 0 mod N: member of the cyclotomic subgroup
    nl = 1
    rank = 12

    def __init__(s, *a, **k):
        GroupDomain.__init__(s, *a, **k)
        s.lines = {}

    def line(s, vec):
        """the group element with these coordinates"""
        es = [s.el(v) for v in vec]
        key = tuple((frozenset(e.n.d.items()), tuple(repr(d) for d in e.den)) for e in es)
        if key == s.onekey(len(vec)):
            return GVal({})
        k = s.lines.get(key)
        if k is None:
            k = s.lines[key] = 'L%d' % len(s.lines)
        return GVal({k: 1})

    def onekey(s, n):
        return tuple((frozenset(El(Poly.const(int(i == 0))).n.d.items()), ()) for i in range(n))

    def red(s, c):
        return GVal({g: v % s.N if s.N else v for g, v in c.items()})

    def gadd(s, a, b, sign=1):
        c = dict(a.c)
        for g, v in b.c.items():
            c[g] = c.get(g, 0) + sign * v
        return s.red(c)

    def gscale(s, a, k):
        return s.red({g: v * k for g, v in a.c.items()})

    def gput(s, m, p, g):
        for i in range(s.rank):
            s.put(Ptr(p.o, p.off + i * 8 * (1 + s.nl)), s.nl, GPart(g, i, s.rank))

    def gget(s, m, p):
        if p.o.__class__ is str:
            p = Ptr(m.gobj(p.o), p.off)
        vs = [s.get(Ptr(p.o, p.off + i * 8 * (1 + s.nl)), s.nl) for i in range(s.rank)]
        return s.ofparts(vs)

    def ofparts(s, vs):
        v = vs[0]
        if v.__class__ is GPart:
            for i, w in enumerate(vs):
                if w.__class__ is not GPart or w.g is not v.g or w.i != i:
                    raise Unsupported('an element is mixed from two')
            return v.g
        return s.line(vs)

    def glookup(s, parts):
        return s.ofparts(parts)

    def coords(s, m, p, n):
        return [s.get(Ptr(p.o, p.off + i * 8 * (1 + s.nl)), s.nl) for i in range(n)]


def make(p, k, nl, reduce=True):
    import sympy
    x = sympy.Symbol('x')
    phi = int(sympy.cyclotomic_poly(k, x).subs(x, p))
    return type('PowDomain_', (PowDomain,), {'N': p ** k - 1 if reduce else None, 'cyc': phi, 'nl': nl, 'rank': k})


def hooks(cls, k, p, sparse=None):
    """contracts of the field class cls of degree k over F_p"""
    C = r'^(?:' + FD + cls + r'<[^()]*> )?' + FD + cls + r'<[^()]*>::'
    T = FD + cls + r'<[^()]*> const&'

    def mul(m, args, name):
        d = m.domain
        if len(args) == 2:                        # by value? static
            return NotImplemented
        d.gput(m, args[0], d.gadd(d.gget(m, args[1]), d.gget(m, args[2])))

    def imul(m, args, name):
        d = m.domain
        d.gput(m, args[0], d.gadd(d.gget(m, args[0]), d.gget(m, args[1])))
        return args[0]

    def scale(f, check=False):
        def h(m, args, name):
            d = m.domain
            g = d.gget(m, args[1])
            if check and d.N and any(v * d.cyc % d.N for v in g.c.values()):
                raise Fail('contract', 'cyclotomic squaring outside the cyclotomic subgroup')
            if check and not d.N:
                return NotImplemented
            d.gput(m, args[0], d.gscale(g, f))
        return h

    def frob(m, args, name):
        d = m.domain
        i = args[2]
        if i.__class__ is Ptr:
            w = re.search(r'Frobenius_map<[^()]*>\((?:unsigned )?(int|long|short|char)[^()]*&\)', m.mod.demangled().get(name, name))
            if not w:
                raise Unsupported('Frobenius index')
            i = m.load(i, {'int': 4, 'long': 8, 'short': 2, 'char': 1}[w.group(1)])
        if i.__class__ is not int:
            raise Unsupported('Frobenius index')
        d.gput(m, args[0], d.gscale(d.gget(m, args[1]), pow(p, i % k)))

    def one(m, args, name):
        d = m.domain
        if not args:
            q = m.alloc(8 * (1 + d.nl) * d.rank, 'static')
            q.o.ro = False
            d.gput(m, q, GVal({}))
            q.o.ro = True
            return q
        d.gput(m, args[0], GVal({}))

    def square(m, args, name):
        d = m.domain
        d.gput(m, args[0], d.gscale(d.gget(m, args[1]), 2))
        return None
    L = [(C + r'operator\*\(' + T + r'\) const$', mul), (C + r'operator\*=\(' + T + r'\)$', imul), (C + r'squared\(\) const$', square), (C + r'inversed\(\) const$', scale(-1)),
         (C + r'unitary_inversed\(\) const$', scale(p ** (k // 2))), (C + r'cyclotomic_squared\(\) const$', scale(2, True)), (C + r'Frobenius_map(?:<[^()]*>)?\([^()]*\) const$', frob),
         (C + r'one\(\)$', one)]
    if sparse:
        for nm, f in sparse.items():
            def h(m, args, name, f=f):
                d = m.domain
                sh, n = f
                parts = [d.coords(m, a, n) for a in args[2:]]
                d.gput(m, args[0], d.gadd(d.gget(m, args[1]), d.line(sh(*parts))))
            L.append((C + nm + r'\(', h))
    return L
