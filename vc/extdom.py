"""An extension field of F_p taken as an abstract commutative ring: one element is one rational function over Z (with the symbol
u for the adjoined root); its coordinates in memory are handles EPart.  Coordinatewise linear operations of the code act on the handles
themselves; products, squares, inverses and equality of the class are replaced by their contracts (C01, C02)."""
from .llvmir import Ptr, UNDEF
from .poly import Poly, El
from . import poly
from .domain import FieldDomain
from .machine import Unsupported, SVal

FD = r'nil::crypto3::algebra::fields::detail::'


class EPart(SVal):
    """the number c plus, for each j, coordinate j of the element es[j]"""
    __slots__ = ('es', 'c')

    def __init__(s, es, c=0):
        s.es, s.c = es, c

    def __repr__(s):
        return ' + '.join('(%r)_%d' % (e, j) for j, e in s.es.items()) + ' + %r' % s.c


def isint(v):
    return v.__class__ is int or (v.__class__ is El and v.n.is_const() and not v.den)


def num(v):
    return v if v.__class__ is int else v.n.cval()


class ExtDomain(FieldDomain):
    rank = 2
    nl = 1
    cls = None
    names = {}          # coordinates of a constant -> name of the symbol that stands for it
    nr = None

    def __init__(s, *a, **k):
        FieldDomain.__init__(s, *a, **k)
        s.u = El(poly.newvar('u', 1))
        s.named = {}

    def el(s, v):
        return v if v.__class__ is EPart else FieldDomain.el(s, v)

    def main_op(s, op, u, v):
        if u.__class__ is not EPart and v.__class__ is not EPart:
            return None
        p = s.prime
        if op == 2:
            if u.__class__ is EPart and v.__class__ is EPart:
                if not u.es:
                    u = u.c
                elif not v.es:
                    v = v.c
                else:
                    raise Unsupported('product of coordinates')
            if v.__class__ is EPart:
                u, v = v, u
            if not isint(v):
                raise Unsupported('product of a coordinate and a symbol')
            k = num(v) % p
            return EPart({j: e * El(Poly.const(k)) for j, e in u.es.items()} if k else {}, u.c * k % p)
        sg = 1 if op == 0 else -1
        u, v = [x if x.__class__ is EPart else EPart({}, num(x) % p) if isint(x) else None for x in (u, v)]
        if u is None or v is None:
            raise Unsupported('sum of a coordinate and a symbol')
        es = dict(u.es)
        for j, e in v.es.items():
            w = es[j] + e if sg > 0 and j in es else es[j] - e if j in es else e if sg > 0 else -e
            if w.n.d:
                es[j] = w
            else:
                del es[j]
        return EPart(es, (u.c + sg * v.c) % p)

    # -- whole elements --------------------------------------------------------------
    def const(s, vs):
        key = tuple(v % s.prime for v in vs)
        nm = s.names.get(key)
        ng = None if nm else s.names.get(tuple(-v % s.prime for v in key))
        if nm or ng:
            k = nm or ng
            if k not in s.named:
                s.named[k] = s.u if k == 'u' else El(poly.newvar(k, 0))
            return s.named[k] if nm else -s.named[k]
        r = El(Poly.const(key[0]))
        w = s.u
        for v in key[1:]:
            if v:
                r = r + El(Poly.const(v)) * w
            w = w * s.u
        return r

    def name(s, nm):
        """the symbol of a named constant"""
        for k, v in s.names.items():
            if v == nm:
                return s.const(k)
        raise KeyError(nm)

    def ofparts(s, vs):
        n = s.rank
        if all(isint(v) for v in vs):
            return s.const([num(v) for v in vs])
        if any(v.__class__ is not EPart and not isint(v) for v in vs):
            raise Unsupported('coordinate %r' % (vs,))
        vs = [v if v.__class__ is EPart else EPart({}, num(v)) for v in vs]
        r = s.const([v.c for v in vs])
        left = sum(len(v.es) for v in vs)
        w = El(Poly.const(1))
        for sh in range(n):
            # coordinate i of u^sh * e is coordinate i - sh of e, times nr after a wrap
            cand = None
            for i in range(n):
                e = vs[i].es.get((i - sh) % n)
                if (e is None) != (cand is None) and i:
                    raise Unsupported('an element is mixed from coordinates of different elements')
                if e is None:
                    continue
                left -= 1
                if i < sh:
                    e = e * El(Poly.const(pow(s.nr, -1, s.prime)))
                if cand is None:
                    cand = e
                elif cand is not e and not s.facts.provably_zero(cand - e):
                    raise Unsupported('an element is mixed from coordinates of different elements')
            if cand is not None:
                r = r + cand * w
            w = w * s.u
        assert left == 0
        return r

    def parts(s, e):
        return [EPart({i: e}) for i in range(s.rank)]

    def xget(s, p):
        if p.o.__class__ is str:
            p = Ptr(s.machine.gobj(p.o), p.off)
        return s.ofparts([s.get(Ptr(p.o, p.off + i * 8 * (1 + s.nl)), s.nl) for i in range(s.rank)])

    def xput(s, p, e):
        for i in range(s.rank):
            s.put(Ptr(p.o, p.off + i * 8 * (1 + s.nl)), s.nl, EPart({i: e} if e.n.d else {}))

    def xsize(s):
        return 8 * (1 + s.nl) * s.rank


def make(cls, e, nl, nr, names):
    return type('ExtDomain_', (ExtDomain,), {'rank': e, 'nl': nl, 'cls': cls, 'names': names, 'nr': nr})


def hooks(cls):
    C = r'^(?:' + FD + cls + r'<[^()]*>&? )?' + FD + cls + r'<[^()]*>::'
    T = FD + cls + r'<[^()]*> const&'

    def base(d, *ps):
        """all operands are numbers: leave the real code alone"""
        return False

    def mul(m, args, name):
        d = m.domain
        d.xput(args[0], d.xget(args[1]) * d.xget(args[2]))

    def imul(m, args, name):
        d = m.domain
        d.xput(args[0], d.xget(args[0]) * d.xget(args[1]))
        return args[0]

    def square(m, args, name):
        d = m.domain
        x = d.xget(args[1])
        d.xput(args[0], x * x)

    def inv(m, args, name):
        d = m.domain
        x = d.xget(args[1])
        d.xput(args[0], El(Poly.const(0)) if d.facts.is_zero(x) else x.inv())

    def eq(want):
        def h(m, args, name):
            d = m.domain
            return int(d.facts.is_zero(d.xget(args[0]) - d.xget(args[1])) == want)
        return h

    def isz(m, args, name):
        d = m.domain
        return int(d.facts.is_zero(d.xget(args[0])))
    return [(C + r'operator\*\(' + T + r'\) const$', mul), (C + r'operator\*=\(' + T + r'\)$', imul), (C + r'squared\(\) const$', square), (C + r'inversed\(\) const$', inv),
            (C + r'operator==\(' + T + r'\) const$', eq(True)), (C + r'operator!=\(' + T + r'\) const$', eq(False)), (C + r'is_zero\(\) const$', isz)]
