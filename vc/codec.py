"""Octets of residues.  A residue (an element of the prime field, as the integer in [0, p)) is written octet by octet; octets are
symbolic values that remember which octet of which residue they are, or which octet of the input.  Integers assembled from octets are
polynomials in the octets, recognised when they are a whole residue."""
import re
from .llvmir import Ptr, UNDEF
from .poly import Poly, El
from .domain import FieldDomain, Lift, _int
from .machine import Fail, Unsupported, SVal, M64


class Octet(SVal):
    """var + set, where 0 <= var < 2^bits and set has zeros there; var is octet number k of src, an El (a residue) or an input octet"""
    __slots__ = ('src', 'k', 'bits', 'set')

    def __init__(s, src, k, bits=8, set_=0):
        s.src, s.k, s.bits, s.set = src, k, bits, set_

    def same(s, o):
        return o.__class__ is Octet and o.k == s.k and (o.src is s.src or o.src == s.src) and o.bits == s.bits and o.set == s.set

    def __repr__(s):
        return 'octet %s of %r%s' % (s.k, s.src, ' | %#x' % s.set if s.set else '')


class Kept(SVal):
    """an octet written only if the number is long enough; otherwise it keeps what was there"""
    __slots__ = ('new', 'old')

    def __init__(s, new, old):
        s.new, s.old = new, old

    def __repr__(s):
        return '%r or still %r' % (s.new, s.old)


class IntB(SVal):
    """sum of octets: {position: Octet | int}"""
    __slots__ = ('d',)

    def __init__(s, d):
        s.d = d

    def __repr__(s):
        return 'integer of octets %r' % (s.d,)


class Less(SVal):
    """is this integer less than p?  (decided when it matters)"""
    __slots__ = ('u',)

    def __init__(s, u):
        s.u = u


class CodecDomain(FieldDomain):
    def __init__(s, *a, **k):
        FieldDomain.__init__(s, *a, **k)
        s.less = []          # (integer of input octets, is it less than p?)
        s.inputs = {}        # input octet -> its variable
        s.equal = {}
        s.res = {}

    def width(s):
        return (s.prime.bit_length() + 7) // 8

    def octet(s, e, k):
        """octet k of the residue e"""
        n = s.prime.bit_length()
        if 8 * k >= n:
            return 0
        e = s.canon(e)
        if e.__class__ is int:
            return (e >> (8 * k)) & 255
        return Octet(e, k, min(8, n - 8 * k))

    def canon(s, e):
        """one object per residue"""
        if e.__class__ is El and e.n.is_const() and not e.den:
            return e.n.cval() % s.prime
        for f in s.res:
            if f is e or s.facts.provably_zero(f - e):
                return f
        s.res[e] = 1
        return e

    def var(s, i, el, bits=8, set_=0):
        s.inputs[i] = el
        return Octet(i, 0, bits, set_)

    # -- octets as machine integers
    def cast(s, op, x, wi, wo):
        if x.__class__ in (Octet, Kept) and op in ('zext', 'trunc', 'freeze') and wo >= 8:
            return x
        if x.__class__ is Less and op in ('zext', 'trunc', 'freeze'):
            return x
        return FieldDomain.cast(s, op, x, wi, wo)

    def bin(s, op, x, y, w):
        if x.__class__ is int:
            x, y = y, x
        if x.__class__ is Less:
            if op == 'and' and y.__class__ is int and y & 1 == 0:
                return 0
            if op == 'and' and y.__class__ is int:
                return x
            return s.machine_bin(op, s.less_than_p(x.u), s.less_than_p(y.u) if y.__class__ is Less else y)
        if x.__class__ is Octet and y.__class__ is int:
            lo = (1 << x.bits) - 1
            if op == 'and':
                if y & lo == lo:
                    return Octet(x.src, x.k, x.bits, x.set & y)
                if y & lo == 0:
                    return x.set & y
            if op in ('or', 'xor') and y & lo == 0:
                return Octet(x.src, x.k, x.bits, (x.set | y) if op == 'or' else x.set ^ y)
        raise Unsupported('octet arithmetic %s %r %r' % (op, x, y))

    @staticmethod
    def machine_bin(op, x, y):
        if y.__class__ is int and op in ('and', 'or', 'xor'):
            return x & y if op == 'and' else x | y if op == 'or' else x ^ y
        raise Unsupported('arithmetic on a truth value')

    def truth(s, v):
        if v.__class__ is Less:
            return s.less_than_p(v.u)
        return FieldDomain.truth(s, v)

    def icmp(s, pr, x, y, w):
        if Less in (x.__class__, y.__class__) and pr in ('eq', 'ne'):
            x, y = [s.less_than_p(t.u) if t.__class__ is Less else t for t in (x, y)]
            return int((x == y) == (pr == 'eq'))
        if x.__class__ is int:
            x, y = y, x
        if x.__class__ is Octet and y.__class__ is int and pr in ('eq', 'ne'):
            lo = (1 << x.bits) - 1
            if y & ~lo & M64 != x.set:
                r = 0
            else:
                r = s.octeq(x, y & lo)
            return r if pr == 'eq' else 1 - r
        raise Unsupported('comparison of octets %s %r %r' % (pr, x, y))

    def known_set(s, x):
        """is the variable part of x known not to be zero?"""
        known = s.equal.get((x.src if x.src.__class__ is not El else id(x.src), x.k), {})
        return known.get(0) == 0 or any(r and v for v, r in known.items())

    def octeq(s, x, v):
        """is the variable part of x equal to v?"""
        key = (x.src if x.src.__class__ is not El else id(x.src), x.k)
        known = s.equal.setdefault(key, {})
        if v in known:
            return known[v]
        if 1 in known.values() or len(known) >= 1 << x.bits:
            return 0
        r = 1 if s.facts.choose(2) == 0 else 0
        known[v] = r
        s.facts.hyps.append(('octet', '%r %s %d' % (x, '=' if r else '!=', v)))
        if r and x.src in s.inputs:
            s.facts.assume_zero(s.inputs[x.src] - El(Poly.const(v)))
        return r

    # -- integers
    def int_setbyte(s, v, i, b, n):
        d = dict(v.d) if v.__class__ is IntB else {k: (v >> (8 * k)) & 255 for k in range(8 * n) if (v >> (8 * k)) & 255} if v.__class__ is int else None
        if d is None:
            raise Unsupported('octet of a residue is overwritten')
        if b.__class__ is int:
            b &= 255
        if b.__class__ not in (int, Octet):
            raise Unsupported('the octet %r is read' % (b,))
        if i in d and d[i] != 0:
            raise Unsupported('an octet is set twice')
        d[i] = b
        return IntB(d)

    def whole(s, v):
        """the residue whose octets these are"""
        o = v.d.get(0)
        if o.__class__ is not Octet or o.src.__class__ is not El:
            return None
        for k in range(max(max(v.d) + 1, s.width())):
            w = s.octet(o.src, k)
            x = v.d.get(k, 0)
            if not (x == w if w.__class__ is int else w.same(x)):
                return None
        return o.src

    def poly(s, v):
        r = El(Poly.const(0))
        for k, o in v.d.items():
            m = El(Poly.const(pow(256, k)))
            if o.__class__ is int:
                r = r + m * El(Poly.const(o))
                continue
            if o.src not in s.inputs:
                key = (id(o.src), o.k)
                if key not in s.inputs:
                    from . import poly as P
                    s.inputs[key] = El(P.newvar('octet%d_%d' % (len(s.inputs), o.k)))
                x = s.inputs[key]
            else:
                x = s.inputs[o.src]
            r = r + m * (x + El(Poly.const(o.set)))
        return r

    def ints(s, v):
        if v.__class__ is IntB:
            if all(x.__class__ is int for x in v.d.values()):
                return sum(x << (8 * k) for k, x in v.d.items())
            e = s.whole(v)
            if e is not None:
                return Lift(e)
        return v

    def from_hook(s, v, q):
        v = s.ints(v)
        if q is not None:
            raise Unsupported('residue of a second modulus')
        if v.__class__ is int:
            return El(Poly.const(v))
        if v.__class__ is Lift:
            return v.e
        if v.__class__ is IntB:
            return s.poly(v)
        raise Unsupported('conversion of %r' % (v,))

    def int_conv(s, v, no):
        v = s.ints(v)
        if v.__class__ is Lift and 64 * no >= s.prime.bit_length():
            return v
        if v.__class__ is int:
            return v & ((1 << (64 * no)) - 1)
        if v.__class__ is IntB and max(v.d) < 8 * no:
            return v
        raise Unsupported('narrowing')

    def int_cmp(s, name, u, v):
        u, v = s.ints(u), s.ints(v)
        if u.__class__ is El:
            u = Lift(u)
        if v.__class__ is int and u.__class__ is Lift and v >= s.prime and name == 'lt':
            return 1
        if v.__class__ is Lift and u.__class__ is int and u >= s.prime and name == 'lt':
            return 0
        if u.__class__ is IntB and v.__class__ is int and name == 'lt':
            if v == s.prime:
                return Less(u)
            if sum(255 << (8 * k) for k in u.d) < v:
                return 1
        if u.__class__ is int and v.__class__ is IntB and name == 'lt' and u == s.prime - 1:
            return 1 - s.less_than_p(v)
        raise Unsupported('comparison of integers of octets')

    def less_than_p(s, u):
        for w, r in s.less:
            if w.d.keys() == u.d.keys() and all(a is b or a.__class__ is Octet and a.same(b) or a == b for a, b in ((w.d[k], u.d[k]) for k in w.d)):
                return r
        if all(o.__class__ is int or o.bits for o in u.d.values()):
            top = sum((o if o.__class__ is int else o.set + (1 << o.bits) - 1) << (8 * k) for k, o in u.d.items())
            if top < s.prime:
                return 1
        r = 1 if s.facts.choose(2) == 0 else 0
        s.less.append((u, r))
        s.facts.hyps.append(('integer', '%r %s p' % (u, '<' if r else '>=')))
        return r


class Rejected(Exception):
    """an assertion of the library failed: the input is rejected"""


class PointDomain(CodecDomain):
    """residues of input octets are named; signs (is the residue above (p-1)/2?), squares and roots of named squares"""

    def __init__(s, *a, **k):
        CodecDomain.__init__(s, *a, **k)
        s.named = []
        s.signs = []           # (residue, sign)
        s.squares = []         # (coordinates, square?)
        s.roots = []           # (coordinates of a square, coordinates of one of its roots)

    def poly(s, v):
        for w, e in s.named:
            if w.keys() == v.d.keys() and all(a is b or a.__class__ is Octet and a.same(b) or a.__class__ is int and a == b for a, b in ((w[k], v.d[k]) for k in w)):
                return e
        from . import poly as P
        e = El(P.newvar('x%d' % len(s.named)))
        s.named.append((v.d, e))
        return e

    def above_half(s, e):
        """is the residue e above (p-1)/2?"""
        if s.facts.is_zero(e):
            return 0
        n = s.facts.norm(e)
        if n.is_const() and not e.den:
            return int(n.cval() % s.prime > s.prime // 2)
        for x, r in s.signs:
            if s.facts.provably_zero(x - e):
                return r
            if s.facts.provably_zero(x + e):
                return 1 - r
        r = 1 if s.facts.choose(2) == 0 else 0
        s.signs.append((e, r))
        s.facts.hyps.append(('above (p-1)/2' if r else 'at most (p-1)/2', repr(e)[:200]))
        return r

    def above(s, e, t):
        """is the residue e above t, a number near 0, (p-1)/2 or p-1?"""
        h = s.prime // 2
        for base, r in ((0, None), (h, None), (s.prime - 1, 0)):
            if abs(t - base) > 4:
                continue
            for k in range(min(t, base) + 1, max(t, base) + 1):
                if s.facts.is_zero(e - El(Poly.const(k))):
                    return int(k > t)
            return r if r is not None else s.above_half(e) if base else int(not s.facts.is_zero(e))
        raise Unsupported('order of residues')

    def lt_hook(s, u, v):
        if u.__class__ is int and v.__class__ is El:
            return s.above(v, u)
        if v.__class__ is int and u.__class__ is El:
            return 1 - s.above(u, v - 1)
        if u.__class__ is El and v.__class__ is El and s.facts.provably_zero(u + v):
            return 1 - s.above_half(u) if not s.facts.is_zero(u) else 0
        raise Unsupported('order of residues')

    def int_cmp(s, name, u, v):
        a, b = [t.e if t.__class__ is Lift else t for t in (s.ints(u), s.ints(v))]
        if name == 'lt' and (a.__class__ is El or b.__class__ is El) and not (a.__class__ is int and a >= s.prime or b.__class__ is int and b >= s.prime):
            return s.lt_hook(a, b)
        return CodecDomain.int_cmp(s, name, u, v)

    def is_square(s, cs):
        for x, y in s.roots:
            if all(s.facts.provably_zero(a - b) for a, b in zip(x, cs)):
                return 1
        for x, r in s.squares:
            if all(s.facts.provably_zero(a - b) for a, b in zip(x, cs)):
                return r
        if all([s.facts.is_zero(a) for a in cs]):
            return 1
        r = 1 if s.facts.choose(2) == 0 else 0
        s.squares.append((list(cs), r))
        s.facts.hyps.append(('square' if r else 'not a square', repr(cs)[:200]))
        return r

    def add_root(s, square, root):
        s.roots.append((list(square), list(root)))

    def root(s, cs):
        """either root of a square"""
        for x, y in s.roots:
            if all(s.facts.provably_zero(a - b) for a, b in zip(x, cs)):
                return list(y) if s.facts.choose(2) == 0 else [-t for t in y]
        if not s.is_square(cs):
            raise Fail('sqrt', 'square root of an element that is not a square')
        if all([s.facts.is_zero(a) for a in cs]):
            return [El(Poly.const(0)) for _ in cs]
        from . import poly as P
        y = [El(P.newvar('r%d_%d' % (len(s.roots), i))) for i in range(len(cs))]
        if len(cs) == 1:
            s.facts.assume_nonzero(y[0])
        for a, b in zip(s.squared(y), cs):
            s.facts.add_equation(a - b)
        s.add_root(cs, y)
        return y

    @staticmethod
    def squared(y):
        return [y[0] * y[0]] if len(y) == 1 else [y[0] * y[0] - y[1] * y[1], (y[0] * y[1]) * El(Poly.const(2))]

    def sqrt_hook(s, u):
        return s.root([u])[0]


def _coords(m, p, n, nl):
    d = m.domain
    if p.o.__class__ is str:
        p = Ptr(m.gobj(p.o), p.off)
    return [d.fget(Ptr(p.o, p.off + 8 * (1 + nl) * i), nl) for i in range(n)]


def h_is_square(n, nl):
    def h(m, args, name):
        return m.domain.is_square(_coords(m, args[0], n, nl))
    return h


def h_sqrt(n, nl):
    def h(m, args, name):
        out, x = args
        for i, e in enumerate(m.domain.root(_coords(m, x, n, nl))):
            m.domain.put(Ptr(out.o, out.off + 8 * (1 + nl) * i), nl, e)
    return h


def h_reject(m, args, name):
    raise Rejected()


def point_hooks(nl):
    r = [(r'^vch_rejected$', h_reject), (r'^_setjmp$', lambda m, a, n: 0)]
    for n, f in ((1, 'fp'), (2, 'fp2')):
        r.append((r'element_%s<.*>::is_square\(\) const$' % f, h_is_square(n, nl)))
    r.append((r'element_fp2<.*>::sqrt\(\) const$', h_sqrt(2, nl)))
    return HOOKS + r


def _lift(d, v):
    v = d.ints(v)
    if v.__class__ is El:
        v = Lift(v)
    return v


def h_export(m, args, name):
    """export_bits(value, out, 8, false): the octets of the value, lowest first, as many as are significant (at least one)"""
    d = m.domain
    nm = m.mod.demangled().get(name, name)
    rev = 'reverse_iterator' in nm.split('export_bits', 1)[1].split('>(', 1)[0]
    bits = int(re.search(r'cpp_int_modular_backend<(\d+)ul>', nm).group(1))
    if rev:
        ret, x, it, chunk, msv = args
        p = m.load(it, 8)
    else:
        x, p, chunk, msv = args
    v = _lift(d, d.get(x, (bits + 63) // 64))
    if chunk != 8 or msv.__class__ is not int or msv & 1:
        return NotImplemented if v.__class__ is int else unsup()
    if v.__class__ is int:
        return NotImplemented
    if v.__class__ is not Lift:
        raise Unsupported('export of %r' % (v,))
    for k in range(d.width()):
        q = Ptr(p.o, p.off - 1 - k) if rev else Ptr(p.o, p.off + k)
        o = d.octet(v.e, k)
        if k:
            try:
                old = m.load(q, 1)
            except Fail as e:
                if 'bounds' in str(e.args):
                    raise
                old = UNDEF
            if old.__class__ is not int or old & 255 != 0:
                o = Kept(o, old)
        m.store(q, 1, o)
    end = Ptr(p.o, p.off)
    if rev:
        m.store(ret, 8, end)       # how far it has got is not known; nothing of the library uses it
        return None
    return end


def unsup():
    raise Unsupported('export of a symbolic number with the highest octet first')


HOOKS = [(r'boost::multiprecision::export_bits<', h_export)]
