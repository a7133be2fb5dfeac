"""Contracts of group operations: the class operations verified under C01-C03 (fields) and C08-C10 (curves), as operations on
abstract group elements (vc/loops.py)."""
import re
import z3
from .llvmir import Ptr
from .machine import Fail, Unsupported
from .loops import GVal, GPart, SInt, ZI, isz, h_wnaf

FD = r'nil::crypto3::algebra::fields::detail::'


def static_or_sret(n, val):
    def h(m, args, name):
        d = m.domain
        if not args:
            p = m.alloc(16 * n, 'static')
            p.o.ro = False
            d.gwrite(m, p, n, val(), 1)
            p.o.ro = True
            return p
        d.gwrite(m, args[0], n, val())
        return None
    return h


def is_group(m, p):
    try:
        v = m.load(p, 8)
    except Fail:
        return False
    return v.__class__ is GPart


def multiplicative(cls, n, kind="", cyclo=False, frob=None, inv=False, tests=True):
    """hooks for the field class cls (template name) of rank n; results with sret in the first argument.
    Applied only to operands that are abstract elements."""
    C = FD + cls + r'<[^()]*>::'

    def binop(sign):
        def h(m, args, name):
            if len(args) == 3:       # sret, this, other
                if not is_group(m, args[1]) and not is_group(m, args[2]):
                    return NotImplemented
                d = m.domain
                a = d.gread(m, args[1], n)
                b = d.gread(m, args[2], n)
                d.gwrite(m, args[0], n, d.gadd(a, b, sign))
                return None
            return NotImplemented
        return h

    def compound(m, args, name):
        if not is_group(m, args[0]):
            return NotImplemented
        d = m.domain
        d.gwrite(m, args[0], n, d.gadd(d.gread(m, args[0], n), d.gread(m, args[1], n)))
        return args[0]

    def scale(k):
        def h(m, args, name):
            if not is_group(m, args[1]):
                return NotImplemented
            d = m.domain
            d.gwrite(m, args[0], n, d.gscale(d.gread(m, args[1], n), k))
            return None
        return h
    hooks = [(r'^' + C + r'operator\*\(' + FD + cls + r'<[^()]*> const&\) const$', binop(1)),
             (r'^' + C + r'operator\*=\(' + FD + cls, compound),
             (r'^' + C + r'squared\(\) const$', scale(2)),
             (r'^' + C + r'one\(\)$', static_or_sret(n, lambda: GVal({}, kind)))]
    # tests: zero, one and equality of powers of a base that may itself be zero
    def test(f):
        def h(m, args, name):
            if not is_group(m, args[0]):
                return NotImplemented
            return f(m.domain, m.domain.gread(m, args[0], n))
        return h

    def eq(neg):
        def h(m, args, name):
            if not is_group(m, args[0]) and not is_group(m, args[1]):
                return NotImplemented
            d = m.domain
            a, b = d.gread(m, args[0], n), d.gread(m, args[1], n)
            if d.geq(a, b):
                r = 1
            elif not a.c or not b.c:
                r = d.fone(a if a.c else b)
            else:
                raise Unsupported('comparison of %r and %r' % (a, b))
            return r ^ neg
        return h

    def zero(m, args, name):
        if not m.domain.zerogens:
            return NotImplemented
        return static_or_sret(n, m.domain.fzeroval)(m, args, name)
    if tests:
        hooks += [(r'^' + C + r'is_zero\(\) const$', test(lambda d, g: d.fzero(g))),
              (r'^' + C + r'is_one\(\) const$', test(lambda d, g: d.fone(g))),
              (r'^' + C + r'operator==\(' + FD + cls + r'<[^()]*> const&\) const$', eq(0)),
              (r'^' + C + r'operator!=\(' + FD + cls + r'<[^()]*> const&\) const$', eq(1)),
              (r'^' + C + r'zero\(\)$', zero)]
    if inv:
        hooks.append((r'^' + C + r'inversed\(\) const$', scale(-1)))
    if cyclo:
        hooks.append((r'^' + C + r'unitary_inversed\(\) const$', scale(-1)))
        hooks.append((r'^' + C + r'cyclotomic_squared\(\) const$', scale(2)))
    return hooks


# ---- contracts of the library's integer helpers on machine integers
W = {'int': 32, 'long': 64, 'char': 8, 'short': 16}


def uint(m, x, name):
    """the mathematical value of a machine integer argument"""
    mm = re.search(r'<(unsigned )?(int|long|char|short)', m.mod.demangled().get(name, name))
    w = W[mm.group(2)]
    if x.__class__ is int:
        x &= (1 << w) - 1
        return x if mm.group(1) or not x >> (w - 1) else x - (1 << w)
    t = m.domain.uns(x.t, w) if mm.group(1) else x.t
    return z3.simplify(t) if isz(t) else t


def h_msb_int(m, args, name):
    x = uint(m, args[0], name)
    return m.domain.int_msb(SInt(x), 1)


def h_bit_int(m, args, name):
    i = args[1]
    x = uint(m, args[0], name)
    return m.domain.int_bit(SInt(x), i, 1)


INTHOOKS = [(r'boost::multiprecision::msb<(unsigned )?(int|long|char|short)', h_msb_int),
            (r'boost::multiprecision::bit_test<(unsigned )?(int|long|char|short)', h_bit_int),
            (r'boost::multiprecision::find_wnaf<', h_wnaf())]


# ---- curve points (contracts verified under C08-C10)
def additive(nc, off=0, flag=False, cls=r'curve_element', one=None):
    """hooks for a curve element class with nc coordinates (off: where they start; flag: separate infinity flag)"""
    C = r'^nil::crypto3::algebra::curves::detail::' + cls + r'<[^()]*>::'

    def rd(m, p):
        return m.domain.gread(m, Ptr(p.o, p.off + off), nc)

    def wr(m, p, g):
        if flag:
            m.store(p, 1, 0)
        m.domain.gwrite(m, Ptr(p.o, p.off + off), nc, g)

    def binop(sign):
        def h(m, args, name):
            wr(m, args[0], m.domain.gadd(rd(m, args[1]), rd(m, args[2]), sign))
        return h

    def compound(sign):
        def h(m, args, name):
            wr(m, args[0], m.domain.gadd(rd(m, args[0]), rd(m, args[1]), sign))
            return args[0]
        return h

    def dbl(m, args, name):
        wr(m, args[0], m.domain.gscale(rd(m, args[0]), 2))
        return args[0]

    def neg(m, args, name):
        wr(m, args[0], m.domain.gscale(rd(m, args[1]), -1))

    def mixed(m, args, name):
        b = rd(m, args[1])
        if b.one is not True:
            raise Fail('contract', 'mixed_add with an operand that is not normalised (Z = 1)')
        wr(m, args[0], m.domain.gadd(rd(m, args[0]), b))

    def init(val):
        def h(m, args, name):
            wr(m, args[0], val())
        return h

    def is_zero(m, args, name):
        if any('2wp' in f or f.startswith('wp') for f in m.stack[-2:]):
            return 0
        return m.domain.gzero(rd(m, args[0]))
    def assign(m, args, name):
        g = rd(m, args[-1])
        for p in args[:-1]:         # the result may be returned by value
            wr(m, p, g)
        return args[0]
    A = r'nil::crypto3::algebra::curves::detail::' + cls + r'<[^()]*> const&'
    return [(C + r'operator\+\(' + A + r'\) const$', binop(1)),
            (C + r'operator-\(' + A + r'\) const$', binop(-1)),
            (C + r'operator-\(\) const$', neg),
            (C + r'operator\+=\(' + A + r'\)$', compound(1)),
            (C + r'operator-=\(' + A + r'\)$', compound(-1)),
            (C + r'double_inplace\(\)$', dbl),
            (C + r'mixed_add\(' + A + r'\)$', mixed),
            (C + cls + r'\(\)$', init(lambda: GVal({}))),
            (C + r'zero\(\)$', init(lambda: GVal({}))),
            (C + r'one\(\)$', init(lambda: GVal({'g': 1}, '', one))),
            (C + r'operator=\(' + A + r'\)$', assign),
            (C + r'is_zero\(\) const$', is_zero)]
