"""Contracts of the arithmetic primitives (vc_*): residues are elements of the main field (rational functions over
Z or F_p under the path facts); other moduli and plain integers are concrete numbers, or integer handles."""
from .llvmir import Ptr, UNDEF, Undef
from .poly import Poly, El, Infeasible
from . import poly
from .machine import EXTERN, Fail, Unsupported, SYM, M64, sgn, SVal
import fractions


class Lift:
    """the canonical integer representative of a field element"""
    __slots__ = ('e',)

    def __init__(s, e):
        s.e = e


class FieldDomain:
    prefixes = False        # bits of integers are given by prefix functions (vc/loops.py)

    exact = False           # quotients of constants that doubles cannot represent stay rational

    def __init__(s, facts, symbols=None, prime=None):
        s.facts = facts
        s.symbols = {} if symbols is None else symbols       # id -> El (main field) or int
        s.prime = prime                 # P[0]
        s.sqrt_log = []
        s.machine = None

    # -- raw memory ----------------------------------------------------------------------
    def tag(s, p):
        return s.machine.load(p, 8)

    def limbs(s, p, n):
        m = s.machine
        r = 0
        for i in range(n):
            v = m.load(Ptr(p.o, p.off + 8 + 8 * i), 8)
            if v.__class__ is not int:
                raise Fail('undef', 'number with undefined limbs')
            r |= v << (64 * i)
        return r

    def get(s, p, n):
        """int | El | other handle"""
        t = s.tag(p)
        if t.__class__ is int:
            if t == 0:
                return s.limbs(p, n)
            if (t >> 56) == 0x56:
                return s.symbols[t & ((1 << 56) - 1)]
            raise Fail('undef', 'corrupted number')
        if t is UNDEF:
            raise Fail('undef', 'use of an uninitialised number')
        return t

    def put(s, p, n, v):
        m = s.machine
        if v.__class__ is int:
            m.store(p, 8, 0)
            for i in range(n):
                m.store(Ptr(p.o, p.off + 8 + 8 * i), 8, (v >> (64 * i)) & M64)
        else:
            m.store(p, 8, v)
            for i in range(n):
                m.store(Ptr(p.o, p.off + 8 + 8 * i), 8, 0)

    def modulus(s, m, n):
        """None for the main field, otherwise the integer modulus"""
        t = s.tag(m)
        if t.__class__ is int and t == 0:
            q = s.limbs(m, n)
            if q == s.prime:
                return None
            return q
        return None

    def el(s, v):
        if v.__class__ is int:
            return El(Poly.const(v))
        if v.__class__ is Lift:
            return v.e
        if v.__class__ is El:
            return v
        raise Unsupported('field operand %r' % (v,))

    def fget(s, p, n):
        return s.el(s.get(p, n))

    # -- machine hooks for symbolic machine values (none in this domain) -----------------------
    def truth(s, v):
        raise Unsupported('symbolic condition')

    def icmp(s, pr, x, y, w):
        raise Unsupported('symbolic integer comparison %r %r' % (x, y))

    def bin(s, op, x, y, w):
        raise Unsupported('symbolic integer arithmetic %s %r %r' % (op, x, y))

    def cast(s, op, x, wi, wo):
        if x.__class__ in (El,) and op in ('fpext', 'fptrunc', 'freeze'):
            return x
        raise Unsupported('symbolic cast ' + op)

    def concretize(s, v, w):
        raise Unsupported('symbolic index')

    # -- reals -----------------------------------------------------------------------------
    def real(s, x):
        if x.__class__ is float:
            if x != x or x in (float('inf'), float('-inf')):
                raise Fail('float', 'NaN or infinity in arithmetic')
            f = fractions.Fraction(x)
            e = El(Poly.const(f.numerator))
            if f.denominator != 1:
                e = e * El(Poly.const(f.denominator)).inv()
            return e
        return x

    def fbin(s, op, xs):
        a = s.real(xs[0])
        if op == 'fneg':
            return -a
        b = s.real(xs[1])
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        if op == 'fdiv':
            if s.facts.is_zero(b):
                raise Fail('fdiv', 'floating point division by zero')
            return a * s.facts_inv(b)
        raise Unsupported(op)

    def facts_inv(s, b):
        return b.inv()

    def fcmp(s, pr, a, b):
        a = s.real(a)
        b = s.real(b)
        if pr in ('ord',):
            return 1
        if pr in ('uno',):
            return 0
        t = pr[1:]
        if t == 'eq':
            return int(s.facts.is_zero(a - b))
        if t == 'ne':
            return int(not s.facts.is_zero(a - b))
        return int(s.order(t, a - b))

    def order(s, t, d):
        """decide d < 0, d <= 0, d > 0, d >= 0 by forking on the sign"""
        sg = s.sign(d)
        return {'lt': sg < 0, 'le': sg <= 0, 'gt': sg > 0, 'ge': sg >= 0}[t]

    def sign(s, d):
        if s.facts.is_zero(d):
            return 0
        n = s.facts.norm(d)
        if n.is_const() and not d.den:
            return 1 if n.cval() > 0 else -1
        if s.facts.subst:
            raise Unsupported('order comparison under substitutions')
        key = d.n * d.denpoly()
        k2 = key.lead_sign_normal()
        flip = 1 if k2 == key else -1
        sg = getattr(s.facts, 'signs', None)
        if sg is None:
            sg = s.facts.signs = {}
        if k2 not in sg:
            sg[k2] = 1 if s.facts.choose(2) == 0 else -1
            s.facts.hyps.append(('>0' if sg[k2] > 0 else '<0', k2))
        return flip * sg[k2]

    def fun(s, fn, x):
        if fn is abs:
            return x if s.sign(x) >= 0 else -x
        raise Unsupported('real function of a symbolic value')


def _main(d, mod):
    return mod is None


def m_op(m, a):
    op, o, x, y, md, n = a
    d = m.domain
    q = d.modulus(md, n)
    u = d.get(x, n)
    v = d.get(y, n)
    if q is not None:
        if u.__class__ is int and v.__class__ is int:
            d.put(o, n, (u + v if op == 0 else u - v if op == 1 else u * v) % q)
            return
        h = getattr(d, 'scalar_op', None)
        if h is None:
            raise Unsupported('symbolic residue modulo a second modulus')
        d.put(o, n, h(op, u, v, q))
        return
    h = getattr(d, 'main_op', None)
    if h is not None:
        r = h(op, u, v)
        if r is not None:
            d.put(o, n, r)
            return
    u = d.el(u)
    v = d.el(v)
    d.put(o, n, u + v if op == 0 else u - v if op == 1 else u * v)


def m_inv(m, a):
    o, x, md, n = a
    d = m.domain
    q = d.modulus(md, n)
    u = d.get(x, n)
    if q is not None:
        if u.__class__ is not int:
            raise Unsupported('inverse of a symbolic residue of a second modulus')
        d.put(o, n, pow(u, -1, q) if u % q else 0)
        return
    u = d.el(u)
    if d.facts.is_zero(u):
        d.put(o, n, El(Poly.const(0)))
    else:
        d.put(o, n, u.inv())


def m_sqrt(m, a):
    o, x, md, n = a
    d = m.domain
    q = d.modulus(md, n)
    u = d.el(d.get(x, n))
    if q is not None:
        raise Unsupported('square root modulo a second modulus')
    if d.facts.is_zero(u):
        d.put(o, n, El(Poly.const(0)))
        return
    if hasattr(d, 'sqrt_hook'):
        r = d.sqrt_hook(u)
        if r is not None:
            d.put(o, n, r)
            return
    raise Unsupported('square root')


def m_pow(m, a):
    o, x, e, ne, md, n = a
    d = m.domain
    q = d.modulus(md, n)
    ev = d.get(e, ne)
    u = d.get(x, n)
    if q is not None:
        if u.__class__ is int and ev.__class__ is int:
            d.put(o, n, pow(u, ev, q))
            return
        raise Unsupported('power')
    if hasattr(d, 'main_pow'):
        r = d.main_pow(u, ev)
        if r is not None:
            d.put(o, n, r)
            return
    if ev.__class__ is int:
        u = d.el(u)
        if hasattr(d, 'pow_hook'):
            r = d.pow_hook(u, ev)
            if r is not None:
                d.put(o, n, r)
                return
        if u.n.is_const() and not u.den and d.prime:
            d.put(o, n, El(Poly.const(pow(u.n.cval(), ev, d.prime))))
            return
        if ev <= 64:
            r = El(1)
            for _ in range(ev):
                r = r * u
            d.put(o, n, r)
            return
    raise Unsupported('power with a large or symbolic exponent')


def m_from(m, a):
    o, x, nx, md, n = a
    d = m.domain
    q = d.modulus(md, n)
    v = d.get(x, nx)
    if v.__class__ is int:
        d.put(o, n, v % q if q else El(Poly.const(v)))
    elif v.__class__ is Lift and q is None:
        d.put(o, n, v.e)
    elif v.__class__ is El and q is None:
        d.put(o, n, v)
    elif hasattr(d, 'from_hook'):
        d.put(o, n, d.from_hook(v, q))
    elif hasattr(v, 'to_residue'):
        d.put(o, n, v.to_residue(d, q))
    else:
        raise Unsupported('conversion to residue')


def m_from_s(m, a):
    o, v, md, n = a
    d = m.domain
    q = d.modulus(md, n)
    v = sgn(v, 64)
    d.put(o, n, v % q if q else El(Poly.const(v)))


def m_to(m, a):
    o, no, x, md, n = a
    d = m.domain
    q = d.modulus(md, n)
    v = d.get(x, n)
    if v.__class__ is El:
        if d.prime and v.n.is_const() and not v.den:
            v = v.n.cval() % d.prime
        else:
            v = Lift(v)
    elif v.__class__ is int and q is None and not d.prime:
        pass
    d.put(o, no, v)


def m_eq(m, a):
    x, y, md, n = a
    d = m.domain
    q = d.modulus(md, n)
    u = d.get(x, n)
    v = d.get(y, n)
    if u.__class__ is int and v.__class__ is int:
        if q or d.prime:
            return int(u == v)
    h = getattr(d, 'eq_hook', None)
    if h is not None:
        r = h(u, v, q)
        if r is not None:
            return r
    if q is not None:
        raise Unsupported('comparison of symbolic residues of a second modulus')
    return int(d.facts.is_zero(d.el(u) - d.el(v)))


def _cst(d, v):
    if v.__class__ is El and v.n.is_const() and not v.den and d.prime:
        return v.n.cval() % d.prime
    if v.__class__ is Lift:
        return _cst(d, v.e)
    return v


def m_lt(m, a):
    x, y, md, n = a
    d = m.domain
    u = _cst(d, d.get(x, n))
    v = _cst(d, d.get(y, n))
    if u.__class__ is int and v.__class__ is int:
        return int(u < v)
    if hasattr(d, 'lt_hook'):
        return int(d.lt_hook(u, v))
    raise Unsupported('order of symbolic residues')


def _int(d, p, n):
    v = _cst(d, d.get(p, n))
    return v


def i_op(m, a):
    op, o, no, x, nx, y, ny = a
    d = m.domain
    u = _int(d, x, nx)
    v = _int(d, y, ny)
    if u.__class__ is not int or v.__class__ is not int:
        if hasattr(d, 'int_op'):
            d.put(o, no, d.int_op(op, u, v, no))
            return
        raise Unsupported('arithmetic on a symbolic integer')
    if op in (3, 4) and v == 0:
        raise Fail('division', 'big integer division by zero')
    r = (u + v if op == 0 else u - v if op == 1 else u * v if op == 2 else u // v if op == 3 else u % v if op == 4 else
         (u << v if v < 1 << 20 else 0) if op == 5 else u >> v if op == 6 else u & v if op == 7 else u | v if op == 8 else u ^ v)
    d.put(o, no, r & ((1 << (64 * no)) - 1))


def _cmp(name, f):
    def g(m, a):
        x, nx, y, ny = a
        d = m.domain
        u = _int(d, x, nx)
        v = _int(d, y, ny)
        if u.__class__ is int and v.__class__ is int:
            return f(u, v)
        if name == 'eq' and (u.__class__ is Lift or v.__class__ is Lift) and (u.__class__ in (Lift, int) and v.__class__ in (Lift, int)):
            if not d.prime or all(t.__class__ is Lift or t < d.prime for t in (u, v)):
                return int(d.facts.is_zero(d.el(u) - d.el(v)))
            return 0
        if hasattr(d, 'int_cmp'):
            return d.int_cmp(name, u, v)
        raise Unsupported('comparison of symbolic integers')
    return g


def i_bit(m, a):
    x, n, i = a
    d = m.domain
    v = _int(d, x, n)
    if v.__class__ is int and i.__class__ is int and not d.prefixes:
        return (v >> i) & 1 if i < 64 * n else 0
    if hasattr(d, 'int_bit'):
        return d.int_bit(v, i, n)
    raise Unsupported('bit of a symbolic integer')


def i_msb(m, a):
    x, n = a
    v = _int(m.domain, x, n)
    if v.__class__ is int and not m.domain.prefixes:
        if v == 0:
            raise Fail('msb', 'most significant bit of zero')
        return v.bit_length() - 1
    if hasattr(m.domain, 'int_msb'):
        return m.domain.int_msb(v, n)
    raise Unsupported('msb of a symbolic integer')


def i_low(m, a):
    x, n = a
    v = _int(m.domain, x, n)
    if v.__class__ is int:
        return v & M64
    if hasattr(m.domain, 'int_low'):
        return m.domain.int_low(v, n)
    raise Unsupported('low limb of a symbolic integer')


def i_conv(m, a):
    o, no, x, nx = a
    v = _int(m.domain, x, nx)
    if v.__class__ is int:
        v &= (1 << (64 * no)) - 1
    elif no < nx and hasattr(m.domain, 'int_conv'):
        v = m.domain.int_conv(v, no)
    m.domain.put(o, no, v)


def i_setbyte(m, a):
    x, n, i, b = a
    d = m.domain
    v = _int(d, x, n)
    if v.__class__ is int and b.__class__ is int:
        if i < 8 * n:
            d.put(x, n, v | (b & 255) << (8 * i))
        return
    if hasattr(d, 'int_setbyte'):
        if i < 8 * n:
            d.put(x, n, d.int_setbyte(v, i, b, n))
        return
    raise Unsupported('symbolic bytes')


def i_getbyte(m, a):
    x, n, i = a
    d = m.domain
    v = _int(d, x, n)
    if v.__class__ is int:
        return (v >> (8 * i)) & 255
    if hasattr(d, 'int_getbyte'):
        return d.int_getbyte(v, i, n)
    raise Unsupported('symbolic bytes')


def i_bytes(m, a):
    x, n = a
    v = _int(m.domain, x, n)
    if v.__class__ is int:
        return max(1, (v.bit_length() + 7) // 8)
    if hasattr(m.domain, 'int_bytes'):
        return m.domain.int_bytes(v, n)
    raise Unsupported('symbolic bytes')


def i_isprime(m, a):
    from sympy import isprime
    v = _int(m.domain, a[0], a[1])
    if v.__class__ is int:
        return int(isprime(v))
    raise Unsupported('primality of a symbolic integer')


def wnaf_digits(c, w):
    r = []
    while c:
        u = 0
        if c & 1:
            u = c % (1 << (w + 1))
            if u > (1 << w):
                u -= 1 << (w + 1)
            c -= u
        r.append(u)
        c >>= 1
    return r


def wnaf(m, a):
    out, cap, w, x, n = a
    v = _int(m.domain, x, n)
    if v.__class__ is not int:
        raise Unsupported('wnaf of a symbolic integer')
    r = wnaf_digits(v, w)
    for k, u in enumerate(r):
        m.store(Ptr(out.o, out.off + 8 * k), 8, u & M64)
    return len(r)


EXTERN.update({
    'vc_m_op': m_op, 'vc_m_inv': m_inv, 'vc_m_sqrt': m_sqrt, 'vc_m_pow': m_pow, 'vc_m_from': m_from, 'vc_m_from_s': m_from_s,
    'vc_m_to': m_to, 'vc_m_eq': m_eq, 'vc_m_lt': m_lt, 'vc_i_op': i_op, 'vc_i_eq': _cmp('eq', lambda u, v: int(u == v)),
    'vc_i_lt': _cmp('lt', lambda u, v: int(u < v)), 'vc_i_cmp': _cmp('cmp', lambda u, v: ((u > v) - (u < v)) & 0xffffffff),
    'vc_i_bit': i_bit, 'vc_i_msb': i_msb, 'vc_i_low': i_low, 'vc_i_conv': i_conv, 'vc_i_setbyte': i_setbyte,
    'vc_i_getbyte': i_getbyte, 'vc_i_bytes': i_bytes, 'vc_i_isprime': i_isprime, 'vc_wnaf': wnaf,
})
