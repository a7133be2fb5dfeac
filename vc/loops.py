"""Unbounded integers, group elements known through their contracts, and loops proved by induction.

Values
  SInt   a big integer (exponent, scalar), ZI a machine integer: linear/uninterpreted terms over the integers, decided by z3
  GVal   an element of an abelian group given as an integer combination of named generators (power of a base, multiple of a
         point); its coordinates in memory are GPart handles.  The operations of the class are replaced by their contracts.
Loops
  A loop whose iteration count depends on the inputs is cut at its header.  The invariant is conjectured from concrete
  executions of the same code (every location the loop changes is matched against integer expressions in the iteration count k,
  the length of the operand and its binary/NAF prefix function), then proved: it holds on entry, it is preserved by one arbitrary
  iteration, k stays below a bound (termination), and the code after the loop runs from the invariant alone."""
import fractions, time
import z3
from .llvmir import Ptr, UNDEF
from .poly import Poly, El, Infeasible
from .machine import EXTERN, Fail, Unsupported, SVal, Obj, sgn, M64
from .domain import FieldDomain, wnaf_digits


class SInt(SVal):
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = t

    def __repr__(s):
        return 'SInt(%s)' % (s.t,)


class ZI(SVal):
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = t

    def __repr__(s):
        return 'ZI(%s)' % (s.t,)


class Havoc(SVal):
    __slots__ = ()

    def __repr__(s):
        return 'havoc'


HAVOC = Havoc()


class GVal:
    __slots__ = ('c', 'one', 'kind')

    def __init__(s, c, kind='', one=None):
        s.c = {g: v for g, v in c.items() if not (isinstance(v, int) and v == 0)}
        s.one = one         # is this representative normalised (Z = 1)?  None: not known
        s.kind = kind

    def __repr__(s):
        return 'G(%s)' % (' + '.join('%s*%s' % (v, g) for g, v in s.c.items()) or '0')


class GPart(SVal):
    __slots__ = ('g', 'i', 'n')

    def __init__(s, g, i, n):
        s.g = g
        s.i = i
        s.n = n

    def __repr__(s):
        return '%r[%d]' % (s.g, s.i)


class SymObj(Obj):
    """an array of machine integers of symbolic length, given by a function of the index"""
    __slots__ = ('elem', 'fn', 'len')

    def __init__(s, name, elem, length, fn):
        Obj.__init__(s, 0, name)
        s.elem = elem
        s.len = length
        s.fn = fn


class SymArr(Obj):
    """an array of structures, of symbolic length: fn(index, offset in the element, size) is the content"""
    __slots__ = ('elem', 'fn', 'len')

    def __init__(s, name, elem, length, fn):
        Obj.__init__(s, 0, name)
        s.elem = elem
        s.len = length
        s.fn = fn


class OutArr(SymArr):
    """an array of symbolic length that is written element by element: before front the content is new(index, ..), behind it is old(index, ..),
    pend has the writes since front was set"""
    __slots__ = ('front', 'pend', 'old', 'new')

    def __init__(s, name, elem, length, old, new):
        SymArr.__init__(s, name, elem, length, None)
        s.front, s.pend, s.old, s.new = 0, [], old, new

    def advance(s, d, same):
        """take the pending writes that complete the elements from front on"""
        while s.pend:
            now = [w for w in s.pend if d.entails(w[0] == s.front)]
            if not now:
                raise Fail('frame', 'element %s of %s is written while %s is next' % (s.pend[0][0], s.name, s.front))
            for q, r, n, v in now:
                if not same(v, s.new(q, r, n)):
                    raise Fail('invariant', 'element %s of %s becomes %r' % (q, s.name, v))
            if sum(w[2] for w in now) != s.elem:
                raise Fail('invariant', 'element %s of %s is written in part' % (s.front, s.name))
            s.pend = [w for w in s.pend if w not in now]
            s.front = z3.simplify(s.front + 1) if isz(s.front) else s.front + 1


class PathDone(Exception):
    pass


class InvFail(Exception):
    def __init__(s, key, loc, why):
        Exception.__init__(s, '%s %s' % (loc, why))
        s.key = key
        s.loc = loc
        s.why = why


def isz(t):
    return isinstance(t, z3.ExprRef)


# ---------------------------------------------------------------------------------------- prefix functions
class BitSeq:
    """j -> n >> j"""

    def __init__(s, d, name, n):
        s.d = d
        s.name = name
        s.n = n
        s.top = None
        s.seen = set()
        if isz(n):
            s.f = z3.Function('pre_' + name, z3.IntSort(), z3.IntSort())

    def settop(s):
        if s.top is not None:
            return s.top
        if not isz(s.n):
            s.top = s.n.bit_length() - 1
        else:
            s.top = z3.Int('msb_' + s.name)
            s.d.assume(z3.And(s.top >= 0, s.top < s.d.maxbits))
            s.d.assume(s.f(s.top) == 1)
            s.d.assume(s.f(s.top + 1) == 0)
            s.d.assume(s.f(z3.IntVal(0)) == s.n)
            s.d.assume(z3.Implies(s.top == 0, s.n == 1))
            for q in s.d.seqs.values():       # the most significant bit is monotone
                if isinstance(q, BitSeq) and q is not s and q.top is not None and isz(q.n):
                    s.d.assume(z3.Implies(q.n >= s.n, q.top >= s.top))
                    s.d.assume(z3.Implies(q.n <= s.n, q.top <= s.top))
        return s.top

    def at(s, j):
        if not isz(s.n) and not isz(j):
            return s.n >> j if j >= 0 else None
        j = z3.simplify(j) if isz(j) else z3.IntVal(j)
        t = s.f(j)
        if j.get_id() not in s.seen:
            s.seen.add(j.get_id())
            s.d.keep.append(j)
            s.d.assume(z3.And(t >= 0, t <= s.n))
            s.d.assume(z3.Implies(j == 0, t == s.n))
            if s.top is not None:
                s.d.assume(z3.Implies(j > s.top, t == 0))
                s.d.assume(z3.Implies(z3.And(j <= s.top, j >= 0), t >= 1))
                s.d.assume(z3.Implies(j == s.top, t == 1))
        return t

    def digit(s, j):
        if not isz(s.n) and not isz(j):
            return (s.n >> j) & 1
        jj = j if isz(j) else z3.IntVal(j)
        a, b = s.at(jj), s.at(jj + 1)
        x = z3.Int('bit_%s_%d' % (s.name, s.d.fresh()))
        s.d.assume(z3.And(x >= 0, x <= 1, a == 2 * b + x))
        return x


class NafSeq:
    """j -> sum of the digits from j on, weighted"""

    def __init__(s, d, name, n, w):
        s.d = d
        s.name = name
        s.n = n
        s.w = w
        s.seen = set()
        if isz(n):
            s.f = z3.Function('naf_' + name, z3.IntSort(), z3.IntSort())
            s.len = z3.Int('len_' + name)
            s.top = s.len - 1
            d.assume(z3.And(s.len >= 0, s.len <= d.maxbits + 1))
            d.assume((s.len == 0) == (n == 0))
            d.assume(s.f(z3.IntVal(0)) == n)
        else:
            s.digits = wnaf_digits(n, w)
            s.len = len(s.digits)
            s.top = s.len - 1

    def at(s, j):
        if not isz(s.n) and not isz(j):
            if j < 0:
                return None
            return sum(u << (i - j) for i, u in enumerate(s.digits) if i >= j)
        j = z3.simplify(j) if isz(j) else z3.IntVal(j)
        t = s.f(j)
        if j.get_id() not in s.seen:
            s.seen.add(j.get_id())
            s.d.keep.append(j)
            s.d.assume(z3.Implies(j == 0, t == s.n))
            s.d.assume(z3.Implies(j >= s.len, t == 0))
            s.d.assume(z3.Implies(z3.And(j < s.len, j >= 0), t >= 1))
        return t

    def digit(s, j):
        if not isz(s.n) and not isz(j):
            return s.digits[j]
        jj = j if isz(j) else z3.IntVal(j)
        a, b = s.at(jj), s.at(jj + 1)
        x = z3.Int('naf_%s_%d' % (s.name, s.d.fresh()))
        h = z3.Int('half_%s_%d' % (s.name, s.d.fresh()))
        m = (1 << s.w) - 1
        s.d.assume(z3.And(x >= -m, x <= m, a == 2 * b + x, z3.Or(x == 0, x == 2 * h + 1)))
        return x


# ---------------------------------------------------------------------------------------- domain
class GroupDomain(FieldDomain):
    maxbits = 1 << 20
    prefixes = True
    multiplicative = False    # the elements are field elements: the neutral one has coordinates 1, 0, ..., 0
    weak = False              # has the path forked on the coordinates of an element?
    deadline = None

    def __init__(s, facts, symbols=None, prime=None):
        FieldDomain.__init__(s, facts, symbols, prime)
        s.zs = z3.Solver()
        s.zs.set('timeout', 20000)
        s.cs = []
        s.keep = []
        s.cnt = 0
        s.trace = None
        s.seqs = {}
        s.scalar = {}         # name of a scalar -> term
        s.loopctl = None
        s.deadgens = set()
        s.livegens = set()
        s.zerogens = set()    # elements of a field that are zero: their powers with positive exponent are zero
        s.nzgens = set()
        s.ctests = {}         # (power product, coordinate) -> constant -> is it equal?
        s.cvals = {}          # native variable -> value assumed on this path

    def fresh(s):
        s.cnt += 1
        return s.cnt

    # -- integers ------------------------------------------------------------------------------
    def assume(s, c):
        if c is True or isz(c) and z3.is_true(c):
            return
        s.cs.append(c)
        s.zs.add(c)

    def entails(s, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return s.zs.check() == z3.unsat
        s.zs.push()
        s.zs.add(z3.Not(c))
        r = s.zs.check()
        s.zs.pop()
        return r == z3.unsat

    def feasible(s, c=None):
        if c is None:
            return s.zs.check() != z3.unsat
        return s.zs.check(c) != z3.unsat

    def decide(s, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if s.deadline and time.time() > s.deadline:
            raise Unsupported('time limit')
        if not s.feasible(c):
            if not s.feasible():
                raise Infeasible()
            return False
        if not s.feasible(z3.Not(c)):
            return True
        b = s.facts.choose(2) == 0
        s.assume(c if b else z3.Not(c))
        s.facts.hyps.append(('int', str(c) if b else 'not ' + str(c)))
        return b

    def model(s):
        if s.zs.check() == z3.sat:
            m = s.zs.model()
            return {k: m.eval(v, model_completion=True).as_long() for k, v in s.scalar.items() if isz(v)}
        return None

    def term(s, v, w=64):
        if v.__class__ is int:
            return sgn(v, w) if w > 1 else v
        if v.__class__ is ZI:
            return v.t
        raise Unsupported('machine integer %r' % (v,))

    def zi(s, t, w=64):
        if not isz(t):
            return t & ((1 << w) - 1)
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() & ((1 << w) - 1)
        return ZI(t)

    def truth(s, v):
        if v.__class__ is ZI:
            return s.decide(v.t != 0)
        raise Unsupported('condition %r' % (v,))

    def truth1(s, v):
        return bool(v & 1) if v.__class__ is int else s.truth(v)

    def bound(s, x, w):
        if w > 1 and isz(x) and not s.entails(z3.And(x >= -(1 << (w - 1)), x < (1 << (w - 1)))):
            raise Unsupported('machine integer of %d bits may overflow' % w)
        return s.zi(x, w)

    def icmp(s, pr, x, y, w):
        a, b = s.term(x, w), s.term(y, w)
        if pr == 'eq':
            return s.zb(a == b)
        if pr == 'ne':
            return s.zb(a != b)
        if pr[0] == 'u' and w > 1:
            a, b = s.uns(a, w), s.uns(b, w)
        t = pr[1:]
        return s.zb(a < b if t == 'lt' else a <= b if t == 'le' else a > b if t == 'gt' else a >= b)

    def uns(s, t, w):
        if not isz(t):
            return t & ((1 << w) - 1)
        return t if s.decide(t >= 0) else t + (1 << w)

    def zb(s, c):
        if isinstance(c, bool):
            return int(c)
        return int(s.decide(c))

    def bin(s, op, x, y, w):
        a, b = s.term(x, w), s.term(y, w)
        if w == 1:
            if op in ('xor', 'add', 'sub'):
                return s.zi(1 - a if b.__class__ is int and b == 1 else a if b.__class__ is int else z3.If(a == b, 0, 1), 1) if isz(a) else s.bin(op, y, x, w)
            if op == 'and':
                return int(s.decide(a != 0 if isz(a) else bool(a)) and s.decide(b != 0 if isz(b) else bool(b)))
            if op == 'or':
                return int(s.decide(a != 0 if isz(a) else bool(a)) or s.decide(b != 0 if isz(b) else bool(b)))
            raise Unsupported('i1 ' + op)
        if op == 'add':
            return s.bound(a + b, w)
        if op == 'sub':
            return s.bound(a - b, w)
        if op == 'mul' and (not isz(a) or not isz(b)):
            return s.bound(a * b, w)
        if op in ('and',) and not isz(b) and b >= 0 and (b + 1) & b == 0 or op == 'urem' and not isz(b) and b > 0:
            m = b + 1 if op == 'and' else b
            if op == 'urem' and not s.decide(a >= 0):
                raise Unsupported('remainder of a negative number')
            return s.zi(s.divmod(a, m)[1], w)
        if op in ('sdiv', 'udiv', 'srem') and not isz(b) and b > 0:
            if s.decide(a >= 0):
                q, r = s.divmod(a, b)
            else:
                if op == 'udiv':
                    raise Unsupported('unsigned division of a wrapped number')
                q, r = s.divmod(-a, b)
                q, r = -q, -r
            return s.zi(r if op == 'srem' else q, w)
        if op in ('lshr', 'ashr') and not isz(b):
            if op == 'lshr' and not s.decide(a >= 0):
                raise Unsupported('logical shift of a negative number')
            return s.zi(s.divmod(a, 1 << b)[0], w)
        if op == 'shl' and not isz(b):
            return s.bound(a * (1 << b), w)
        if op == 'shl' and not isz(a):
            for k in range(0, 9):
                if s.entails(b == k):
                    return s.bound(a << k, w) if isz(a << k) else (a << k) & ((1 << w) - 1)
        if op == 'shl' and not isz(a) and a == 1 and s.entails(z3.And(b >= 0, b < w - 1)):
            t = z3.Int('pow2_%d' % s.fresh())     # 2^b, of which only this is used
            s.assume(z3.And(t >= 1, t > b, z3.Implies(b == 0, t == 1)))
            return s.zi(t, w)
        raise Unsupported('symbolic machine arithmetic %s' % op)

    def divmod(s, a, m):
        if not isz(a):
            return a // m, a % m
        q = z3.Int('q%d' % s.fresh())
        r = z3.Int('r%d' % s.fresh())
        s.assume(z3.And(a == m * q + r, r >= 0, r < m))
        return q, r

    def cast(s, op, x, wi, wo):
        if x.__class__ is ZI:
            if op == 'zext' and wi > 1:
                return s.zi(s.uns(x.t, wi), wo)
            if op == 'sext' and wi == 1:
                return s.zi(-x.t, wo)
            if op == 'trunc':
                if wo == 1:
                    return s.zi(s.divmod(x.t, 2)[1], 1)
                if s.entails(z3.And(x.t >= 0, x.t < (1 << wo))):
                    return s.zi(x.t if s.decide(x.t < (1 << (wo - 1))) else x.t - (1 << wo), wo)
                return s.bound(x.t, wo)
            if op in ('zext', 'sext', 'freeze', 'ptrtoint'):
                return x
        if x.__class__ in (GPart, SInt):
            return x
        return FieldDomain.cast(s, op, x, wi, wo)

    def concretize(s, v, w, limit=40):
        if v.__class__ is ZI:
            if s.zs.check() != z3.sat:
                raise Infeasible() if s.zs.check() == z3.unsat else Unsupported('index')
            for _ in range(limit):
                m = s.zs.model()
                k = m.eval(v.t, model_completion=True).as_long()
                if s.decide(v.t == k):
                    return k & ((1 << w) - 1)
                if s.zs.check() != z3.sat:
                    raise Infeasible()
            raise Unsupported('index with many values')
        raise Unsupported('symbolic index')

    # -- big integers --------------------------------------------------------------------------
    def int(s, v):
        if v.__class__ is int:
            return v
        if v.__class__ is SInt:
            return v.t
        raise Unsupported('integer %r' % (v,))

    def newint(s, name, concrete=None):
        if concrete is not None:
            t = concrete
        else:
            t = z3.Int(name)
            s.assume(t >= 0)
        s.scalar[name] = t
        return SInt(t)

    def seq(s, t):
        """the binary prefix function of the integer t"""
        for q in s.seqs.values():
            if isinstance(q, BitSeq) and (q.n is t or isz(q.n) and isz(t) and q.n.eq(t) or not isz(t) and not isz(q.n) and q.n == t):
                return q
        nm = None
        for k, v in s.scalar.items():
            if v is t or isz(v) and isz(t) and v.eq(t) or not isz(t) and not isz(v) and t == v:
                nm = k
                break
        if nm is None:
            nm = 'x%d' % len(s.seqs)
        q = s.seqs[nm] = BitSeq(s, nm, t)
        return q

    def int_msb(s, v, n):
        t = s.int(v)
        if isz(t) and not s.entails(t >= 1):
            if s.decide(t == 0):
                raise Fail('msb', 'most significant bit of zero')
        elif not isz(t) and t == 0:
            raise Fail('msb', 'most significant bit of zero')
        return s.zi(s.seq(t).settop())

    def int_bit(s, v, i, n):
        t = s.int(v)
        j = s.term(i)
        if not isz(t) and not isz(j):
            return (t >> j) & 1 if j >= 0 else 0
        if isz(j) and not s.entails(j >= 0):
            raise Unsupported('bit index may be negative')
        return s.zi(s.seq(t).digit(j), 1)

    def int_cmp(s, name, u, v):
        a, b = s.int(u), s.int(v)
        if name == 'eq':
            return s.zb(a == b)
        if name == 'lt':
            return s.zb(a < b)
        return 0 if s.zb(a == b) else 1 if s.zb(a > b) else 0xffffffff

    def int_op(s, op, u, v, no):
        a, b = s.int(u), s.int(v)
        if op == 0:
            r = a + b
        elif op == 1:
            r = a - b
            if isz(r) and not s.entails(r >= 0):
                raise Unsupported('unsigned subtraction')
        elif op == 2 and (not isz(a) or not isz(b)):
            r = a * b
        elif op in (3, 4) and not isz(b) and b:
            r = s.divmod(a, b)[op - 3]
        elif op == 6 and not isz(b):
            r = s.divmod(a, 1 << b)[0]
        elif op == 5 and not isz(b):
            r = a << b if not isz(a) else a * (1 << b)
        elif op == 7 and not isz(b) and (b + 1) & b == 0:
            r = s.divmod(a, b + 1)[1]
        else:
            raise Unsupported('big integer operation %d' % op)
        return SInt(z3.simplify(r) if isz(r) else r)

    def int_conv(s, v, no):
        t = s.int(v)
        if not isz(t):
            return SInt(t & ((1 << (64 * no)) - 1))
        if s.entails(t < 1 << (64 * no)):
            return v
        raise Unsupported('narrowing of an unbounded integer')

    def eq_hook(s, u, v, q):
        if u.__class__ is SInt or v.__class__ is SInt:
            def c(x):
                if x.__class__ is SInt:
                    return x.t
                if x.__class__ is int:
                    return x
                if x.__class__ is El and x.n.is_const() and not x.den:
                    return x.n.cval()
                raise Unsupported('comparison of %r' % (x,))
            return s.zb(c(u) == c(v))
        if u.__class__ is GPart or v.__class__ is GPart:
            g, x = (u, v) if u.__class__ is GPart else (v, u)
            if x.__class__ in (int, El):
                x = x if x.__class__ is int else x.n.cval() if x.n.is_const() and not x.den else None
                if x == 1 and g.i == {3: 2, 4: 3}.get(g.n):
                    if g.g.one is None:
                        g.g.one = s.facts.choose(2) == 0
                        s.facts.hyps.append(('Z = 1' if g.g.one else 'Z != 1', repr(g.g)))
                    return int(g.g.one)
                if x in (0, 1) and g.n > 1 and s.multiplicative:
                    return s.coordtest(g, x)
            raise Unsupported('comparison of a coordinate with %r' % (x,))
        return None

    def coordtest(s, q, x):
        """does coordinate q.i of a power product equal the constant x?  Decided by forking: the fact is used for nothing but the
        native runs, so an obligation that fails below this point is an alarm only if a native run confirms it"""
        c = {g: v for g, v in q.g.c.items() if g not in s.deadgens and not (isz(v) and s.entails(v == 0)) and (isz(v) or v)}
        if not c:
            return int(x == int(q.i == 0))
        if any(g in s.zerogens and s.entails(v >= 1) for g, v in c.items()):
            return int(x == 0)
        key = (tuple(sorted((g, str(v)) for g, v in c.items())), q.i)
        known = s.ctests.setdefault(key, {})
        if 1 in known.values():
            return known.get(x, 0)
        if x not in known:
            s.weak = True
            known[x] = s.facts.choose(2)
            s.facts.hyps.append(('coordinate %d %s %d' % (q.i, '=' if known[x] else '!=', x), repr(q.g)))
            if known[x] and len(c) == 1 and str(list(c.values())[0]) == '1':
                s.cvals['%s%d' % (list(c)[0], q.i)] = x
        return known[x]

    def main_op(s, op, u, v):
        """prime field elements given as powers: multiplication"""
        if op == 2 and (u.__class__ is GPart or v.__class__ is GPart):
            if u.__class__ is not GPart:
                u, v = v, u
            if u.n == 1:
                if v.__class__ is GPart:
                    return GPart(s.gadd(u.g, v.g), 0, 1)
                if v.__class__ is int and v == 1 or v.__class__ is El and v.n.is_const() and not v.den and v.n.cval() == 1:
                    return u
        if op == 2 and u.__class__ in (int, El) and v.__class__ in (int, El):
            return None
        return None

    def main_pow(s, u, e):
        if u.__class__ is GPart and u.n == 1:
            return GPart(s.gscale(u.g, s.int(e)), 0, 1)
        return None

    def limit(s, n, bits):
        """the integer n as an unsigned machine integer"""
        if not isz(n.t):
            return n.t & ((1 << bits) - 1)
        s.assume(n.t < 1 << bits)
        return s.zi(n.t if bits < 64 or s.decide(n.t < 1 << 63) else n.t - (1 << 64))

    def limbs(s, p, n):
        m = s.machine
        vs = [m.load(Ptr(p.o, p.off + 8 + 8 * i), 8) for i in range(n)]
        if any(v.__class__ is ZI for v in vs):
            t = 0
            for i, v in enumerate(vs):
                if v.__class__ not in (int, ZI):
                    raise Fail('undef', 'number with undefined limbs')
                t = t + s.uns(s.term(v, 64), 64) * (1 << (64 * i))
            return SInt(z3.simplify(t))
        return FieldDomain.limbs(s, p, n)


    def el(s, v):
        if v.__class__ is SInt or v.__class__ is GPart:
            raise Unsupported('field operation on %r' % (v,))
        return FieldDomain.el(s, v)

    def int_low(s, v, n):
        t = s.int(v)
        if not isz(t):
            return t & M64
        if s.entails(t < 1 << 63):
            return s.zi(t)
        raise Unsupported('low limb of an unbounded integer')

    # -- group elements ------------------------------------------------------------------------
    def gread(s, m, p, n, nl=1):
        """the element whose coordinates are at p"""
        if p.o.__class__ is str:
            p = Ptr(m.gobj(p.o), p.off)
        sz = 8 * (1 + nl)
        g = None
        for i in range(n):
            v = m.load(Ptr(p.o, p.off + i * sz), 8)
            if v.__class__ is not GPart and i == 0 and s.zerogens and all(s.literal0(m, Ptr(p.o, p.off + k * sz), nl) for k in range(n)):
                return s.fzeroval()
            if v.__class__ is not GPart or v.i != i or v.n != n or g is not None and v.g is not g:
                if v is UNDEF:
                    raise Fail('undef', 'use of an uninitialised element')
                raise Unsupported('an operand is not a group element: %r' % (v,))
            g = v.g
        return g

    def literal0(s, m, p, nl):
        try:
            x = s.el(s.get(p, nl))
        except (Unsupported, Fail):
            return False
        return not x.den and not x.n.d

    def gwrite(s, m, p, n, g, nl=1):
        sz = 8 * (1 + nl)
        for i in range(n):
            s.put(Ptr(p.o, p.off + i * sz), nl, GPart(g, i, n))

    def gadd(s, a, b, sign=1):
        c = dict(a.c)
        for g, v in b.c.items():
            t = c.get(g, 0) + (v if sign == 1 else -v)
            c[g] = z3.simplify(t) if isz(t) else t
        return GVal(c, a.kind or b.kind)

    def gscale(s, a, k):
        return GVal({g: (z3.simplify(v * k) if isz(v) else v * k) for g, v in a.c.items()}, a.kind)

    def glookup(s, parts):
        g = parts[0].g
        for i, v in enumerate(parts):
            if v.__class__ is not GPart or v.g is not g or v.i != i:
                raise Unsupported('the result is not a group element')
        return g

    def geq(s, a, b):
        """equal as combinations of the generators"""
        if s.zerogens:
            za, zb = ([x.c[g] >= 1 for g in s.zerogens if g in x.c] for x in (a, b))
            za, zb = (any(x) if all(isinstance(q, bool) for q in x) else z3.Or(*x) for x in (za, zb))
            if s.decide(za):
                return s.entails(zb)
            if not s.entails(not zb if isinstance(zb, bool) else z3.Not(zb)):
                return False
        for g in set(a.c) | set(b.c):
            if g in s.deadgens:
                continue
            x, y = a.c.get(g, 0), b.c.get(g, 0)
            if not (x is y or s.entails(x == y)):
                return False
        return True

    def fzero(s, a):
        """is this power of a field element zero?  The base is decided by forking"""
        c = {g: v for g, v in a.c.items() if g not in s.deadgens and g not in s.nzgens and not s.entails(v == 0)}
        for g, v in c.items():
            if not s.decide(v >= 1):
                continue
            if g in s.zerogens:
                return 1
            if s.facts.choose(2) == 0:
                s.nzgens.add(g)
                s.facts.hyps.append(('zero', 'not ' + g))
            else:
                s.zerogens.add(g)
                s.facts.hyps.append(('zero', g))
                return 1
        return 0

    def fone(s, a):
        """is this power of a field element one?"""
        if any(g in s.zerogens and s.decide(v >= 1) for g, v in a.c.items()):
            return 0
        return s.gzero(a)

    def fzeroval(s):
        return GVal({min(s.zerogens): 1})

    def gzero(s, a):
        """is the element neutral?  Known for combinations that vanish; for a multiple +-1 of one generator it is decided by forking"""
        c = {g: v for g, v in a.c.items() if g not in s.deadgens and not s.entails(v == 0)}
        if not c:
            return 1
        if len(c) == 1:
            (g, v), = c.items()
            if g in s.livegens and (s.entails(v == 1) or s.entails(v == -1)):
                return 0
            if s.entails(v == 1) or s.entails(v == -1):
                if s.facts.choose(2) == 0:
                    s.livegens.add(g)
                    s.facts.hyps.append(('neutral', 'not ' + g))
                    return 0
                s.deadgens.add(g)
                s.facts.hyps.append(('neutral', g))
                return 1
        raise Unsupported('zero test of %r' % (a,))

    def refute(s, a, b):
        """values of the scalars for which the two differ (small ones preferred)"""
        for g in set(a.c) | set(b.c):
            x, y = a.c.get(g, 0), b.c.get(g, 0)
            if not (isz(x) or isz(y)):
                continue
            for lim in (64, 1 << 16, None):
                s.zs.push()
                s.zs.add(x != y)
                if lim:
                    for v in s.scalar.values():
                        if isz(v):
                            s.zs.add(v < lim)
                m = s.model()
                s.zs.pop()
                if m:
                    return m
        return None

    def split(s, off, elem):
        """index and offset within the element"""
        if not isz(off):
            return off // elem, off % elem
        for r in range(0, elem, 8):
            t = z3.simplify((off - r) / elem)
            if s.entails(t * elem + r == off):
                return t, r
        raise Unsupported('unaligned read')

    # -- arrays of symbolic length ---------------------------------------------------------------
    def symload(s, p, n):
        o = p.o
        if not o.alive:
            raise Fail('lifetime', 'read of a released object')
        if isinstance(o, SymArr):
            q, r = s.split(p.off, o.elem)
            ok = z3.And(q >= 0, q < o.len) if isz(q) or isz(o.len) else 0 <= q < o.len
            if not s.entails(ok):
                raise Fail('bounds', 'index %s of %s may be outside 0..%s' % (q, o.name, o.len))
            return s.outload(o, q, r, n) if o.__class__ is OutArr else o.fn(q, r, n)
        if n != o.elem:
            raise Unsupported('partial read of a symbolic array')
        q, r = (p.off // n, p.off % n) if not isz(p.off) else (None, None)
        if q is None:
            t = z3.simplify(p.off / n)
            if not s.entails(t * n == p.off):
                raise Unsupported('unaligned read')
            q = t
        ok = z3.And(q >= 0, q < o.len) if isz(q) or isz(o.len) else 0 <= q < o.len
        if not s.entails(ok):
            raise Fail('bounds', 'index %s of %s may be outside 0..%s' % (q, o.name, o.len))
        return s.zi(o.fn(q))


    def outload(s, o, q, r, n):
        for w in reversed(o.pend):
            if w[1] < r + n and r < w[1] + w[2]:
                if s.entails(w[0] == q):
                    if (w[1], w[2]) != (r, n):
                        raise Unsupported('partial read of a written element')
                    return w[3]
                if not s.entails(w[0] != q):
                    raise Unsupported('read of an element that may have been written')
        if s.entails(q >= o.front):
            return o.old(q, r, n)
        if s.entails(q < o.front):
            return o.new(q, r, n)
        raise Unsupported('read of an element that may have been written')

    def symstore(s, p, n, v):
        o = p.o
        if not o.alive:
            raise Fail('lifetime', 'write to a released object')
        q, r = s.split(p.off, o.elem)
        ok = z3.And(q >= 0, q < o.len) if isz(q) or isz(o.len) else 0 <= q < o.len
        if not s.entails(ok):
            raise Fail('bounds', 'write to index %s of %s, which may be outside 0..%s' % (q, o.name, o.len))
        for k, w in enumerate(o.pend):
            if w[1] < r + n and r < w[1] + w[2]:
                if s.entails(w[0] == q):
                    if (w[1], w[2]) != (r, n):
                        raise Unsupported('partial write to a written element')
                    o.pend[k] = (w[0], r, n, v)
                    return
                if not s.entails(w[0] != q):
                    raise Unsupported('writes to elements that may be the same')
        o.pend.append((q, r, n, v))


# ---------------------------------------------------------------------------------------- loops
def headers(F):
    """loop headers of a function: header -> set of latches"""
    h = getattr(F, 'hdrs', None)
    if h is not None:
        return h
    succ = []
    for phis, body in F.blocks:
        t = body[-1] if body else None
        if t is None:
            succ.append([])
        elif t[0] == 'br':
            succ.append([t[1]])
        elif t[0] == 'condbr':
            succ.append([t[2], t[3]])
        elif t[0] == 'switch':
            succ.append([t[2]] + [b for _, b in t[3]])
        elif t[0] == 'call' and t[6] is not None:
            succ.append([t[6]])
        else:
            succ.append([])
    h = {}
    color = {}
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if color.get(x) == 1:
                h.setdefault(x, set()).add(b)
            elif x not in color:
                color[x] = 1
                stack.append((x, iter(succ[x])))
                break
        else:
            color[b] = 2
            stack.pop()
    F.hdrs = h
    return h


class LoopCtl:
    """mode 'trace': records the state at every loop header; mode 'prove': cuts the loops that have invariants"""

    def __init__(s, shared):
        s.shared = shared         # {'data': {key: [...]}, 'inv': {key: Inv}, 'dropped': set}
        s.mode = None
        s.active = {}

    def begin(s, mode, m, run=None):
        s.mode = mode
        s.run = run
        s.live = {}
        s.serial = 0
        s.depth = 0
        m.loopctl = s
        s.m = m

    def start(s, m):
        s.begin('prove', m)

    # objects
    def born(s, o, site):
        s.serial += 1
        s.live[id(o)] = (o, site, s.serial)

    def dead(s, o):
        s.live.pop(id(o), None)

    def names(s):
        cnt = {}
        r = []
        for o, site, n in sorted(s.live.values(), key=lambda t: t[2]):
            if not o.alive:
                continue
            k = cnt[site] = cnt.get(site, 0) + 1
            r.append(((site, k), o))
        for g, o in s.m.globals.items():
            if not o.ro:
                r.append(((('global', g), 1), o))
        return r

    def snap(s, F, cur, R):
        st = {}
        for i, (dst, inc, ty) in enumerate(F.blocks[cur][0]):
            st[('phi', i)] = (s.m.mod.width(ty) or 64, R[dst])
        for nm, o in s.names():
            if o.__class__ is SymObj:
                continue
            for off, (sz, v) in o.cells.items():
                st[('mem', nm, off, sz)] = (8 * sz, v)
        return st

    def at_header(s, F, cur, prev, R, frame):
        key = (F.name, cur)
        d = s.m.domain
        back = prev in F.hdrs[cur]
        if s.mode == 'trace':
            if not back:
                frame[key] = {'visits': []}
                s.shared['data'].setdefault(key, []).append((d, frame[key]['visits'], tuple(s.m.stack)))
            if key in frame:
                frame[key]['visits'].append(s.snap(F, cur, R))
            return
        inv = s.shared['inv'].get(key)
        if inv is None:
            return
        if not back:
            st = s.snap(F, cur, R)
            z = 0
            for loc, cand in inv.locs.items():
                if cand is None:
                    continue
                if loc not in st:
                    raise InvFail(key, loc, 'is not present on entry')
                if not s.holds(d, inv, cand, st[loc], z):
                    raise InvFail(key, loc, 'does not hold on entry: %r, %r' % (cand, st[loc]))
            k = z3.Int('k%d' % d.fresh())
            d.assume(k >= 0)
            bound = inv.ev(d, inv.bound, 0)
            if not d.entails(0 <= bound if isz(bound) else bound >= 0):
                raise InvFail(key, 'bound', 'the iteration bound may be negative')
            d.assume(k <= bound)
            s.havoc(d, inv, st, R, F, cur, k)
            rec = {'k': k, 'st': s.snap(F, cur, R), 'bound': bound}
            frame[key] = rec
            return
        rec = frame[key]
        st = s.snap(F, cur, R)
        k = rec['k'] + 1
        for loc, cand in inv.locs.items():
            if cand is not None and loc in st and not s.holds(d, inv, cand, st[loc], k):
                raise InvFail(key, loc, 'is not preserved: %r' % (cand,))
            if cand is not None and loc not in st:
                raise InvFail(key, loc, 'vanishes')
        for loc, (w, v) in rec['st'].items():
            if loc in inv.locs:
                continue
            if loc not in st:
                raise Unsupported('loop changes an untracked location %r' % (loc,))
            if not s.same(d, st[loc][1], v):
                raise Unsupported('loop changes an untracked location %r: %r -> %r' % (loc, v, st[loc][1]))
        if not d.entails(k <= rec['bound']):
            raise InvFail(key, 'bound', 'the iteration bound is not preserved')
        s.shared['closed'] = s.shared.get('closed', 0) + 1
        raise PathDone()

    def same(s, d, a, b):
        if a is b:
            return True
        if a.__class__ is ZI and b.__class__ is ZI:
            return a.t.eq(b.t) or d.entails(a.t == b.t)
        if a.__class__ is GPart and b.__class__ is GPart:
            return a.i == b.i and (a.g is b.g or d.geq(a.g, b.g))
        if a.__class__ is SInt and b.__class__ is SInt:
            return a.t is b.t or d.entails(a.t == b.t)
        if a.__class__ is not b.__class__:
            return False
        try:
            return bool(a == b)
        except Exception:
            return False

    def holds(s, d, inv, cand, wv, k):
        w, v = wv
        kind = cand[0]
        if kind == 'G':
            if v.__class__ is not GPart or v.i != cand[2]:
                return False
            want = GVal({g: inv.ev(d, e, k) for g, e in cand[1].items()})
            return d.geq(v.g, want)
        want = inv.ev(d, cand[1], k)
        if want is None:
            return False
        if kind == 'S':
            if v.__class__ is not SInt:
                return False
            got = v.t
        else:
            if v.__class__ not in (int, ZI):
                return False
            got = d.term(v, w)
        return d.entails(got == want)

    def havoc(s, d, inv, st, R, F, cur, k):
        objs = dict(s.names())
        gs = {}
        for loc, cand in inv.locs.items():
            if cand is None:
                v = HAVOC
            elif cand[0] == 'G':
                gk = (loc[1] if loc[0] == 'mem' else loc, loc[2] - 16 * cand[2] if loc[0] == 'mem' else 0)
                if gk not in gs:
                    gs[gk] = GVal({g: inv.ev(d, e, k) for g, e in cand[1].items()}, cand[4])
                v = GPart(gs[gk], cand[2], cand[3])
            elif cand[0] == 'S':
                t = inv.ev(d, cand[1], k)
                v = SInt(t)
            else:
                w = st[loc][0]
                t = inv.ev(d, cand[1], k)
                v = d.zi(t, w) if isz(t) else t & ((1 << w) - 1)
            if loc[0] == 'phi':
                R[F.blocks[cur][0][loc[1]][0]] = v
            else:
                o = objs[loc[1]]
                if loc[2] in o.cells or cand is not None:
                    o.cells[loc[2]] = (loc[3], v)


class Inv:
    def __init__(s):
        s.locs = {}
        s.alts = {}
        s.bound = None

    def ev(s, d, e, k):
        """the integer expression e at iteration k"""
        op = e[0]
        if op == 'c':
            return e[1]
        if op == 'lin':       # a*k + sum b_i * top_i + c
            t = e[1] * k + e[3]
            for nm, b in e[2]:
                t = t + b * s.top(d, nm)
            return t
        if op == 'ite0':
            if not isz(k):
                return e[1] if k == 0 else e[2]
            return z3.If(k == 0, z3.IntVal(e[1]), z3.IntVal(e[2]))
        if op == 'seq':       # sign * seq(a*k + [top] + c)
            _, nm, a, c, sg, useop = e
            j = a * k + c
            if useop:
                j = j + s.top(d, nm)
            q = s.seqof(d, nm)
            t = q.at(j)
            return None if t is None else sg * t if sg != 1 else t
        if op == 'if0':
            t = s.ev(d, e[2], k) if isz(k) or k else None
            if not isz(k):
                return e[1] if k == 0 else t
            return z3.If(k == 0, z3.IntVal(e[1]), t)
        if op == 'nz':
            t = s.ev(d, e[1], k)
            if t is None:
                return None
            return int(t != 0) if not isz(t) else z3.If(t != 0, z3.IntVal(1), z3.IntVal(0))
        raise AssertionError(op)

    def seqof(s, d, nm):
        q = d.seqs.get(nm)
        if q is None:
            raise Unsupported('invariant mentions %s, which is not known here' % nm)
        return q

    def top(s, d, nm):
        q = s.seqof(d, nm)
        if q.top is None:
            q.settop()
        return q.top


def fit_linear(rows, tops):
    """rows: (k, {top}, v); integer affine fit"""
    import sympy
    cols = ['k'] + tops + ['1']
    A, b = [], []
    for k, t, v in rows:
        A.append([k] + [t[x] for x in tops] + [1])
        b.append(v)
    # choose few variables: greedy subsets
    from itertools import combinations
    n = len(cols)
    for size in range(0, min(3, n) + 1):
        for sub in combinations(range(n), size):
            sol = solve_small([[r[i] for i in sub] for r in A], b)
            if sol is None:
                continue
            if any(x.denominator != 1 for x in sol):
                continue
            co = dict(zip(sub, [int(x) for x in sol]))
            return ('lin', co.get(0, 0), tuple((tops[i - 1], v) for i, v in co.items() if 0 < i < n - 1 and v), co.get(n - 1, 0))
    return None


def solve_small(A, b):
    """exact solution of an overdetermined consistent system, or None"""
    F = fractions.Fraction
    n = len(A[0]) if A else 0
    if n == 0:
        return [] if all(x == 0 for x in b) else None
    seen = set()
    rows = []
    for r, x in zip(A, b):
        t = tuple(r) + (x,)
        if t not in seen:
            seen.add(t)
            rows.append([F(v) for v in t])
    piv = []
    i = 0
    for c in range(n):
        p = next((j for j in range(i, len(rows)) if rows[j][c] != 0), None)
        if p is None:
            return None
        rows[i], rows[p] = rows[p], rows[i]
        rows[i] = [x / rows[i][c] for x in rows[i]]
        for j in range(len(rows)):
            if j != i and rows[j][c] != 0:
                f = rows[j][c]
                rows[j] = [x - f * y for x, y in zip(rows[j], rows[i])]
        piv.append(c)
        i += 1
    for j in range(i, len(rows)):
        if rows[j][n] != 0:
            return None
    return [rows[j][n] for j in range(n)]


def candidates(rows, inv):
    """rows: (domain, k, value) -> list of expressions that agree with all of them"""
    out = candidates1(rows, inv)
    v0 = {v for d, k, v in rows if k == 0}
    if len(v0) == 1:
        c0 = v0.pop()
        rest = [r for r in rows if r[1] > 0]
        if rest and len({k for d, k, v in rest}) > 2:
            for e in candidates1(rest, inv):
                if e[0] not in ('c', 'ite0') and e not in out:
                    out.append(('if0', c0, e))
    return out


def candidates1(rows, inv):
    out = []
    vals = {v for _, _, v in rows}
    if len(vals) == 1:
        return [('c', vals.pop())]
    names = None
    for d, k, v in rows:
        ns = {q for q in d.seqs if d.seqs[q].top is not None}
        names = ns if names is None else names & ns
    names = sorted(names or ())
    v0 = {v for d, k, v in rows if k == 0}
    v1 = {v for d, k, v in rows if k > 0}
    if len(v0) == 1 and len(v1) == 1:
        out.append(('ite0', v0.pop(), v1.pop()))
    l = fit_linear([(k, {n: d.seqs[n].top for n in names}, v) for d, k, v in rows], names)
    if l:
        out.append(l)

    def ok(e):
        for d, k, v in rows:
            try:
                t = inv.ev(d, e, k)
            except Unsupported:
                return False
            if t is None or t != v:
                return False
        return True
    for nm in names:
        for a, useop in ((-1, True), (1, False)):
            for c in (1, 0, 2, -1):
                for sg in (1, -1):
                    e = ('seq', nm, a, c, sg, useop)
                    if ok(e):
                        out.append(e)
                e = ('nz', ('seq', nm, a, c, 1, useop))
                if vals <= {0, 1} and ok(e):
                    out.append(e)
    return out


def infer(shared):
    """invariants for every loop whose number of iterations varies"""
    invs = {}
    for key, runs in shared['data'].items():
        counts = {len(v) for _, v, _ in runs}
        if len(counts) <= 1:
            continue
        inv = Inv()
        bad = False
        # bound on k (number of header visits - 1)
        rows = [(d, len(v) - 1, len(v) - 1) for d, v, _ in runs]
        names = None
        for d, v, _ in runs:
            ns = {q for q in d.seqs if d.seqs[q].top is not None}
            names = ns if names is None else names & ns
        names = sorted(names or ())
        b = fit_linear([(0, {n: d.seqs[n].top for n in names}, len(v) - 1) for d, v, _ in runs], names)
        if b is None:
            bad = True
        inv.bound = b
        changed = {}
        for d, visits, _ in runs:
            for x, y in zip(visits, visits[1:]):
                for loc in set(x) | set(y):
                    if loc in x and loc in y:
                        if not (x[loc][1] is y[loc][1] or sameval(x[loc][1], y[loc][1])):
                            changed[loc] = 1
                    else:
                        changed[loc] = 1
        if bad:
            shared.setdefault('noinv', {})[key] = 'no bound on the number of iterations'
            continue
        for loc in changed:
            rows = []
            ok = True
            gv = None
            sv = False
            for d, visits, _ in runs:
                for k, st in enumerate(visits):
                    if loc not in st:
                        ok = False
                        break
                    w, v = st[loc]
                    if v.__class__ is GPart:
                        gv = v
                        rows.append((d, k, v))
                    elif v.__class__ is int:
                        rows.append((d, k, sgn(v, w) if w > 1 else v))
                    elif v.__class__ is SInt:
                        sv = True
                        rows.append((d, k, v.t))
                    else:
                        ok = False
                        break
                if not ok:
                    break
            if not ok:
                inv.locs[loc] = None
                continue
            if gv is not None:
                if any(v.__class__ is not GPart or v.i != gv.i for _, _, v in rows):
                    inv.locs[loc] = None
                    continue
                gens = set()
                for _, _, v in rows:
                    gens |= set(v.g.c)
                ex = {}
                for g in gens:
                    cs = [e for e in candidates([(d, k, v.g.c.get(g, 0)) for d, k, v in rows], inv) if (key, loc, g, e) not in shared['dropped']]
                    if not cs:
                        ex = None
                        break
                    ex[g] = cs[0]
                inv.locs[loc] = None if ex is None else ('G', ex, gv.i, gv.n, gv.g.kind)
                continue
            cs = [e for e in candidates(rows, inv) if (key, loc, None, e) not in shared['dropped']]
            inv.locs[loc] = None if not cs else ('S' if sv else 'I', cs[0])
        invs[key] = inv
    return invs


def sameval(a, b):
    if a.__class__ is GPart and b.__class__ is GPart:
        return a.i == b.i and a.g.c == b.g.c
    if a.__class__ is SInt and b.__class__ is SInt:
        return a.t == b.t
    if a.__class__ is Ptr and b.__class__ is Ptr:
        return a.o is b.o and a.off == b.off
    try:
        return a.__class__ is b.__class__ and bool(a == b)
    except Exception:
        return False


# ---------------------------------------------------------------------------------------- contracts of callees
def h_wnaf(nm='w'):
    """find_wnaf(w, n): odd digits |d| < 2^w or 0, the last one positive, sum d_i 2^i = n"""
    def h(m, args, name):
        d = m.domain
        p, w, x = args
        if w.__class__ is not int:
            raise Unsupported('window size')
        nl = 1
        t = d.get(x, 16)
        if t.__class__ is int and False:
            return NotImplemented
        t = d.int(t)
        q = None
        for v in d.seqs.values():
            if isinstance(v, NafSeq) and v.w == w and (v.n is t or isz(t) and isz(v.n) and v.n.eq(t) or not isz(t) and not isz(v.n) and t == v.n):
                q = v
        if q is None:
            base = next((k for k, v in d.scalar.items() if v is t or isz(v) and isz(t) and v.eq(t) or not isz(t) and not isz(v) and v == t), 'x%d' % len(d.seqs))
            key = 'naf%d_%s' % (w, base)
            q = d.seqs[key] = NafSeq(d, key, t, w)
        o = SymObj('digits of ' + q.name, 8, q.len, q.digit)
        L = q.len
        end = z3.simplify(8 * L) if isz(L) else 8 * L
        m.store(Ptr(p.o, p.off), 8, Ptr(o, 0))
        m.store(Ptr(p.o, p.off + 8), 8, Ptr(o, end))
        m.store(Ptr(p.o, p.off + 16), 8, Ptr(o, end))
        return None
    return h
