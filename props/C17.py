"""Multi-exponentiation equals the sum of the individual products."""
from .mexp_common import *
from vc.domain import FieldDomain
from vc.loops import SymArr

ASSUMPTIONS = ['callees by their contracts: addition, doubling, zero, assignment (C08-C10), scalar multiplication (C12), opt_window_wnaf_exp (C18)',
               'assumed contracts of the multiprecision library: msb and bit_test, comparison and subtraction of integers',
               'chunks_count is at least 1 and every base has its scalar (the documented use)',
               'USE_MIXED_ADDITION is not defined (with it the sources do not compile)']


# ---- loop contracts
class Windows:
    """BDLO12, head of the window loop: result = sum (e_i >> (k+1)c) B_i (the neutral element while result_nonzero is false)"""

    def __init__(s, n):
        s.n = n

    def rd(s, m, a):
        d = m.domain
        k = d.term(m.load(a[0], 8))
        c = m.load(a[1], 8)
        if c.__class__ is not int:
            raise Unsupported('symbolic window')
        return k, c

    def want(s, d, k, c):
        return {'B%d' % i: d.seq(d.scalar['s%d' % i]).at(z3.simplify((k + 1) * c) if isz(k) else (k + 1) * c) for i in range(s.n)}

    def check(s, m, a, rec):
        d = m.domain
        k, c = s.rd(m, a)
        w = s.want(d, k, c)
        g = d.gread(m, a[2], 3)      # the neutral element while result_nonzero is false
        if not d.geq(g, GVal(w)):
            raise Fail('invariant', 'the accumulated windows are %r instead of %r' % (g, GVal(w)))
        if rec is not None:
            if not d.entails(k < rec['k']) or not d.entails(k >= 0):
                raise Fail('invariant', 'the window number does not decrease')
        elif not d.entails(k >= 0):
            raise Fail('invariant', 'negative window number')

    def havoc(s, m, a):
        d = m.domain
        k0, c = s.rd(m, a)
        k = z3.Int('k%d' % d.fresh())
        d.assume(z3.And(k >= 0, k <= k0))
        w = s.want(d, k, c)
        m.store(a[0], 8, d.zi(k))
        if d.facts.choose(2):
            d.facts.hyps.append(('result_nonzero', '1'))
            m.store(a[3], 1, 1)
            d.gwrite(m, a[2], 3, GVal(w))
        else:
            d.facts.hyps.append(('result_nonzero', '0'))
            for t in w.values():
                d.assume(t == 0)
            m.store(a[3], 1, 0)
            d.gwrite(m, a[2], 3, GVal({}))
        if not d.feasible():
            raise Infeasible()
        return {'k': k}

    def owned(s, m, a):
        return owner([(a[0], 8), (a[2], 48), (a[3], 1)])


def owner(rs):
    rs = [(p.o, p.off, p.off + n) for p, n in rs]

    def f(loc, ctl):
        o = dict(ctl.names()).get(loc[0])
        return any(o is q and lo <= loc[1] < hi for q, lo, hi in rs)
    return f


class Heap:
    """Bos-Coster: opt_q is a max-heap over a permutation of the indices of g and opt_result + sum r_j g[idx_j] is the result"""
    E = 8 + 8 * (1 + NL)

    def __init__(s, n):
        s.n = n

    def rd(s, m, a):
        d = m.domain
        q, g = m.load(a[0], 8), m.load(a[1], 8)
        nq = (m.load(Ptr(a[0].o, a[0].off + 8), 8).off - q.off) // s.E
        ng = (m.load(Ptr(a[1].o, a[1].off + 8), 8).off - g.off) // 48
        idx = [m.load(Ptr(q.o, q.off + s.E * j), 8) for j in range(nq)]
        r = [d.int(d.get(Ptr(q.o, q.off + s.E * j + 8), NL)) for j in range(nq)]
        gs = [d.gread(m, Ptr(g.o, g.off + 48 * j), 3) for j in range(ng)]
        return q, g, idx, r, gs

    def tot(s, d, res, idx, r, gs):
        t = res
        for j, x in zip(idx, r):
            t = d.gadd(t, d.gscale(gs[j], x))
        return t

    def check(s, m, a, rec):
        d = m.domain
        q, g, idx, r, gs = s.rd(m, a)
        if len(r) != len(gs) or sorted(idx) != list(range(len(gs))) or len(r) < 3:
            raise Fail('invariant', 'the heap does not list every base once')
        for j in range(len(r)):
            if not d.entails(r[j] >= 0) or j and not d.entails(r[(j - 1) // 2] >= r[j]):
                raise Fail('invariant', 'the heap order is lost at %d' % j)
        t = s.tot(d, d.gread(m, a[2], 3), idx, r, gs)
        want = rec['T'] if rec else GVal({'B%d' % i: d.scalar['s%d' % i] for i in range(s.n)})
        if not d.geq(t, want):
            raise Fail('invariant', 'the pending sum is %r instead of %r' % (t, want))
        if rec is not None and not d.entails(sum(r) < rec['S']):
            raise Fail('termination', 'the scalars do not get smaller')

    def havoc(s, m, a):
        d = m.domain
        q, g, idx, r, gs = s.rd(m, a)
        n = len(r)
        left = list(range(n))
        idx = [left.pop(d.facts.choose(len(left))) for _ in range(n)]
        d.facts.hyps.append(('heap', str(idx)))
        r = [z3.Int('r%d_%d' % (j, d.fresh())) for j in range(n)]
        for j in range(n):
            d.assume(z3.And(r[j] >= 0, r[j] < R))
            if j:
                d.assume(r[(j - 1) // 2] >= r[j])
        for j in range(n):
            m.store(Ptr(q.o, q.off + s.E * j), 8, idx[j])
            d.put(Ptr(q.o, q.off + s.E * j + 8), NL, SInt(r[j]))
            d.gwrite(m, Ptr(g.o, g.off + 48 * j), 3, GVal({'G%d' % j: 1}))
        d.gwrite(m, a[2], 3, GVal({'R': 1}))
        T = s.tot(d, GVal({'R': 1}), idx, r, [GVal({'G%d' % j: 1}) for j in range(n)])
        return {'T': T, 'S': sum(r)}

    def owned(s, m, a):
        q, g, idx, r, gs = s.rd(m, a)
        return owner([(q, s.E * len(r)), (g, 48 * len(gs)), (a[2], 48)])


# ---- operands in arrays of any length
class SumDomain(GroupDomain):
    """bases B[i] and scalars e(i), i < len; S[j] is the sum of e(i) B[i] over i < j"""

    def arrays(s):
        s.e = z3.Function('e', z3.IntSort(), z3.IntSort())
        s.gidx = {}
        s.vecs = None
        s.gcache = {}
        s.len = z3.Int('len')
        s.assume(z3.And(s.len >= 0, s.len < 1 << 40))
        s.ba = SymArr('bases', 48, s.len, s.base)
        s.sa = SymArr('scalars', 8 * (1 + NL), s.len, s.scal)

    def gen(s, kind, t):
        t = z3.simplify(t) if isz(t) else z3.IntVal(t)
        k = '%s[%s]' % (kind, t)
        s.gidx[k] = (kind, t)
        return k

    def base(s, i, r, n):
        k = s.gen('B', i)
        if k not in s.gcache:
            s.gcache[k] = GVal({k: 1})
        return GPart(s.gcache[k], r // 16, 3) if r % 16 == 0 else 0

    def es(s, i):
        i = i if isz(i) else z3.IntVal(i)
        t = s.e(i)
        s.assume(z3.And(t >= 0, t < R))
        return t

    def scal(s, i, r, n):
        return SInt(s.es(i)) if r == 0 else 0

    def S(s, t):
        return s.gen('S', t)

    def geq(s, a, b):
        D = dict(s.gadd(a, b, -1).c)
        zero = lambda v: s.entails(v == 0) if isz(v) else v == 0

        def put(k, v):
            D[k] = D.get(k, 0) + v

        def step():
            ks = [k for k in D if k in s.gidx]
            for k in ks:
                kind, t = s.gidx[k]
                if kind == 'S' and s.entails(t == 0):
                    del D[k]
                    return True
                for q in ks:
                    if q != k and s.gidx[q][0] == kind:
                        u = s.gidx[q][1]
                        if s.entails(t == u):
                            put(q, D.pop(k))
                            return True
                        if kind == 'S' and s.entails(t == u + 1):
                            v = D.pop(k)
                            put(q, v)
                            put(s.gen('B', u), v * s.es(u))
                            return True
            return False
        for k in list(D):
            if zero(D[k]):
                del D[k]
        n = 0
        while step():
            for k in list(D):
                if zero(D[k]):
                    del D[k]
            n += 1
            if n > 200:
                raise Unsupported('normalisation of sums')
        return all(zero(v) for v in D.values())

    def refute(s, a, b):
        return None


class Naive:
    """naive_plain, head of the loop: result = the sum of the products before vec_it; scalar_it is at the same place"""

    def at(s, m, a):
        d = m.domain
        v, x = m.load(a[0], 8), m.load(a[1], 8)
        if v.__class__ is not Ptr or x.__class__ is not Ptr or v.o is not d.ba or x.o is not d.sa:
            raise Unsupported('the iterators do not walk over the operands')
        i, r = d.split(v.off, 48)
        j, q = d.split(x.off, d.sa.elem)
        if r or q or not d.entails(i == j):
            raise Fail('invariant', 'base %s meets scalar %s' % (i, j))
        return i

    def check(s, m, a, rec):
        d = m.domain
        i = s.at(m, a)
        if rec is not None and not d.entails(i == rec['i'] + 1):
            raise Unsupported('the operands are not taken one after the other')
        g = d.gread(m, a[2], 3)
        if not d.geq(g, GVal({d.S(i): 1})):
            raise Fail('invariant', 'the sum before %s is %r' % (i, g))

    def havoc(s, m, a):
        d = m.domain
        i0 = s.at(m, a)
        if not d.entails(i0 == 0):
            raise Unsupported('the operands are not taken from the first on')
        i = z3.Int('i%d' % d.fresh())
        d.assume(z3.And(i >= 0, i < d.len))
        m.store(a[0], 8, Ptr(d.ba, z3.simplify(48 * i)))
        m.store(a[1], 8, Ptr(d.sa, z3.simplify(d.sa.elem * i)))
        d.gwrite(m, a[2], 3, GVal({d.S(i): 1}))
        return {'i': i}

    def owned(s, m, a):
        return owner([(a[0], 8), (a[1], 8), (a[2], 48)])


class Mixed(Naive):
    """multiexp_with_mixed_addition, head of the loop: acc and the terms kept in p and g make up the sum of the products before
    vec_it.  The n terms kept before this iteration are the vectors' content given by T, their sum; what is kept since is in kept."""

    def kept(s, m, a):
        d = m.domain
        if d.vecs is None:
            if any(m.load(x, 8) != m.load(Ptr(x.o, x.off + 8), 8) for x in a[3:5]):
                raise Unsupported('terms are kept before the loop')
            return GVal({})
        return kept_sum(d)

    def check(s, m, a, rec):
        d = m.domain
        i = s.at(m, a)
        if rec is not None and not d.entails(i == rec['i'] + 1):
            raise Unsupported('the operands are not taken one after the other')
        g = d.gadd(d.gread(m, a[2], 3), s.kept(m, a))
        if not d.geq(g, GVal({d.S(i): 1})):
            raise Fail('invariant', 'the sum and the kept terms before %s are %r' % (i, g))

    def havoc(s, m, a):
        rec = Naive.havoc(s, m, a)
        d = m.domain
        n = z3.Int('n%d' % d.fresh())
        d.assume(z3.And(n >= 0, n < 1 << 40))
        d.vecs = {'p': SymArr('kept scalars', d.sa.elem, n, None), 'g': SymArr('kept bases', 48, n, None)}
        d.kept = {'p': [], 'g': []}
        d.kn = n
        for x, k in ((a[3], 'p'), (a[4], 'g')):
            o = d.vecs[k]
            m.store(x, 8, Ptr(o, 0))
            m.store(Ptr(x.o, x.off + 8), 8, Ptr(o, z3.simplify(o.elem * n)))
            m.store(Ptr(x.o, x.off + 16), 8, Ptr(o, z3.simplify(o.elem * n)))
        d.gwrite(m, a[2], 3, GVal({d.S(rec['i']): 1, 'T': -1}))
        return rec

    def owned(s, m, a):
        return owner([(a[0], 8), (a[1], 8), (a[2], 48), (a[3], 24), (a[4], 24)])


def zt(x):
    return x if isz(x) else z3.IntVal(x)


def kept_sum(d):
    t = GVal({'T': 1})
    if len(d.kept['p']) != len(d.kept['g']):
        raise Fail('invariant', '%d scalars and %d bases are kept' % (len(d.kept['p']), len(d.kept['g'])))
    for e, b in zip(d.kept['p'], d.kept['g']):
        t = d.gadd(t, d.gscale(b, e))
    return t


def h_keep(m, args, name):
    """vector::emplace_back, push_back on the vectors of the loop contract"""
    d = m.domain
    if getattr(d, 'vecs', None) is None:
        return NotImplemented
    x = args[0]
    p = m.load(x, 8)
    k = [k for k, o in d.vecs.items() if p.__class__ is Ptr and p.o is o]
    if not k:
        return NotImplemented
    k = k[0]
    d.kept[k].append(d.gread(m, args[1], 3) if k == 'g' else scalar_at(m, args[1]))
    e = m.load(Ptr(x.o, x.off + 8), 8)
    m.store(Ptr(x.o, x.off + 8), 8, Ptr(e.o, z3.simplify(e.off + e.o.elem)))
    return e


def h_multiexp(m, args, name):
    """multiexp by its contract: the sum over the terms kept"""
    d = m.domain
    out, b, e, sb, se = args[:5]
    if d.vecs is None:
        if b != e or sb != se:
            raise Unsupported('operands of multiexp')
        d.gwrite(m, out, 3, GVal({}))
        return
    if any(p.__class__ is not Ptr for p in (b, e, sb, se)) or b.o is not d.vecs['g'] or e.o is not b.o or sb.o is not d.vecs['p'] or se.o is not sb.o:
        raise Unsupported('operands of multiexp')
    t = kept_sum(d)
    n = d.kn + len(d.kept['g'])
    if not d.entails(z3.And(zt(b.off) == 0, zt(sb.off) == 0, zt(e.off) == 48 * n, zt(se.off) == d.sa.elem * n)):
        raise Fail('contract', 'multiexp does not get all the terms kept')
    d.gwrite(m, out, 3, t)


KEEP = [(r'std::vector<.*>::(emplace_back|push_back)', h_keep), (r'nil::crypto3::algebra::multiexp<', h_multiexp)]


class ChunkDomain(SumDomain):
    """the number of chunks c is symbolic too: q = len / c; of products with q only k q <= (k + 1) q <= c q for the chunk number k < c is used
    (monotony of the product)"""

    def bin(s, op, x, y, w):
        if op in ('udiv', 'mul'):
            a, b = s.term(x, w), s.term(y, w)
            if op == 'udiv' and isz(b):
                if s.q is not None or not s.entails(z3.And(b == s.ch, a == s.len)):
                    raise Unsupported('symbolic division')
                s.q, s.cq = z3.Int('q'), z3.Int('cq')
                s.assume(z3.And(s.q >= 0, s.cq <= s.len, s.len < s.cq + s.ch, z3.Implies(s.len >= s.ch, s.q >= 1), s.cq >= s.q, s.cq >= 0))
                return s.zi(s.q, w)
            if op == 'mul' and isz(a) and isz(b) and s.q is not None:
                for t, u in ((a, b), (b, a)):
                    if s.entails(u == s.q):
                        for k, v in s.prod:
                            if s.entails(t == k):
                                return s.zi(v, w)
        return SumDomain.bin(s, op, x, y, w)


class Chunks:
    """multiexp, head of the chunk loop: result is the sum of the products before the chunk i, which begins at i * (len / chunks)"""

    def check(s, m, a, rec):
        d = m.domain
        i = d.term(m.load(a[0], 8), 64)
        if rec is None:
            if not d.entails(zt(i) == 0):
                raise Unsupported('the chunks are not taken from the first on')
            at = 0
        else:
            if not d.entails(i == rec['i'] + 1):
                raise Unsupported('the chunks are not taken one after the other')
            at = d.prod[1][1]
        g = d.gread(m, a[1], 3)
        if not d.geq(g, GVal({d.S(at): 1})):
            raise Fail('invariant', 'the sum of the chunks before %s is %r' % (i, g))

    def havoc(s, m, a):
        d = m.domain
        i, iq = z3.Int('i%d' % d.fresh()), z3.Int('iq%d' % d.fresh())
        if d.q is None:
            raise Unsupported('the size of the chunks')
        d.assume(z3.And(i >= 0, i < d.ch, iq >= 0, z3.Implies(i == 0, iq == 0), z3.Implies(i == 1, iq == d.q), iq + d.q <= d.cq, z3.Implies(i == d.ch - 1, iq + d.q == d.cq)))
        d.prod = [(i, iq), (i + 1, iq + d.q)]
        m.store(a[0], 8, d.zi(i))
        d.gwrite(m, a[1], 3, GVal({d.S(iq): 1}))
        return {'i': i}

    def owned(s, m, a):
        return owner([(a[0], 8), (a[1], 48)])


def arrays(fn, chunks=None):
    def f(c):
        if c.concrete:
            return mexp({'h_naive_p': 'h_naive', 'h_mixed_p': 'h_mixed_naive', 'h_mexp_p': 'h_mexp_naive'}[fn], None, None if chunks == 'any' else chunks, most=40)(c)
        d = c.domain
        c.machine.begin(c.facts, d)
        c.machine_begun = True
        d.arrays()
        n = chunks
        if n == 'any':
            d.ch, d.q, d.prod = z3.Int('chunks'), None, []
            d.assume(z3.And(d.ch >= 1, d.ch < 1 << 40))
            n = ZI(d.ch)
        o, _ = c.call(fn, [], [Ptr(d.ba, 0), Ptr(d.ba, z3.simplify(48 * d.len)), Ptr(d.sa, 0), Ptr(d.sa, z3.simplify(d.sa.elem * d.len))] + ([n] if chunks else []), nout=3)
        c.require_group('the result is the sum of the products', o, {d.S(d.len): 1})
    return f


def h_process(m, args, name):
    """a policy by its contract: the sum over the operands it is given"""
    d = m.domain
    out, b, e, sb, se = args
    if any(p.__class__ is not Ptr for p in args) or b.o is not d.ba or e.o is not d.ba or sb.o is not d.sa or se.o is not d.sa:
        raise Unsupported('operands of the policy')
    i, j, k, l = d.split(b.off, 48)[0], d.split(e.off, 48)[0], d.split(sb.off, d.sa.elem)[0], d.split(se.off, d.sa.elem)[0]
    if not d.entails(z3.And(i == k, j == l)):
        raise Fail('contract', 'bases %s..%s meet scalars %s..%s' % (i, j, k, l))
    if not d.entails(z3.And(i >= 0, i <= j, j <= d.len)):
        raise Fail('contract', 'the chunk %s..%s is not a range of operands' % (i, j))
    d.gwrite(m, out, 3, GVal({d.S(j): 1} if j is i else d.gadd(GVal({d.S(j): 1}), GVal({d.S(i): 1}), -1).c))


def spec(c, o, n):
    """the result is the sum; behind a loop contract, the sum the contract speaks of"""
    recs = [r for r in getattr(c.machine.loopctl, 'recs', {}).values() if 'T' in r['inv']] if c.machine.loopctl else []
    want = {'B%d' % i: c.domain.scalar['s%d' % i] for i in range(n)}
    if recs:
        want = recs[-1]['inv']['T'].c
    c.require_group('the result is the sum of the products', o, want)


def mexp(fn, n, chunks=None, most=None):
    def f(c):
        if c.concrete:
            k = c.choose((most or n) + 1, 'terms') if n is None or most else n
            C = curve(c)
            ps, rs = points(c, C, k)
            ss = scalars(c, k)
            o, _ = c.call(fn, rs + [Wide(s, NL) for s in ss], [k] + ([chunks] if chunks else [1 + c.choose(7, 'chunks')] if 'm' in fn.split('_')[1] else []), nout=3)
            C.check('the sum', o, 0, total(C, ps, ss))
            return
        gs = []
        for i in range(n):
            gs += c.group('B%d' % i, 3)
        ss = [sym_scalar(c, 's%d' % i) for i in range(n)]
        o, _ = c.call(fn, gs + [Wide(s, NL) for s in ss], [n] + ([chunks] if chunks else []), nout=3)
        spec(c, o, n)
    return f


def inner(n):
    def f(c):
        a = [c.var('a%d' % i) for i in range(n)]
        b = [c.var('b%d' % i) for i in range(n)]
        o, _ = c.call('h_inner', a + b, [n], nout=1)
        s = c.const(0)
        for x, y in zip(a, b):
            s = s + x * y
        c.require('the inner product', o[0] - s)
    return f


def obligations(tier):
    r = []
    th = tier == 'thorough'
    P = (13, 31, 101, 211)

    def ob(name, fn, hooks=SMUL, bounded=None, trials=12, domain=GroupDomain, **kw):
        r.append(Ob(name, TUM, fn, nl=1, domain=domain, hooks=HOOKS + list(hooks), primes=P, trials=trials, confirm='cuts' in kw, bounded=bounded, backend='z3', **kw))
    ob('naive_plain, any number of terms', arrays('h_naive_p'), domain=SumDomain, cuts=lambda: {'naive_sum': Naive()})
    ob('mixed addition, any number of terms', arrays('h_mixed_p', 1), KEEP, domain=SumDomain, cuts=lambda: {'mixed_addition': Mixed()})
    ob('multiexp, any number of terms and chunks', arrays('h_mexp_p', 'any'), [(r'nil::crypto3::algebra::policies::multiexp_method_naive_plain::process<', h_process)], domain=ChunkDomain, cuts=lambda: {'chunk_sum': Chunks()})
    for ch in range(1, 9 if not th else 17):
        ob('multiexp, any number of terms in %d chunks' % ch, arrays('h_mexp_p', ch), [(r'nil::crypto3::algebra::policies::multiexp_method_naive_plain::process<', h_process)], domain=SumDomain)
    for n in range(0, 9):
        ob('naive_plain, %d terms' % n, mexp('h_naive', n), bounded='number of terms')
    for ch in range(1, 9):
        for n in (0, 1, 2, 3, 5, 8) if ch < 4 else (ch - 1, ch, ch + 1, 2 * ch - 1):
            ob('multiexp, %d terms in %d chunks' % (n, ch), mexp('h_mexp_naive', n, ch), bounded='number of terms')
    for n in (0, 1, 2) + ((3,) if th else ()):
        ob('BDLO12, %d terms' % n, mexp('h_bdlo', n), bounded='number of terms', cuts=(lambda n=n: {'bdlo12_windows': Windows(n)}) if n else None, timeout=500, trials=30)
    for n in (0, 1, 2, 3) + ((4,) if th else ()):
        ob('Bos-Coster, %d terms' % n, mexp('h_bosc', n), SMUL + OPTW, bounded='number of terms', cuts=(lambda n=n: {'bos_coster_heap': Heap(n)}) if n > 1 else None, timeout=500, trials=30)
    for n in range(0, 5):
        ob('mixed addition, %d terms' % n, mexp('h_mixed_naive', n, 1), bounded='number of terms')
    for n in range(0, 9):
        r.append(Ob('inner_product, %d terms' % n, TUM, inner(n), nl=NL, prime=R, bounded='number of terms'))
    for nm in ('naive', 'bdlo', 'bosc'):
        for pre in ('h_', 'h_mexp_', 'h_mixed_'):
            ob('%s%s, native' % (pre, nm), mexp(pre + nm, None, most=24), symbolic=False, bounded='native executions', trials=60)
    return r
