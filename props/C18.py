"""Windowed and wNAF exponentiation agree with plain exponentiation."""
from .mexp_common import *
from .C12 import TR
from vc.loops import SymArr, OutArr
from vc.machine import Obj

ASSUMPTIONS = ['callees by their contracts: addition, subtraction, doubling, zero, assignment (C08-C10), scalar multiplication (C12)',
               'assumed contracts of the multiprecision library: msb, bit_test, find_wnaf (odd digits below 2^w, or 0, that sum up to the number)',
               'fixed-base tables: scalar < 2^scalar_size, scalar_size >= 1, window >= 1']


# ---- the window table by its contract: table[o][i] = i 2^(o w) g; last row: 2^(rest bits) entries, zero behind them
class PowDomain(GroupDomain):
    def setup(s, n, w, size):
        s.n, s.w, s.size = n, w, size
        s.P = z3.Function('two_to', z3.IntSort(), z3.IntSort())
        s.L = z3.Function('low_windows', z3.IntSort(), z3.IntSort())
        q = s.seq(n)
        if not s.decide(n == 0):
            s.assume(q.settop() < size)

    def entry(s, o, i):
        # outerc rows of w bits; the last one has the rest
        last = s.rows - 1
        if s.decide(o == last):
            rem = s.size - last * s.w
            for b in range(s.w + 1):
                if i >> b and s.decide(rem <= b):
                    return GVal({})
        return GVal({'g': z3.simplify(i * s.P(o if isz(o) else z3.IntVal(o)))} if i else {})

    def low(s, o):
        """(n mod 2^(o w)), o at most the number of rows"""
        o = z3.simplify(o) if isz(o) else z3.IntVal(o)
        t = s.L(o)
        s.assume(z3.Implies(o == 0, t == 0))
        if s.entails(s.seq(s.n).at(z3.simplify(o * s.w)) == 0):
            s.assume(t == s.n)
        return t

    def step(s, o):
        """low(o + 1) = low(o) + digit(o) 2^(o w)"""
        q = s.seq(s.n)
        dg = 0
        for i in range(s.w):
            j = z3.simplify(o * s.w + i)
            a, b = q.at(j), q.at(j + 1)
            s.assume(z3.And(a - 2 * b >= 0, a - 2 * b <= 1))
            if s.decide(a - 2 * b == 1):
                dg |= 1 << i
        s.assume(s.L(z3.simplify(o + 1)) == s.L(o) + dg * s.P(o))


def table(c, n, w, size):
    d, m = c.domain, c.machine
    d.setup(n, w, size)
    d.rows = d.divmod(size + w - 1, w)[0]
    rows = {}

    def row(o):
        k = str(o)
        if k not in rows:
            e = SymArr('row %s' % k, 48, 1 << w, lambda i, r, sz: part(o, i, r))
            rows[k] = e
        return rows[k]

    gs = {}

    def part(o, i, r):
        if isz(i):
            raise Unsupported('symbolic digit')
        k = (str(o), i)
        if k not in gs:
            gs[k] = d.entry(o, i)
        return GPart(gs[k], r // 16, 3) if r % 16 == 0 else 0

    outer = SymArr('window table', 24, d.rows, lambda o, r, sz: Ptr(row(o), 0 if r == 0 else 48 << w))
    v = Obj(24, 'table')
    v.cells = {0: (8, Ptr(outer, 0)), 8: (8, Ptr(outer, z3.simplify(24 * d.rows) if isz(d.rows) else 24 * d.rows)), 16: (8, Ptr(outer, 0))}
    return Ptr(v, 0)


class Rows:
    """windowed_exp, head of the loop: res = (pow mod 2^(outer window)) g"""

    def check(s, m, a, rec):
        d = m.domain
        o = d.term(m.load(a[0], 8))
        if rec is not None:
            if not d.entails(o == rec['o'] + 1) or not d.entails(o <= d.rows):
                raise Unsupported('the window number does not advance by one')
            d.step(rec['o'])
        elif not d.entails(o == 0):
            raise Unsupported('the windows are not taken from the first on')
        g = d.gread(m, a[1], 3)
        if not d.geq(g, GVal({'g': d.low(o)})):
            raise Fail('invariant', 'the result of the first windows is %r' % (g,))

    def havoc(s, m, a):
        d = m.domain
        o = z3.Int('o%d' % d.fresh())
        d.assume(z3.And(o >= 0, o < d.rows))
        m.store(a[0], 8, d.zi(o))
        d.gwrite(m, a[1], 3, GVal({'g': d.low(o)}))
        m.loopctl.exit = o
        return {'o': o}

    def owned(s, m, a):
        from .C17 import owner
        return owner([(a[0], 8), (a[1], 48)])


def wexp(w, fixed=None):
    def f(c):
        if c.concrete:
            C = curve(c)
            ps, rs = points(c, C, 1)
            n = c.bigint('n', 40 if w < 5 else 256) % R
            size = min(max(1, n.bit_length()) + c.choose(5, 'spare bits'), 255)
            o, _ = c.call('h_wexp', rs + [Wide(n, NL)], [size, w], nout=3)
            C.check('the product', o, 0, times(C, ps[0], n))
            return
        d = c.domain
        n = sym_scalar(c, 'n')
        size = z3.Int('size')
        d.assume(z3.And(size >= 1, size < 1 << 20))
        c.machine.begin(c.facts, d)
        c.machine_begun = True
        t = table(c, n.t, w, size)
        o, _ = c.call('h_wexp_p', [Wide(n, NL)], [t, d.zi(size), w], nout=3)
        # behind the loop: all rows are done
        ctl = c.machine.loopctl
        if ctl.recs:
            d.step(ctl.exit)
            d.low(z3.simplify(ctl.exit + 1))
        c.require_group('the result is n times the base', o, {'g': n.t})
    return f


def tab(size, w):
    def f(c):
        outer = -(-size // w)
        if c.concrete:
            C = curve(c)
            ps, rs = points(c, C, 1)
            o, io = c.call('h_table', rs, [size, w], nout=3 * outer << w, niout=1 + outer)
        else:
            o, io = c.call('h_table', c.group('g', 3), [size, w], nout=3 * outer << w, niout=1 + outer)
        c.require_true('dimensions of the table', io == [outer] + [1 << w] * outer)
        for r in range(outer):
            last = 1 << (size - (outer - 1) * w) if r == outer - 1 else 1 << w
            for i in range(1 << w):
                k = i << (r * w) if i < last else 0
                x = o[3 * ((r << w) + i):][:3]
                if c.concrete:
                    C.check('table[%d][%d]' % (r, i), x, 0, times(C, ps[0], k))
                else:
                    c.require_group('table[%d][%d]' % (r, i), x, {'g': k})
    return f


def wnaf(w):
    def f(c):
        if c.concrete:
            C = curve(c)
            ps, rs = points(c, C, 1)
            n = c.bigint('n', 255)
            o, _ = c.call('h_wnaf', rs + [Wide(n, NL)], [w], nout=3)
            C.check('the product', o, 0, times(C, ps[0], n))
            return
        n = c.bigint('n')
        o, _ = c.call('h_wnaf', c.group('a', 3) + [Wide(n, NL)], [w], nout=3)
        c.require_group('the result is n times the base', o, {'a': n.t})
    return f


def optw(c):
    if c.concrete:
        C = curve(c)
        ps, rs = points(c, C, 1)
        n = c.bigint('n', 255)
        o, _ = c.call('h_optw', rs + [Wide(n, NL)], [n.bit_length() if c.choose(2, 'bits of the scalar') else c.choose(300, 'bits')], nout=3)
        C.check('the product', o, 0, times(C, ps[0], n))
        return
    n = c.bigint('n')
    b = c.bigint('bits')
    o, _ = c.call('h_optw', c.group('a', 3) + [Wide(n, NL)], [c.domain.limit(b, 32)], nout=3)
    c.require_group('the result is n times the base', o, {'a': n.t})


def wsize(c):
    if c.concrete:
        n = c.bigint('n', 62)
        _, io = c.call('h_wsize', [], [n], niout=1)
        c.require_true('a window of the table', 1 <= io[0] <= 5)
        return
    n = c.bigint('n')
    _, io = c.call('h_wsize', [], [c.domain.limit(n, 62)], niout=1)
    c.require_true('a window of the table', io[0].__class__ is int and 1 <= io[0] <= 5)


def batch(fn, k, w=3):
    def f(c):
        coeff = 'c' in fn[4:]
        if c.concrete:
            C = curve(c)
            ps, rs = points(c, C, 1)
            ss = [c.bigint('n%d' % i, 256) % R for i in range(k)]
            kk = c.bigint('k', 256) % R if coeff else 1
            size = 255
            o, io = c.call(fn, rs + ([Wide(kk, NL)] if coeff else []) + [Wide(s, NL) for s in ss], [size, w, k], nout=3 * k, niout=1)
            c.require_true('number of results', io[0] == k)
            for i in range(k):
                C.check('result %d' % i, o[3 * i:3 * i + 3], 0, times(C, ps[0], kk * ss[i] % R))
            return
        d = c.domain
        ss = [sym_scalar(c, 'n%d' % i) for i in range(k)]
        c.machine.begin(c.facts, d)
        c.machine_begun = True
        n0 = sym_scalar(c, 'n_')
        t = table(c, n0.t, w, 255)
        d.batch = (255, w, t)
        kk = sym_scalar(c, 'k') if coeff else None
        o, io = c.call(fn + '_p', ([Wide(kk, NL)] if coeff else []) + [Wide(s, NL) for s in ss], [t, 255, w, k], nout=3 * k, niout=1)
        c.require_true('number of results', io[0] == k)
        for i in range(k):
            c.require_group('result %d' % i, o[3 * i:3 * i + 3], {'g': product(d, kk.t, ss[i].t) if coeff else ss[i].t})
    return f


def product(d, a, b):
    f = z3.Function('product_mod_r', z3.IntSort(), z3.IntSort(), z3.IntSort())
    d.assume(f(a, b) == f(b, a))
    return f(a, b)


def h_windowed(m, args, name):
    """windowed_exp by its contract"""
    d = m.domain
    out, size, w, t, x = args
    if (size, w) != d.batch[:2] or t.__class__ is not Ptr or t.o is not d.batch[2].o or t.off != d.batch[2].off:
        raise Fail('contract', 'windowed_exp with scalar_size %r, window %r and table %r' % (size, w, t))
    d.gwrite(m, out, 3, GVal({'g': scalar_at(m, x)}))


def h_results(m, args, name):
    """a vector of as many copies of a value as there are scalars"""
    d = m.domain
    if args[1].__class__ is not ZI or not hasattr(d, 'results'):
        return NotImplemented
    n = args[1].t
    if not d.entails(n == d.len) or d.results is not None:
        raise Unsupported('a vector of %s results' % n)
    v = [m.load(Ptr(args[2].o, args[2].off + k), 8) for k in range(0, 48, 8)]
    new = lambda q, r, sz: GPart(GVal({'g': d.scalar_of(q)}), r // 16, 3) if r % 16 == 0 else 0
    d.results = o = OutArr('the results', 48, d.len, lambda q, r, sz: v[r // 8], new)
    for k, x in enumerate((0, 48 * d.len, 48 * d.len)):
        m.store(Ptr(args[0].o, args[0].off + 8 * k), 8, Ptr(o, z3.simplify(x) if k else 0))


def same_part(d, x, y):
    if x.__class__ is not GPart or y.__class__ is not GPart:
        return x.__class__ is int and x == y
    return x.i == y.i and x.n == y.n and d.geq(x.g, y.g)


class Results:
    """batch_exp, head of the loop: the results before i are done"""

    def check(s, m, a, rec):
        d = m.domain
        i, o = d.term(m.load(a[0], 8)), d.results
        p = m.load(a[1], 8)
        if p.__class__ is not Ptr or p.o is not o:
            raise Unsupported('the vector of results')
        if rec is not None and not d.entails(i == rec['i'] + 1):
            raise Unsupported('the scalars are not taken one after the other')
        o.advance(d, lambda x, y: same_part(d, x, y))
        if not d.entails(o.front == i):
            raise Fail('invariant', 'the results before %s are done, not before %s' % (o.front, i))

    def havoc(s, m, a):
        d = m.domain
        if not d.entails(d.term(m.load(a[0], 8)) == 0):
            raise Unsupported('the scalars are not taken from the first on')
        i = z3.Int('i%d' % d.fresh())
        d.assume(z3.And(i >= 0, i < d.len))
        d.results.front = i
        m.store(a[0], 8, d.zi(i))
        return {'i': i}

    def owned(s, m, a):
        from .C17 import owner
        return owner([(a[0], 8)])


def batch_any(fn, w=3):
    def f(c):
        coeff = fn[6] == 'c'
        if c.concrete:
            return batch(fn[:-4], c.choose(7, 'scalars') if c.choose(3) else c.choose(60, 'scalars'), w)(c)
        d = c.domain
        c.machine.begin(c.facts, d)
        c.machine_begun = True
        e = z3.Function('e', z3.IntSort(), z3.IntSort())
        t = table(c, sym_scalar(c, 'n_').t, w, 255)
        d.batch = (255, w, t)
        kk = sym_scalar(c, 'k') if coeff else None
        d.len = z3.Int('len')
        d.assume(z3.And(d.len >= 0, d.len < 1 << 40))
        d.results = None

        def es(i):
            x = e(i if isz(i) else z3.IntVal(i))
            d.assume(z3.And(x >= 0, x < R))
            return x
        d.scalar_of = lambda i: product(d, kk.t, es(i)) if coeff else es(i)
        sa = SymArr('scalars', 8 * (1 + NL), d.len, lambda i, r, n: SInt(es(i)) if r == 0 else 0)
        end = Ptr(sa, z3.simplify(sa.elem * d.len))
        _, io = c.call(fn, [Wide(kk, NL)] if coeff else [], [t, 255, w, Ptr(sa, 0), end, end], niout=2)
        o = d.results
        if o is None:
            raise Unsupported('the vector of results')
        o.advance(d, lambda x, y: same_part(d, x, y))
        c.require_true('every result is written', d.entails(o.front == d.len))
        c.require_true('as many results as scalars', all(x.__class__ is Ptr and x.o is o for x in io) and io[0].off == 0 and d.entails(io[1].off == 48 * d.len))
    return f


# ---- the window table, any number of rows
class RowArr(SymArr):
    """the rows of the table under construction: a row is an object of its own; the rows before front are done"""
    __slots__ = ('w', 'front', 'rows', 'fill')

    def row(s, d, q):
        for t, o in s.rows:
            if d.entails(t == q):
                return o
        if not d.entails(q == s.front):
            raise Unsupported('row %s of the table, while row %s is built' % (q, s.front))
        o = Obj(48 << s.w, 'row %s' % (q,))
        for i in range(1 << s.w):
            for k, x in enumerate(s.fill):
                o.cells[48 * i + 8 * k] = (8, x)
        s.rows.append((q, o))
        return o

    def advance(s, m, d):
        """the row that was built is the row of the contract"""
        for q, o in s.rows:
            if not d.entails(q == s.front):
                raise Fail('frame', 'row %s is written while row %s is next' % (q, s.front))
            for i in range(1 << s.w):
                g = d.gread(m, Ptr(o, 48 * i), 3)
                want = d.entry(q, i)
                if not d.geq(g, want):
                    raise Fail('invariant', 'table[%s][%d] is %r, not %r' % (q, i, g, want))
            s.front = z3.simplify(s.front + 1) if isz(s.front) else s.front + 1
        s.rows = []


def h_rows(m, args, name):
    """a vector of as many copies of a row as the table has rows"""
    d = m.domain
    if args[1].__class__ is not ZI or getattr(d, 'tab', 0) is not None:
        return NotImplemented
    if not d.entails(args[1].t == d.rows):
        raise Fail('contract', 'a table of %s rows' % args[1].t)
    b, e = (m.load(Ptr(args[2].o, args[2].off + k), 8) for k in (0, 8))
    if b.__class__ is not Ptr or e.__class__ is not Ptr or e.o is not b.o or e.off - b.off != 48 << d.w:
        raise Fail('contract', 'rows of the table have %s entries' % ((e.off - b.off) // 48 if e.__class__ is b.__class__ is Ptr else '?'))
    if not all(d.geq(d.gread(m, Ptr(b.o, b.off + 48 * i), 3), GVal({})) for i in range(1 << d.w)):
        raise Unsupported('initial row')
    o = RowArr('window table', 24, d.rows, None)
    o.w, o.front, o.rows, o.fill = d.w, 0, [], [m.load(Ptr(b.o, b.off + k), 8) for k in range(0, 48, 8)]
    o.fn = lambda q, r, sz: Ptr(o.row(d, q), 0 if r == 0 else 48 << d.w)
    d.tab = o
    for k in range(3):
        m.store(Ptr(args[0].o, args[0].off + 8 * k), 8, Ptr(o, z3.simplify(24 * d.rows) if k else 0))


class TableRows:
    """get_window_table, head of the outer loop: gouter = 2^(outer window) g, the rows before outer are done"""

    def check(s, m, a, rec):
        d = m.domain
        i, o = d.term(m.load(a[0], 8)), d.tab
        p = m.load(a[2], 8)
        if p.__class__ is not Ptr or p.o is not o:
            raise Unsupported('the table')
        if rec is not None:
            if not d.entails(i == rec['i'] + 1):
                raise Unsupported('the rows are not taken one after the other')
            d.assume(d.P(i) == d.P(rec['i']) << d.w if 0 else d.P(i) == d.P(rec['i']) * (1 << d.w))
        o.advance(m, d)
        if not d.entails(o.front == i):
            raise Fail('invariant', 'the rows before %s are done, not before %s' % (o.front, i))
        d.assume(d.P(z3.IntVal(0)) == 1)
        if not d.geq(d.gread(m, a[1], 3), GVal({'g': d.P(i if isz(i) else z3.IntVal(i))})):
            raise Fail('invariant', 'the base of row %s is %r' % (i, d.gread(m, a[1], 3)))

    def havoc(s, m, a):
        d = m.domain
        if not d.entails(d.term(m.load(a[0], 8)) == 0):
            raise Unsupported('the rows are not taken from the first on')
        i = z3.Int('i%d' % d.fresh())
        d.assume(z3.And(i >= 0, i < d.rows))
        d.tab.front = i
        m.store(a[0], 8, d.zi(i))
        d.gwrite(m, a[1], 3, GVal({'g': d.P(i)}))
        return {'i': i}

    def owned(s, m, a):
        from .C17 import owner
        return owner([(a[0], 8), (a[1], 48)])


def table_any(w):
    def f(c):
        if c.concrete:
            return tab(c.choose((20, 140 if w < 4 else 40)[c.choose(2)], 'scalar size') + 1, w)(c)
        d = c.domain
        c.machine.begin(c.facts, d)
        c.machine_begun = True
        d.w = w
        d.P = z3.Function('two_to', z3.IntSort(), z3.IntSort())
        d.rows = z3.Int('rows')
        d.assume(z3.And(d.rows >= 1, d.rows < 1 << 20))
        d.size = z3.simplify(w * (d.rows - 1) + 1 + c.choose(w, 'bits of the last row'))
        d.tab = None
        _, io = c.call('h_table_any', c.group('g', 3), [d.zi(d.size), w], niout=2)
        o = d.tab
        if o is None:
            raise Unsupported('the table')
        o.advance(c.machine, d)
        c.require_true('every row is written', d.entails(o.front == d.rows))
        c.require_true('as many rows as windows', all(x.__class__ is Ptr and x.o is o for x in io) and io[0].off == 0 and d.entails(io[1].off == 24 * d.rows))
    return f


def h_fmul(m, args, name):
    d = m.domain
    d.put(args[0], NL, SInt(product(d, scalar_at(m, args[1]), scalar_at(m, args[2]))))


def h_fixed(m, args, name):
    d = m.domain
    if args[1].__class__ is not int or not 1 <= args[1] <= 16:
        raise Fail('contract', 'fixed_window_wnaf_exp with window %r' % (args[1],))
    d.gwrite(m, args[0], 3, d.gscale(d.gread(m, args[2], 3), scalar_at(m, args[3])))


def obligations(tier):
    r = []
    th = tier == 'thorough'
    P = (13, 31, 101, 211)

    def ob(name, fn, hooks=(), domain=GroupDomain, trials=25, backend='z3', **kw):
        r.append(Ob(name, TUM, fn, nl=1, domain=domain, hooks=HOOKS + list(hooks), primes=P, trials=trials, confirm='cuts' in kw, backend=backend, **kw))
    for w in range(1, 7 if th else 6):
        ob('fixed_window_wnaf_exp, window %d' % w, wnaf(w), traces=TR, backend='induction (z3)')
    for w in range(6, 10):
        ob('fixed_window_wnaf_exp, window %d, native' % w, wnaf(w), symbolic=False, bounded='native executions')
    ob('opt_window_wnaf_exp selects a usable window', optw, SMUL + [(r'nil::crypto3::algebra::fixed_window_wnaf_exp<', h_fixed)], trials=60)
    ob('get_exp_window_size', wsize)
    for size, w in [(1, 1), (2, 1), (5, 1), (1, 2), (4, 2), (7, 2), (1, 3), (3, 3), (7, 3), (8, 3), (4, 4), (9, 4), (3, 5), (11, 5)] + ([(s, w) for w in range(1, 7) for s in range(1, 21)] + [(255, 5)] if th else [(64, 4)]):
        ob('get_window_table, scalar_size %d, window %d' % (size, w), tab(size, w), bounded='scalar_size and window', trials=3)
    for w in range(1, 7 if th else 6):
        ob('windowed_exp, window %d' % w, wexp(w), domain=PowDomain, cuts=lambda: {'windowed_exp_windows': Rows()}, timeout=400)
    for w in range(5, 9):
        ob('windowed_exp, window %d, native' % w, wexp(w), symbolic=False, bounded='native executions', trials=8)
    FMUL = (r'::element_fp<nil::crypto3::algebra::fields::params<nil::crypto3::algebra::fields::bls12_scalar_field<381[^()]*>::operator\*\(nil', h_fmul)
    BATCH = [(r'nil::crypto3::algebra::windowed_exp<', h_windowed), (r'^std::vector<nil::crypto3::algebra::curves::detail::curve_element<.*>::vector\(unsigned long, nil', h_results), FMUL]
    for nm, fn in (('batch_exp', 'h_bexp_any'), ('batch_exp_with_coeff', 'h_bexpc_any')):
        ob(nm + ', any number of scalars', batch_any(fn), BATCH, domain=PowDomain, cuts=lambda: {'batch_prefix': Results()}, trials=8)
    for w in range(1, 7 if th else 6):
        ob('get_window_table, window %d, any scalar size' % w, table_any(w), [(r'^std::vector<std::vector<nil::crypto3::algebra::curves::detail::curve_element<.*>::vector\(unsigned long, std::vector<nil', h_rows)],
           domain=PowDomain, cuts=lambda: {'window_table_rows': TableRows()}, trials=5)
    for k in range(0, 5):
        ob('batch_exp, %d scalars' % k, batch('h_bexp', k), [(r'nil::crypto3::algebra::windowed_exp<', h_windowed)], domain=PowDomain, bounded='number of scalars', trials=4)
        ob('batch_exp_with_coeff, %d scalars' % k, batch('h_bexpc', k), [(r'nil::crypto3::algebra::windowed_exp<', h_windowed), (r'::element_fp<nil::crypto3::algebra::fields::params<nil::crypto3::algebra::fields::bls12_scalar_field<381[^()]*>::operator\*\(nil', h_fmul)],
           domain=PowDomain, bounded='number of scalars', trials=4)
    return r
