"""Row reduction, rank, determinant and inverse."""
import itertools
from vc import poly
from vc.machine import Unsupported
from .linalg_common import *
ASSUMPTIONS = ['floating point arithmetic is treated as exact real arithmetic; the tolerance is an infinitesimal multiple of the norm',
               'every order of non-zero magnitudes during pivoting is considered']


def mars_contract(m, args, name):
    """a magnitude that is zero iff the matrix is (the value is the contract proved in C23)"""
    import re
    d = m.mod.demangled()[name]
    g = re.search(r'mars<double, (\d+)ul, (\d+)ul>', d)
    if not g:
        return NotImplemented
    n = int(g.group(1)) * int(g.group(2))
    p = args[0]
    return Mag([m.domain.real(m.load(Ptr(p.o, p.off + 8 * i), 8, 3)) for i in range(n)])


HOOKS = [(r'algebra::mars<double, ', mars_contract), (r'algebra::abs<double>\(double\)', abs_contract)]


def echelon(c, m):
    """the reduced row echelon form and the pivot columns"""
    m = [list(r) for r in m]
    rows, cols = len(m), len(m[0])
    i = 0
    piv = []
    val = (lambda x: x) if c.concrete else c.facts.value
    for j in range(cols):
        k = next((k for k in range(i, rows) if not c.is_zero(m[k][j])), None)
        if k is None:
            continue
        m[i], m[k] = m[k], m[i]
        iv = c.inv(m[i][j])
        m[i] = [(x * iv).simp() for x in m[i]]
        for k in range(rows):
            if k != i:
                s = m[k][j]
                m[k] = [(x - s * y).simp() for x, y in zip(m[k], m[i])]
        piv.append(j)
        i += 1
        if i == rows:
            break
    return m, piv


def determinant(c, m):
    n = len(m)
    r = c.const(0)
    for p in itertools.permutations(range(n)):
        t = c.const(1)
        sg = 1
        for i in range(n):
            t = t * m[i][p[i]]
            for j in range(i):
                if p[j] > p[i]:
                    sg = -sg
        r = r + (t if sg > 0 else -t)
    return r


class Step(object):
    """One pass of the elimination from any state: the first j columns are dealt with, i pivots found.  The columns before j are zero
    from row i on, everything else is arbitrary.  One pass either finds column j zero from row i on and changes nothing, or scales
    some row p >= i with a non-zero entry in column j, exchanges it with row i, clears the rest of column j with it and multiplies the
    determinant by the pivot and the sign of the exchange.  (Lemma: passes from the first state end in the reduced row echelon form.)"""

    def __init__(s, m, n):
        s.m, s.n = m, n
        s.states = [(i, j) for j in range(n) for i in range(min(m, j + 1))]
        s.a = None

    def read(s, m, a):
        d = m.domain
        g = [[d.real(m.load(Ptr(a[0].o, a[0].off + 8 * (r * s.n + k)), 8, 3)) for k in range(s.n)] for r in range(s.m)]
        i, j, rk = [m.load(p, 8) for p in a[1:4]]
        if not all(isinstance(x, int) for x in (i, j, rk)):
            raise Unsupported('symbolic position')
        return g, i, j, rk, d.real(m.load(a[4], 8, 3))

    def check(s, m, a, rec):
        g, i, j, rk, det = s.read(m, a)
        f = m.domain.facts
        if rec is None:
            if (i, j, rk) != (0, 0, 0) or not f.provably_zero(det - El(1)) or not all(f.provably_zero(x - y) for x, y in zip(flat(g), s.a)):
                raise Fail('invariant', 'the elimination does not start with the matrix')
            return
        if rk != i:
            raise Fail('invariant', 'the rank is not the number of pivots')
        if j != rec['j'] + 1:
            raise Fail('variant', 'not the next column')
        if not s.step(f, rec, g, i, det):
            raise Fail('invariant', 'not an elimination step')

    def step(s, f, rec, g, i2, det=None):
        """g is the matrix after one pass and i2 the number of pivots"""
        x, i, j = rec['g'], rec['i'], rec['j']
        z = f.provably_zero
        if i2 == i:
            return (all(f.is_zero(x[r][j]) for r in range(i, s.m)) and (g is None or all(z(u - v) for u, v in zip(flat(g), flat(x)))) and
                    (det is None or z(det - rec['det'])))
        if i2 != i + 1:
            return False
        for p in range(i, s.m):
            if f.provably_zero(x[p][j]):
                continue
            y = list(x)
            y[i], y[p] = y[p], y[i]
            piv = y[i][j]
            want = rec['det'] * piv
            if det is not None and not z(det - (want if p == i else -want)):
                continue
            if g is not None:
                if not all(z(g[i][k] * piv - y[i][k]) for k in range(s.n)):
                    continue
                if not all(z(g[r][k] - y[r][k] + y[r][j] * g[i][k]) for r in range(s.m) if r != i for k in range(s.n)):
                    continue
            return not f.is_zero(piv)
        return False

    def havoc(s, m, a):
        f, d = m.domain.facts, m.domain
        i, j = s.states[f.choose(len(s.states))]
        g = [[El(0) if k < j and r >= i else El(poly.newvar('s%d%d' % (r, k))) for k in range(s.n)] for r in range(s.m)]
        det = El(poly.newvar('det'))
        for r in range(s.m):
            for k in range(s.n):
                m.store(Ptr(a[0].o, a[0].off + 8 * (r * s.n + k)), 8, g[r][k])
        for p, v in zip(a[1:4], (i, j, i)):
            m.store(p, 8, v)
        m.store(a[4], 8, det)
        s.rec = {'g': g, 'i': i, 'j': j, 'det': det}

        def env(e):
            # the state is reached from the matrix with unit columns for the pivots
            r = dict(e)
            for q in range(s.m):
                for k in range(s.n):
                    r['a%d%d' % (q, k)] = e.get('s%d%d' % (q, k), 0) if k >= j else int(q == k and k < i)
            return r
        d.fixenv = env
        return s.rec

    def owned(s, m, a):
        from .C17 import owner
        return owner([(a[0], 8 * s.m * s.n)] + [(p, 8) for p in a[1:5]])


def passes(kind, m, n):
    """(function, cuts): the entry with one pass from any state"""
    box = {}

    def cuts():
        box['step'] = Step(m, n)
        return {'gauss_jordan_step': box['step']}
    whole = {'rref': rref(m, n, False), 'rreft': rref(m, n, True), 'rank': rank(m, n), 'det': det(m)}[kind]

    def f(c):
        if c.concrete:
            return whole(c)
        st = box['step']
        st.a = flat(mat(c, m, n, 'a'))
        if kind == 'rank':
            _, io = c.call('e_rank_d_%d_%d' % (m, n), st.a, niout=1)
            rec = st.rec
            c.require_true('rank', io[0] == rec['i'] + int(any(not c.is_zero(rec['g'][r][rec['j']]) for r in range(rec['i'], m))))
            return
        if kind == 'det':
            o, _ = c.call('e_det_d_%d' % m, st.a, nout=1)
            rec = st.rec
            last = rec['i'] == m - 1 and rec['j'] == m - 1
            c.require('determinant', o[0] - (rec['det'] * rec['g'][m - 1][m - 1] if last else c.const(0)))
            return
        o, _ = c.call('e_%s_d_%d_%d' % (kind, m, n), st.a, nout=m * n)
        rec = st.rec
        g = [o[r * n:(r + 1) * n] for r in range(m)]
        k = any(not c.is_zero(rec['g'][r][rec['j']]) for r in range(rec['i'], m))
        c.require_true('the last pass', st.step(c.facts, rec, g, rec['i'] + int(k)) and (rec['j'] == n - 1 or rec['i'] + int(k) == m))
    return f, cuts


def reduction_contract(m, args, name):
    """the elimination by contract: a matrix of full rank whose first columns are independent reduces to the identity there"""
    import re
    g = re.search(r'gauss_jordan_impl<double, (\d+)ul, (\d+)ul>\(.*matrix<double, \d+ul, \d+ul>, double\)$', m.mod.demangled()[name])
    if not g:
        return NotImplemented
    d = m.domain
    M, N = int(g.group(1)), int(g.group(2))
    out, a = args[:2]
    x = [[d.real(m.load(Ptr(a.o, a.off + 8 * (r * N + k)), 8, 3)) for k in range(N)] for r in range(M)]
    d.calls = getattr(d, 'calls', []) + [x]
    w = [[El(int(r == k)) if k < M else El(poly.newvar('x%d_%d%d' % (len(d.calls), r, k))) for k in range(N)] for r in range(M)]
    d.result = w
    m.store(out, 8, El(poly.newvar('det%d' % len(d.calls))))
    m.store(Ptr(out.o, out.off + 8), 8, M)
    for r in range(M):
        for k in range(N):
            m.store(Ptr(out.o, out.off + 16 + 8 * (r * N + k)), 8, w[r][k])
    return None


def inverse_by_contract(m):
    """the inverse of a matrix of full rank is the right half of the reduction of (matrix | identity)"""
    whole = inv(m)

    def f(c):
        if c.concrete:
            return whole(c)
        a = mat(c, m, m, 'a')
        o, _ = c.call('e_inv_d_%d' % m, flat(a), nout=m * m)
        d = c.domain
        one = [[c.const(int(i == j)) for j in range(m)] for i in range(m)]
        for x in d.calls[:-1]:
            c.require_eq('rank of the matrix', flat(x), flat(a))
        c.require_eq('reduction of the matrix and the identity', flat(d.calls[-1]), flat([p + q for p, q in zip(a, one)]))
        c.require_eq('the right half', o, flat([r[m:] for r in d.result]))
    return f


def suff(c):
    return 'q' if c.concrete else 'd'


def rref(m, n, tol):
    def f(c):
        a = mat(c, m, n, 'a')
        w, piv = echelon(c, a)
        o, _ = c.call('e_%s_%s_%d_%d' % ('rreft' if tol else 'rref', suff(c), m, n), flat(a), nout=m * n)
        c.require_eq('reduced row echelon form', o, flat(w))
    return f


def rank(m, n):
    def f(c):
        a = mat(c, m, n, 'a')
        w, piv = echelon(c, a)
        _, io = c.call('e_rank_%s_%d_%d' % (suff(c), m, n), flat(a), niout=1)
        c.require_true('rank', io[0] == len(piv))
    return f


def det(m):
    def f(c):
        a = mat(c, m, m, 'a')
        o, _ = c.call('e_det_%s_%d' % (suff(c), m), flat(a), nout=1)
        c.require('determinant', o[0] - determinant(c, a))
    return f


def inv(m):
    def f(c):
        a = mat(c, m, m, 'a')
        c.assume_nonzero(determinant(c, a))
        o, _ = c.call('e_inv_%s_%d' % (suff(c), m), flat(a), nout=m * m)
        b = [o[i * m:(i + 1) * m] for i in range(m)]
        one = [c.const(int(i == j)) for i in range(m) for j in range(m)]
        c.require_eq('m times inverse', flat(matmul(a, b)), one)
        c.require_eq('inverse times m', flat(matmul(b, a)), one)
    return f


def refused(m):
    """native: a singular matrix has no inverse"""
    def f(c):
        a = mat(c, m, m, 'a')
        k = c.choose(m + 2)
        if k < m:              # a row that depends on the others
            t = vec(c, m, 't')
            a[k] = [add([c.const(0)] + [t[i] * a[i][j] for i in range(m) if i != k]) for j in range(m)]
        o, io = c.call('e_invq_%d' % m, flat(a), nout=m * m, niout=1)
        s = c.is_zero(determinant(c, a))
        c.require_true('singular matrices are refused, others not', io[0] == int(not s))
    return f


def obligations(tier):
    r = []
    th = tier == 'thorough'

    def add(name, fn, heavy, kind=None, m=0, n=0):
        if heavy and not th:
            f, cuts = passes(kind, m, n)
            r.append(ob(name, 'E', f, hooks=HOOKS, cuts=cuts, trials=400, backend='induction (rational function identities)', maxpaths=10 ** 6, budget=10 ** 8, confirm=True))
        else:
            r.append(ob(name, 'E', fn, hooks=HOOKS, timeout=3000 if th else 240, maxpaths=10 ** 6, budget=10 ** 8))
    for m, n in SHAPES:
        heavy = n > 1 and (m > 3 or m * n > HEAVY)
        add('row reduction %dx%d' % (m, n), rref(m, n, False), heavy, 'rref', m, n)
        add('row reduction with tolerance %dx%d' % (m, n), rref(m, n, True), heavy, 'rreft', m, n)
        add('rank %dx%d' % (m, n), rank(m, n), heavy, 'rank', m, n)
    for m in (1, 2, 3, 4):
        add("determinant %d" % m, det(m), m > 3, 'det', m, m)
        if m < 4 or th:
            add("inverse %d" % m, inv(m), False)
        r.append(ob('inverse of a singular matrix %d' % m, 'E', refused(m), symbolic=False, bounded='native evaluations', trials=200))
    kw = dict(hooks=HOOKS, trials=300, backend='induction (rational function identities)', maxpaths=10 ** 6, budget=10 ** 8, confirm=True)
    for m, n in LARGER:
        for name, kind in (('row reduction', 'rref'), ('row reduction with tolerance', 'rreft'), ('rank', 'rank')):
            f, cuts = passes(kind, m, n)
            r.append(ob('%s %dx%d' % (name, m, n), 'E', f, cuts=cuts, **kw))
    for m in (5, 6):
        f, cuts = passes('det', m, m)
        r.append(ob("determinant %d" % m, 'E', f, cuts=cuts, **kw))
    for m in (4, 5, 6):
        if m > 4 or not th:
            kw = dict(kw, hooks=HOOKS + [(r'algebra::gauss_jordan_impl<double, .*double\)$', reduction_contract)])
            r.append(ob("inverse %d" % m, 'E', inverse_by_contract(m), **kw))
    return r


LARGER = [(5, 5), (5, 6), (6, 5), (2, 6), (6, 2)]
HEAVY = 9
