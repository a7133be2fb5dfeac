"""Matrix algebra."""
from .linalg_common import *
from vc.realdom import abs_named


def ops(t, m, n):
    def f(c):
        a, b, s = flat(tmat(c, t, m, n, 'a')), flat(tmat(c, t, m, n, 'b')), scalar(c, t, 's')
        k = 1 if t == 'd' else 2
        o, _ = c.call('m_ops_%s_%d_%d' % (t, m, n), parts(a + b + [s], t), nout=6 * m * n * k)
        r = Rd(c, o)
        r.eq('sum', parts([x + y for x, y in zip(a, b)], t))
        r.eq('matrix plus scalar', parts([x + s for x in a], t))
        r.eq('scalar plus matrix', parts([s + x for x in a], t))
        r.eq('matrix times scalar', parts([x * s for x in a], t))
        r.eq('scalar times matrix', parts([s * x for x in a], t))
        r.eq('elementwise product', parts([x * y for x, y in zip(a, b)], t))
    return f


def div(m, n):
    def f(c):
        a, b, s = flat(mat(c, m, n, 'a')), flat(mat(c, m, n, 'b')), c.var('s')
        for x in b:
            c.assume_nonzero(x)
        o, _ = c.call('m_div_d_%d_%d' % (m, n), a + b + [s], nout=2 * m * n)
        r = Rd(c, o)
        r.eq('scalar by matrix', [s * c.inv(x) for x in b])
        r.eq('elementwise quotient', [x * c.inv(y) for x, y in zip(a, b)])
    return f


def eq(t, m, n):
    def f(c):
        k = m * n * (1 if t == 'd' else 2)
        a = vec(c, k, 'a')
        w = c.choose(k + 2)
        if w < k:
            b = list(a)
            d = c.var('d')
            c.assume_nonzero(d)
            b[w] = b[w] + d
        else:
            b = a if w == k else vec(c, k, 'b')
        _, io = c.call('m_eq_%s_%d_%d' % (t, m, n), a + b, niout=2)
        e = int(all(c.is_zero(x - y) for x, y in zip(a, b)))
        c.require_true('equality', io[0] == e)
        c.require_true('inequality', io[1] == 1 - e)
    return f


def tr(t, m, n):
    def f(c):
        k = 1 if t == 'd' else 2
        a = tmat(c, t, m, n, 'a')
        o, _ = c.call('m_tr_%s_%d_%d' % (t, m, n), parts(flat(a), t), nout=(3 * k + 2) * m * n)
        r = Rd(c, o)
        r.eq('transpose', parts(flat(transpose(a)), t))
        r.eq('conjugate', parts([cj(x) for x in flat(a)], t))
        r.eq('hermitian transpose', parts([cj(x) for x in flat(transpose(a))], t))
        r.eq('real part', [x.re for x in flat(a)] if t == 'c' else flat(a))
        r.eq('imaginary part', [x.im for x in flat(a)] if t == 'c' else [c.const(0)] * (m * n))
    return f


def mul(t, m, n, p):
    def f(c):
        a, b = tmat(c, t, m, n, 'a'), tmat(c, t, n, p, 'b')
        o, _ = c.call('m_mul_%s_%d_%d_%d' % (t, m, n, p), parts(flat(a) + flat(b), t), nout=m * p * (1 if t == 'd' else 2))
        c.require_eq('matrix product', o, parts(flat(matmul(a, b)), t))
    return f


def mv(t, m, n):
    def f(c):
        a, l, q = tmat(c, t, m, n, 'a'), tvec(c, t, m, 'l'), tvec(c, t, n, 'r')
        o, _ = c.call('m_vec_%s_%d_%d' % (t, m, n), parts(flat(a) + l + q, t), nout=(m + n) * (1 if t == 'd' else 2))
        r = Rd(c, o)
        r.eq('vector times matrix', parts(matmul([l], a)[0], t))
        r.eq('matrix times vector', parts([x[0] for x in matmul(a, [[x] for x in q])], t))
    return f


def kron(m, n, p, q):
    def f(c):
        a, b = mat(c, m, n, 'a'), mat(c, p, q, 'b')
        o, _ = c.call('m_kron_%d_%d_%d_%d' % (m, n, p, q), flat(a) + flat(b), nout=m * n * p * q)
        c.require_eq('Kronecker product', o, [a[i][j] * b[k][l] for i in range(m) for k in range(p) for j in range(n) for l in range(q)])
    return f


def norm(m, n):
    def f(c):
        a = mat(c, m, n, 'a')
        o, _ = c.call('m_norm_%d_%d' % (m, n), flat(a), nout=2)
        ab = [[cabs(c, x) if c.concrete else c.domain.absname(x) for x in r] for r in a]
        is_max(c, 'column sum norm', o[0], [add(r) for r in transpose(ab)])
        is_max(c, 'row sum norm', o[1], [add(r) for r in ab])
    return f


def trace(t, m):
    def f(c):
        a = tmat(c, t, m, m, 'a')
        o, _ = c.call('m_trace_%s_%d' % (t, m), parts(flat(a), t), nout=1 if t == 'd' else 2)
        c.require_eq('trace', o, parts([add([a[i][i] for i in range(m)])], t))
    return f


CS = [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]


def obligations(tier):
    r = []
    for t in 'dc':
        for m, n in SHAPES if t == 'd' else CS:
            nm = '%s %dx%d' % ('real' if t == 'd' else 'complex', m, n)
            r.append(ob('element-wise operators, ' + nm, 'M', ops(t, m, n)))
            r.append(ob('comparison, ' + nm, 'M', eq(t, m, n)))
            r.append(ob('transposes and parts, ' + nm, 'M', tr(t, m, n)))
            r.append(ob('products with vectors, ' + nm, 'M', mv(t, m, n)))
            if t == 'd':
                r.append(ob('quotients, ' + nm, 'M', div(m, n)))
        for m in (1, 2, 3, 4):
            r.append(ob('trace, %s %d' % (t, m), 'M', trace(t, m)))
    for s in ((1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (2, 1, 2), (1, 2, 3), (3, 2, 1), (2, 3, 2), (2, 2, 2), (2, 2, 3), (3, 2, 2), (2, 3, 4), (4, 3, 2), (3, 3, 3), (3, 4, 2), (4, 4, 4)):
        r.append(ob('matrix product %dx%d by %d' % s, 'M', mul('d', *s)))
    r.append(ob('complex matrix product', 'M', mul('c', 2, 3, 2)))
    for s in ((1, 1, 1, 1), (1, 2, 3, 1), (2, 1, 1, 3), (2, 2, 2, 2), (2, 3, 3, 2), (3, 2, 2, 3), (1, 3, 2, 2), (3, 3, 2, 4)):
        r.append(ob('Kronecker product %dx%d, %dx%d' % s, 'M', kron(*s)))
    for m, n in LARGE:
        nm = 'real %dx%d' % (m, n)
        for what, f in (('element-wise operators', ops), ('comparison', eq), ('transposes and parts', tr), ('products with vectors', mv)):
            r.append(ob('%s, %s' % (what, nm), 'K', f('d', m, n)))
        r.append(ob('quotients, ' + nm, 'K', div(m, n)))
    for m, n in ((4, 4), (5, 6)):
        for what, f in (('element-wise operators', ops), ('transposes and parts', tr), ('products with vectors', mv)):
            r.append(ob('%s, complex %dx%d' % (what, m, n), 'K', f('c', m, n)))
    for s in ((5, 5, 5), (5, 6, 7), (8, 8, 8), (1, 9, 1), (9, 1, 9), (3, 17, 2)):
        r.append(ob('matrix product %dx%d by %d' % s, 'K', mul('d', *s)))
    r.append(ob('complex matrix product 5x4 by 5', 'K', mul('c', 5, 4, 5)))
    for s in ((5, 2, 2, 5), (1, 7, 6, 1), (4, 4, 3, 3)):
        r.append(ob('Kronecker product %dx%d, %dx%d' % s, 'K', kron(*s)))
    for t in 'dc':
        for m in (5, 7, 8, 9, 17):
            r.append(ob('trace, %s %d' % (t, m), 'L', trace(t, m)))
    for m, n in CS:
        r.append(ob('norms %dx%d' % (m, n), 'M', norm(m, n), hooks=[(r'algebra::abs<double>\(double\)', abs_named)], timeout=120, maxpaths=200000))
    return r
