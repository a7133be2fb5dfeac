"""Vector algebra."""
from .linalg_common import *
from vc.realdom import abs_named, min_named, max_named
from vc.realiter import sqrt_contract, Extremum


def ops(t, n):
    def f(c):
        a, b, s = tvec(c, t, n, 'a'), tvec(c, t, n, 'b'), scalar(c, t, 's')
        k = 1 if t == 'd' else 2
        o, _ = c.call('v_ops_%s_%d' % (t, n), parts(a + b + [s], t), nout=6 * n * k)
        r = Rd(c, o)
        r.eq('sum', parts([x + y for x, y in zip(a, b)], t))
        r.eq('vector plus scalar', parts([x + s for x in a], t))
        r.eq('scalar plus vector', parts([s + x for x in a], t))
        r.eq('vector times scalar', parts([x * s for x in a], t))
        r.eq('scalar times vector', parts([s * x for x in a], t))
        r.eq('elementwise product', parts([x * y for x, y in zip(a, b)], t))
    return f


def div(n):
    def f(c):
        a, b, s = vec(c, n, 'a'), vec(c, n, 'b'), c.var('s')
        for x in b:
            c.assume_nonzero(x)
        o, _ = c.call('v_div_d_%d' % n, a + b + [s], nout=2 * n)
        r = Rd(c, o)
        r.eq('scalar by vector', [s * c.inv(x) for x in b])
        r.eq('elementwise quotient', [x * c.inv(y) for x, y in zip(a, b)])
    return f


def eq(t, n):
    def f(c):
        k = 1 if t == 'd' else 2
        a = vec(c, n * k, 'a')
        w = c.choose(n * k + 2)
        if w < n * k:
            b = list(a)
            d = c.var('d')
            c.assume_nonzero(d)
            b[w] = b[w] + d
        else:
            b = a if w == n * k else vec(c, n * k, 'b')
        _, io = c.call('v_eq_%s_%d' % (t, n), a + b, niout=2)
        e = int(all(c.is_zero(x - y) for x, y in zip(a, b)))
        c.require_true('equality', io[0] == e)
        c.require_true('inequality', io[1] == 1 - e)
    return f


def red(t, n):
    def f(c):
        k = 1 if t == 'd' else 2
        a, b = tvec(c, t, n, 'a'), tvec(c, t, n, 'b')
        o, _ = c.call('v_red_%s_%d' % (t, n), parts(a + b, t), nout=3 * k + n * k + 2 * n)
        r = Rd(c, o)
        r.eq('dot product', parts([add([x * cj(y) for x, y in zip(a, b)])], t))
        r.eq('sum', parts([add(a)], t))
        r.eq('conjugate', parts([cj(x) for x in a], t))
        r.eq('real part', [x.re for x in a] if t == 'c' else a)
        r.eq('imaginary part', [x.im for x in a] if t == 'c' else [c.const(0)] * n)
        two = c.const(2) if t == 'd' else Cx(c.const(2), c.const(0))
        acc = c.const(3) if t == 'd' else Cx(c.const(3), c.const(0))
        for x in a:
            acc = acc * two - x
        r.eq('accumulation in order', parts([acc], t))
    return f


def ext(n):
    def f(c):
        a = vec(c, n, 'a')
        if n > 1 and c.choose(2):
            a[c.choose(n)] = a[0]        # ties
        o, io = c.call('v_ext_%d' % n, a, nout=2, niout=2)
        is_max(c, 'maximum', o[1], a)
        is_max(c, 'minimum', -o[0], [-x for x in a])
        for nm, i, v, s in (('minimum', io[0], o[0], 1), ('maximum', io[1], o[1], -1)):
            c.require_true('index of the %s is valid' % nm, 0 <= i < n)
            c.require('element at the index of the ' + nm, a[i] - v)
            for x in a[:i]:
                c.require_true('first index of the ' + nm, c.sign(x - v) == s)
    return f


def extn(n, greatest):
    """any length: the running extremum by its loop contract, std::min and std::max by names"""
    nm, kind, s = ('maximum', 'max', 1) if greatest else ('minimum', 'min', -1)

    def f(c):
        a = vec(c, n, 'a')
        if c.concrete:
            if c.choose(2):
                a[c.choose(n)] = a[0]        # ties
            if c.choose(2):
                a[c.choose(n)] = a[n - 1]
        o, io = c.call('v_ext_%d' % n, a, [greatest], nout=1, niout=1)
        i = io[0]
        if c.concrete:
            is_max(c, nm, o[0] if greatest else -o[0], a if greatest else [-x for x in a])
        else:
            c.require_true(nm, c.domain.names_ext(kind, o[0], a))
        c.require_true('index of the %s is valid' % nm, isinstance(i, int) and 0 <= i < n)
        for j, x in enumerate(a):
            t = a[i] - x if greatest else x - a[i]
            if c.concrete:
                c.require_true('first index of the ' + nm, j == i or c.sign(t) > (0 if j < i else -1))
            else:
                c.require_true('first index of the ' + nm, j == i or c.domain.surely(t, '>' if j < i else '>='))
    return f


def absv(n):
    def f(c):
        a = vec(c, n, 'a')
        o, _ = c.call('v_abs_%d' % n, a, nout=n)
        c.require_eq('absolute values', o, [cabs(c, x) if n < 5 or c.concrete else c.domain.absname(x) for x in a])
    return f


def roots(n):
    """sqrt by its contract; one half of the harness at a time"""
    def f(c):
        half = 2 if c.concrete else c.choose(2)
        z = [c.const(0)] * n
        a, re, im = (vec(c, n, 'a') if half != 1 else z), (vec(c, n, 're') if half else z), (vec(c, n, 'im') if half else z)
        if c.concrete:
            a = [x * x for x in a]
        elif any(c.sign(x) < 0 for x in a):
            return
        o, _ = c.call('v_roots_%d' % n, a + [y for x in zip(re, im) for y in x], nout=2 * n)
        for x, y in zip(o[:n], a):
            c.require_true('root is not negative', c.sign(x) >= 0)
            c.require('square root', x * x - y if not c.concrete else (x * x - y) * (c.inv(y) if not c.is_zero(y) else c.const(1)))
        for x, y, z in zip(o[n:], re, im):
            c.require_true('modulus is not negative', c.sign(x) >= 0)
            q = y * y + z * z
            c.require('modulus', x * x - q if not c.concrete else (x * x - q) * (c.inv(q) if not c.is_zero(q) else c.const(1)))
    return f


def obligations(tier):
    r = []
    for n in (1, 2, 3, 4):
        for t in 'dc':
            nm = '%s %d' % ('real' if t == 'd' else 'complex', n)
            r.append(ob('element-wise operators, ' + nm, 'V', ops(t, n)))
            r.append(ob('comparison, ' + nm, 'V', eq(t, n)))
            r.append(ob('dot product, sum, conjugate, fold, ' + nm, 'V', red(t, n)))
        r.append(ob('square roots and moduli %d' % n, 'V', roots(n), hooks=[(r'algebra::sqrt\(double\)', sqrt_contract)], timeout=300))
        r.append(ob('quotients, real %d' % n, 'V', div(n)))
        r.append(ob('absolute value, real %d' % n, 'V', absv(n)))
        r.append(ob('extrema, real %d' % n, 'V', ext(n), timeout=600))
    for n in (5, 6, 7, 8, 9, 16, 17, 33):
        r.append(ob('element-wise operators, real %d' % n, 'L', ops('d', n)))
        r.append(ob('comparison, real %d' % n, 'L', eq('d', n)))
        r.append(ob('dot product, sum, conjugate, fold, real %d' % n, 'L', red('d', n)))
        r.append(ob('quotients, real %d' % n, 'L', div(n)))
        r.append(ob('absolute value, real %d' % n, 'L', absv(n), hooks=[(r'algebra::abs<double>\(double\)', abs_named)], trials=300))
        if n > 17:      # too many states
            for g in (0, 1):
                r.append(ob('%s and its index, real %d' % ('maximum' if g else 'minimum', n), 'L', extn(n, g), symbolic=False, bounded='native evaluations', trials=300))
            continue
        for g, nm, cut in ((0, 'minimum', 'least_so_far'), (1, 'maximum', 'greatest_so_far')):
            r.append(ob('%s and its index, real %d' % (nm, n), 'L', extn(n, g), hooks=[(r'std::min<double>\(', min_named), (r'std::max<double>\(', max_named)], trials=300,
                        cuts=lambda n=n, g=g, cut=cut: {cut: Extremum(n, 1 if g else -1)}, backend='induction (z3)', confirm=True, timeout=240))
    for n in (5, 7, 8, 9, 17):
        r.append(ob('element-wise operators, complex %d' % n, 'L', ops('c', n)))
        r.append(ob('dot product, sum, conjugate, fold, complex %d' % n, 'L', red('c', n)))
    return r
