"""what the constants of a field have to satisfy (textbook definitions)"""
import sympy


class Tower:
    """numeric arithmetic in F_p[x]/(x^n-nr) towers, elements are nested tuples"""

    def __init__(s, p, base=None, n=1, nr=None):
        s.p, s.base, s.n, s.nr = p, base, n, nr
        s.rank = 1 if base is None else n * base.rank
        s.zero = 0 if base is None else (base.zero,) * n
        s.one = 1 if base is None else (base.one,) + (base.zero,) * (n - 1)

    def add(s, a, b):
        return (a + b) % s.p if s.base is None else tuple(s.base.add(x, y) for x, y in zip(a, b))

    def mul(s, a, b):
        if s.base is None:
            return a * b % s.p
        B, n = s.base, s.n
        r = [B.zero] * (2 * n - 1)
        for i in range(n):
            for j in range(n):
                r[i + j] = B.add(r[i + j], B.mul(a[i], b[j]))
        for k in range(2 * n - 2, n - 1, -1):
            r[k - n] = B.add(r[k - n], B.mul(s.nr, r[k]))
        return tuple(r[:n])

    def pow(s, a, e):
        if s.base is None:
            return pow(a, e, s.p)
        r = s.one
        while e:
            if e & 1:
                r = s.mul(r, a)
            e >>= 1
            if e:
                a = s.mul(a, a)
        return r

    def order(s):
        return s.p ** s.rank

    def flat(s, a):
        return [a] if s.base is None else [y for x in a for y in s.base.flat(x)]

    def unflat(s, l):
        if s.base is None:
            return l[0] % s.p
        k = s.base.rank
        return tuple(s.base.unflat(l[i * k:(i + 1) * k]) for i in range(s.n))

    def gen(s):
        return (s.base.zero, s.base.one) + (s.base.zero,) * (s.n - 2)

    def embed(s, x):
        return (x,) + (s.base.zero,) * (s.n - 1)


def tower(p, kind, nrs):
    """kind as in the library; nrs: values of the non-residues of the levels (flat lists)"""
    F = Tower(p)
    if kind == 'prime':
        return F
    if kind == 'fp2':
        return Tower(p, F, 2, nrs['fp2'][0] % p)
    if kind == 'fp3':
        return Tower(p, F, 3, nrs['fp3'][0] % p)
    if kind == 'fp4':
        f2 = Tower(p, F, 2, nrs['fp4'][0] % p)
        return Tower(p, f2, 2, f2.gen())
    if kind == 'fp6_2over3':
        f3 = Tower(p, F, 3, nrs['fp6_2over3'][0] % p)
        return Tower(p, f3, 2, f3.gen())
    f2 = Tower(p, F, 2, nrs['fp2'][0] % p)
    f6 = Tower(p, f2, 3, f2.unflat(nrs[kind]))
    if kind == 'fp6_3over2':
        return f6
    return Tower(p, f6, 2, f6.gen())


def lst(x):
    return x if isinstance(x, list) else [x]


def odd_part(n):
    s = 0
    while n % 2 == 0:
        n //= 2
        s += 1
    return s, n


def small_factors(n, bound=1 << 16):
    r = []
    for q in sympy.primerange(2, bound):
        if n % q == 0:
            r.append(q)
            while n % q == 0:
                n //= q
    return r, n


def check_tables(kind, p, T, d, req, pre):
    """non-residue and Frobenius tables of one extension"""
    top = T
    nr = T.nr
    B = T.base
    q = B.order()
    req(pre + 'the defining polynomial is irreducible', B.pow(nr, (q - 1) // T.n) != B.one)
    if T.n == 3:
        req(pre + 'cube roots of unity exist below', (q - 1) % 3 == 0)
    # root^(p^i) = coeff * root
    k = {'fp2': (2, 'fp'), 'fp3': (3, 'fp'), 'fp4': (4, 'fp'), 'fp6_2over3': (6, 'fp'), 'fp6_3over2': (3, 'fp2'), 'fp12_2over3over2': (6, 'fp2')}[kind]
    # the innermost non-residue and the degree of the root over it
    L = T
    while L.base is not None and L.base.rank > (1 if k[1] == 'fp' else 2):
        L = L.base
    xi, lv = L.nr, L.base
    for name, e in (('Frobenius_coeffs_c1', 1), ('Frobenius_coeffs_c2', 2)):
        if name not in d:
            continue
        c = lst(d[name])
        w = lv.rank
        cnt = len(c) // w
        for i in range(cnt):
            ex = e * (p ** i - 1)
            req(pre + '%s[%d]' % (name, i), ex % k[0] == 0 and lv.flat(lv.unflat([x % p for x in c[i * w:(i + 1) * w]])) == lv.flat(lv.pow(xi, ex // k[0])))
        req(pre + name + ' is complete', cnt >= {'fp2': 2, 'fp3': 3, 'fp4': 4, 'fp6_2over3': 6, 'fp6_3over2': 6, 'fp12_2over3over2': 12}[kind])


def check_group(T, d, req, pre):
    """2-adic decomposition, generators, roots of unity over the field T"""
    p = T.p
    q = T.order()
    s, t = odd_part(q - 1)
    if 'group_order_minus_one_half' in d:
        req(pre + '(q-1)/2', d['group_order_minus_one_half'] == (q - 1) // 2)
    if 'group_order' in d:
        req(pre + 'group order', d['group_order'] in (q - 1, (q - 1) // 2))
    if 's' in d:
        req(pre + '2-adicity', d['s'] == s)
    if 't' in d:
        req(pre + 'odd part', d['t'] == t)
    if 't_minus_1_over_2' in d:
        req(pre + '(t-1)/2', d['t_minus_1_over_2'] == (t - 1) // 2)
    g = d.get('multiplicative_generator', d.get('mul_generator'))
    if g is not None:
        fs, _ = small_factors(q - 1)
        for f in fs:
            req(pre + 'multiplicative generator is not a %d-th power' % f, T.pow(g % p, (q - 1) // f) != T.one)
    if 'root_of_unity' in d:
        r = T.unflat(lst(d['root_of_unity']))
        req(pre + 'primitive 2^s-th root of unity', T.pow(r, 2 ** s) == T.one and T.pow(r, 2 ** (s - 1)) != T.one)
    if 'nqr' in d:
        n = T.unflat(lst(d['nqr']))
        req(pre + 'quadratic non-residue', T.pow(n, (q - 1) // 2) != T.one and n != T.zero)
        if 'nqr_to_t' in d:
            req(pre + 'nqr^t', T.unflat(lst(d['nqr_to_t'])) == T.pow(n, t))
    elif 'nqr_to_t' in d:
        r = T.unflat(lst(d['nqr_to_t']))
        req(pre + 'nqr^t has order 2^s', T.pow(r, 2 ** (s - 1)) != T.one and T.pow(r, 2 ** s) == T.one)
    R = 1 << (64 * ((p.bit_length() + 63) // 64))
    if 'Rsquared' in d:
        req(pre + 'Rsquared', d['Rsquared'] == R * R % p)
    if 'Rcubed' in d:
        req(pre + 'Rcubed', d['Rcubed'] == R * R * R % p)
    for k in ('arithmetic_generator', 'geometric_generator'):
        if k in d:
            req(pre + k.replace('_', ' ') + ' is a non-zero residue', 0 < d[k] < p)


def check_field(d, req, prime_bits=True):
    p = d['modulus']
    req('modulus is an odd prime', p > 2 and sympy.isprime(p))
    req('modulus_bits', d['modulus_bits'] == p.bit_length())
    if 'number_bits' in d:
        req('number_bits', d['number_bits'] == d['modulus_bits'])
