"""Exponentiation computes the power, for every exponent."""
from vc.engine import Ob, Wide
from vc.poly import Infeasible
from vc.loops import GroupDomain
from vc.grouphooks import multiplicative, INTHOOKS
from .fields_common import *

ASSUMPTIONS = ['callees by their contracts: multiplication, squaring, one (C01), unitary inverse and cyclotomic squaring on the cyclotomic subgroup (C02, C03)',
               'assumed contracts of the multiprecision library: msb, bit_test, powm, and find_wnaf (odd digits |d| < 2^w or zero, the last one positive, sum d_i 2^i = n)',
               'exponents have fewer than 2^20 bits']
CLS = {'F2': 'element_fp2', 'F3': 'element_fp3', 'F4': 'element_fp4', 'F6a': 'element_fp6_2over3', 'F6b': 'element_fp6_3over2', 'F12': 'element_fp12_2over3over2'}
CYC = ('F4', 'F6a', 'F12')
class FieldPowers(GroupDomain):
    multiplicative = True


TR = [{'n': n} for n in (0, 1, 2, 3, 5, 6, 0b1011, 0b110010, 0b1001101, 0b1111111, 0b100000000, 0b10110111001, 0b1010101010101, 0b11011011101100001)]


def ipow(R, a, n):
    r = R.one
    while n:
        if n & 1:
            r = R.mul(r, a)
        n >>= 1
        if n:
            a = R.mul(a, a)
    return r


def cyclotomic(c, R, ft, a):
    """an element of the cyclotomic subgroup (p = 1 mod 12, tower of fields)"""
    p, one = c.prime, R.one
    nr = c.cv(c.syms[S_NR])
    if any(pow(nr, (p - 1) // q, p) == 1 for q in (2, 3)) or nr == 0:
        raise Infeasible()
    if ft == 'F12':
        K = R.base.base
        xi = R.base.nr
        if all(c.cv(x) == 0 for x in K.flat(xi)):
            raise Infeasible()
        for q in (2, 3):
            if all(c.cv(x) == c.cv(y) for x, y in zip(K.flat(ipow(K, xi, (p * p - 1) // q)), K.flat(K.one))):
                raise Infeasible()
    if all(c.cv(x) == 0 for x in R.flat(a)):
        raise Infeasible()
    e = {'F4': p * p - 1, 'F6a': (p ** 3 - 1) * (p + 1), 'F12': (p ** 6 - 1) * (p * p + 1)}[ft]
    return ipow(R, a, e)


def power(ft, fn, kind):
    def f(c):
        n = c.bigint('n', {'big': 1024, 'ull': 64, 'int': 32}[kind])
        if c.concrete:
            R = ring(c, ft)
            a = elem(c, R, 'a')
            if kind == 'big' and fn == 'h_cycexpbig':
                a = cyclotomic(c, R, ft, a)
            if kind == 'big':
                o, _ = c.call(fn, R.flat(a) + [Wide(n, 16)], nout=R.rank)
            else:
                o, _ = c.call(fn, R.flat(a), [n], nout=R.rank)
            req(c, R, 'power', R.unflat(o), ipow(R, a, n))
            return
        r = RANK[ft]
        g = c.group('a', r)
        if kind == 'big':
            o, _ = c.call(fn, g + [Wide(n, 16)], nout=r)
        else:
            o, _ = c.call(fn, g, [c.domain.limit(n, 32 if kind == 'int' else 64)], nout=r)
        c.require_group('the result is the n-th power', o, {'a': n.t})
    return f


def obligations(tier):
    r = []
    P = (13, 37, 61, 97, 109, 10009)
    for ft in ALL:
        hooks = INTHOOKS + (multiplicative(CLS[ft], RANK[ft], cyclo=ft in CYC) if ft in CLS else [])
        for fn, kind, what in (('h_powbig', 'big', 'pow with any exponent'), ('h_powull', 'ull', 'pow with a 64-bit exponent'), ('h_pow_int', 'int', 'pow with a 32-bit exponent'),
                               ('h_cycexpbig', 'big', 'cyclotomic_exp with any exponent')):
            if fn == 'h_cycexpbig' and ft not in CYC:
                continue
            r.append(Ob('%s: %s' % (NAME[ft], what), tu(ft), power(ft, fn, kind), domain=FieldPowers, hooks=hooks, traces=TR, elout=True, backend='induction (z3)',
                        primes=P, trials=40 if ft != 'F12' else 15))
    return r
