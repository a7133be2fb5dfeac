"""Frobenius maps, conjugation, cyclotomic squaring."""
from vc.engine import Ob
from .fields_common import *
from . import realfields
from .paramspec import tower

ASSUMPTIONS = ['the multiprecision library computes exact residues modulo p (contracts of shim/)', 'Frobenius powers up to twice the degree plus one are enumerated']


def realfrob(f):
    p = realfields.std_modulus(f)
    nrs = realfields.std_nrs(f)
    T = tower(p, f.kind, nrs)
    from vc.spec import Fld, Ext

    basis = {}

    def bpow(i):
        """the images of the monomial basis under x -> x^(p^i), by repeated powering (the map has order T.rank)"""
        if i not in basis:
            if i == 0:
                basis[0] = [T.unflat([int(j == k) for j in range(T.rank)]) for k in range(T.rank)]
            else:
                basis[i] = [T.pow(b, p) for b in bpow(i - 1)]
        return basis[i]

    def fn(c):
        i = c.choose(2 * T.rank + 2, 'power')
        a = [c.var('a%d' % j) for j in range(T.rank)]
        o, _ = c.call('h_frob', a, [i], nout=T.rank)
        im = bpow(i % T.rank)
        want = [c.const(0)] * T.rank
        for j in range(T.rank):
            fl = T.flat(im[j])
            for k in range(T.rank):
                if fl[k]:
                    want[k] = want[k] + c.const(fl[k]) * a[j]
        c.require_eq('a -> a^(p^i)', o, want)
    return fn, p


def cycsq(ft):
    def fn(c):
        R = ring(c, ft)
        if c.concrete:
            raise_infeasible(c)
        a = elem(c, R, 'a')
        if ft == 'F4':
            B = R.base
            # norm one over the quadratic subfield
            n = B.sub(B.mul(a[0], a[0]), B.mul(R.nr, B.mul(a[1], a[1])))
            for e in B.flat(B.sub(n, B.one)):
                c.facts.add_equation(e)
        else:
            # a = sum a_k w^k over the field q below w, w^6 = xi; a^(q^2) * a = a^q is the membership condition of the
            # cyclotomic subgroup: sum_{i+j=k} a_i a_j z^(j-i) = a_k with z a primitive sixth root of unity
            K = R.base.base
            xi = R.base.nr if ft == 'F12' else None
            if ft == 'F6a':
                K = R.base.base
                xi = R.base.nr
            co = [None] * 6
            for h in (0, 1):
                for m in range(3):
                    co[2 * m + h] = a[h][m]
            tau = {0: 1, 1: 1, 2: -1, 3: -2, 4: -1, 5: 1}
            for k in range(6):
                s = K.neg(co[k])
                for i in range(6):
                    for j in range(i, 6):
                        if (i + j) % 6 == k:
                            t = K.mul(co[i], co[j])
                            if i + j >= 6:
                                t = K.mul(xi, t)
                            s = K.add(s, K.scal(tau[j - i], t))
                for e in K.flat(s):
                    c.facts.add_equation(e)
        o, _ = c.call('h_cycsq', R.flat(a), nout=R.rank)
        req(c, R, 'cyclotomic squaring = squaring', R.unflat(o), R.mul(a, a))
    return fn


def raise_infeasible(c):
    from vc.poly import Infeasible
    raise Infeasible()


def realcyc(f):
    """concrete elements of the cyclotomic subgroup of a real field (bounded confirmation)"""
    p = realfields.std_modulus(f)
    T = tower(p, f.kind, realfields.std_nrs(f))

    def fn(c):
        a = T.unflat([c.cv(c.var('a%d' % j)) for j in range(T.rank)])
        q = p ** (T.rank // 2)
        x = T.pow(a, q)                       # conjugate
        inv = T.pow(a, T.order() - 2)
        u = T.mul(x, inv)                     # norm one over the half field
        if T.rank > 4:
            e = p ** (T.rank // 6)
            u = T.mul(T.pow(u, e), u)
        o, _ = c.call('h_cycsq', [c.const(v) for v in T.flat(u)], nout=T.rank)
        c.require_eq('cyclotomic squaring = squaring', o, [c.const(v) for v in T.flat(T.mul(u, u))])
        c.require_eq
    return fn, p


def obligations(tier):
    r = []
    for ft in ('F4', 'F6a', 'F12'):
        r.append(Ob(NAME[ft] + ': cyclotomic squaring', tu(ft), cycsq(ft), native=False))
    for f in realfields.all_fields():
        if f.kind != 'prime':
            fn, p = realfrob(f)
            nl = (p.bit_length() + 63) // 64
            r.append(Ob(f.name + ': Frobenius', f.tu, fn, nl=nl, prime=p, trials=8))
            if f.kind in ('fp4', 'fp6_2over3', 'fp12_2over3over2'):
                fn, p = realcyc(f)
                r.append(Ob(f.name + ': cyclotomic squaring (sampled group elements)', f.tu, fn, nl=nl, prime=p, symbolic=False, trials=2 if tier == 'quick' else 20, bounded='sampled group elements, native only'))
    return r
