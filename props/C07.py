"""Constants of the fields: ground obligations over the values the compiler produces from the current source."""
from vc.engine import Ob
from .realfields import *
from .paramspec import *

ASSUMPTIONS = ['primality is decided by sympy.isprime (deterministic below 2^64, strong BPSW above)', 'constants are read from the compiled code of the current tree']


def field(f):
    def fn(c):
        def req(name, b):
            c.require_true(name, b)
        d = dump(c, 'h_field')
        p = d['modulus']
        sm = std_modulus(f)
        if sm:
            req('published modulus', p == sm)
        if f.kind == 'prime':
            check_field(d, req)
            dd = dict(d)
            g = dd.pop('mul_generator', None)
            dh = f.name.startswith(('ffdhe', 'modp'))
            if g is not None:
                if dh:
                    req('generator of a subgroup of large order', 1 < g < p - 1)
                else:
                    dd['multiplicative_generator'] = g
            T = Tower(p)
            check_group(T, dd, req, '')
        else:
            e = dump(c, 'h_ext')
            nrs = std_nrs(f)
            T = tower(p, f.kind, nrs)
            req('extension modulus', e['modulus'] == p)
            req('non-residue', [x % p for x in lst(e['non_residue'])] == [x % p for x in nrs[f.kind]])
            req('arity', d['arity'] == T.rank)
            req('value_bits', d['value_bits'] == T.rank * d['modulus_bits'])
            check_tables(f.kind, p, T, e, req, '')
            if f.kind in ('fp2', 'fp3'):
                check_group(T, e, req, '')
        if f.ap:
            a = dump(c, 'h_ap')
            if a.get('group_order_minus_one_half') == (p - 1) // 2 and f.kind != 'prime':
                a.pop('group_order_minus_one_half')       # inherited from the base field's parameters
            check_group(T, a, req, 'arithmetic parameters: ')
            req('arithmetic modulus', a['modulus'] == p)
    return fn


def obligations(tier):
    return [Ob(f.name, f.tu, field(f), nl=f.nl, elout=False, budget=80_000_000, trials=1, backend='ground evaluation') for f in all_fields()]
