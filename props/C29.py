"""Random elements of fields and groups."""
from vc.engine import Ob, TU
from vc.codec import CodecDomain
from .codec_common import HOOKS
from . import C20
ASSUMPTIONS = ['the distribution hands out integers of the range it was made for, independent of one another (a stand-in that records its range and the number of draws)',
               'conversion of a residue to its canonical integer and back (contract of the multiprecision library)']
HC = 'nil/crypto3/algebra/curves/'
GROUPS = [('bls12<381>', 'bls12'), ('bls12<377>', 'bls12'), ('alt_bn128<254>', 'alt_bn128'), ('mnt4<298>', 'mnt4'), ('mnt6<298>', 'mnt6')]
ONE = [('pallas', 'pallas'), ('vesta', 'vesta'), ('secp_r1<256>', 'secp_r1'), ('jubjub', 'jubjub'), ('babyjubjub', 'babyjubjub'), ('ed25519', 'ed25519')]


class Field:
    def __init__(s, F):
        s.name, s.p, s.rank = F.name, F.p, F.rank
        s.tu = TU('random.cpp', list(F.tu.defs) + (['-DEXTENDED'] if F.rank > 1 else []), name='rnd_' + F.name)
        s.nl = (F.p.bit_length() + 63) // 64


def draws(fn, rank):
    def f(c):
        v = [c.var('a%d' % i) for i in range(rank)]
        o, io = c.call(fn, v, nout=rank, niout=3)
        c.require_true('one draw for every coordinate', io[0] == rank)
        c.require_true('draws start at zero', io[1] == rank)
        c.require_true('draws end below the modulus', io[2] == rank)
        if c.concrete:
            c.require_true('the coordinates are the numbers drawn', sorted(c.cv(x) for x in o) == sorted(c.cv(x) for x in v))
            return
        left = list(v)
        for i, x in enumerate(o):
            k = [j for j, y in enumerate(left) if not c.facts.norm(x - y).d]
            c.require_true('coordinate %d is a number drawn for it alone' % i, bool(k))
            del left[k[0]]
    return f


def mock(c):
    s = c.var('s')
    g = c.var('g')
    o, io = c.call('h_mock', [s, g], nout=1, niout=3)
    c.require('multiple of the generator', o[0] - s * g)
    c.require_true('one draw below the order', tuple(io) == (1, 1, 1))


def group(c):
    o, io = c.call('h_group', [c.var('s')] * 2, niout=4)
    c.require_true('one draw below the order', tuple(io[:3]) == (1, 1, 1))
    c.require_true('the multiple of the generator', io[3] == 1)


def obligations(tier):
    L = []
    for F in C20.fields():
        if 'through' in F.name:
            continue
        F = Field(F)
        kw = dict(nl=F.nl, prime=F.p, domain=CodecDomain, hooks=HOOKS, trials=10 if tier == 'quick' else 200)
        if F.rank == 1:
            L.append(Ob(F.name + ' as order of a group: multiple of the generator', F.tu, mock, **kw))
        L.append(Ob(F.name + ': the distribution given', F.tu, draws('h_rand', F.rank), **kw))
        L.append(Ob(F.name + ': uniform distribution', F.tu, draws('h_default', F.rank), **kw))
    for c, h in GROUPS + ONE:
        for g in ('g1_type', 'g2_type')[:2 if (c, h) in GROUPS else 1]:
            tu = TU('random.cpp', ['-DHDR=<%s%s.hpp>' % (HC, h), '-DCURVE=curves::' + c, '-DGROUP=curves::%s::%s<>' % (c, g)], name='rnd_%s_%s' % (c.replace('<', '_').replace('>', ''), g))
            L.append(Ob('%s %s: the multiple of the generator' % (c, g), tu, group, symbolic=False, bounded='native evaluations', elout=False, trials=3 if tier == 'quick' else 50))
    return L
