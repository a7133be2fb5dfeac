"""Field element serialization round-trips."""
from .codec_common import *

ASSUMPTIONS = ['assumed contracts of the multiprecision library: export_bits writes the significant octets of the number (at least one) and nothing else, import_bits reads all octets, '
               'both lowest octet first when asked to; conversion to the canonical integer and back',
               'the integer type of a field holds the octets of an encoding (a multiple of 8 bits)']
W = 64


class Codec:
    def __init__(s, f, wrap=False):
        s.f = f
        s.name = f.name + (' through the curve' if wrap else '')
        d = [x for x in f.tu.defs if not x.startswith(('-DNLB', '-DCYC', '-DNO_GOMH', '-DAP', '-DEXT'))]
        if f.ext:
            d.append('-DHDR2=<nil/crypto3/algebra/fields/%s>' % f.ext)
        if wrap:
            d += ['-DWRAP'] + ([] if f.kind in ('fp2', 'fp6_3over2') else ['-DWRAPSIZE'])
        s.tu = TU('codec.cpp', d, name='codec_' + f.name + ('_wrap' if wrap else ''))
        s.p = rf.std_modulus(f)
        s.rank = 1 if f.kind == 'prime' else ps.tower(s.p, f.kind, rf.std_nrs(f)).rank
        s.w = (s.p.bit_length() + 7) // 8
        s.n = s.w * s.rank


def enc(F, vec):
    def f(c):
        e = [c.var('a%d' % i) for i in range(F.rank)]
        if c.concrete:
            e = [short(c, x) for x in e]
        old = [c.choose(256, 'old octet') if c.concrete else c.domain.var('old%d' % i, c.var('old%d' % i)) for i in range(F.n)]
        _, io = c.call('h_encv' if vec else 'h_enc', e, [F.n] + ([] if vec else old), niout=3 + F.n)
        c.require_true('number of octets returned', io[0] == F.n)
        c.require_true('number of octets of the field', io[1] == F.n and io[2] == F.n)
        for i in range(F.n):
            require_octet(c, 'octet %d' % i, io[3 + i], e[i // F.w], i % F.w, F.p)
    return f


def short(c, x):
    k = c.choose(6, 'length')
    return x if k < 3 else c.const(c.cv(x) >> c.choose(F_BITS, 'shift'))


F_BITS = 300


def dec(F, vec):
    def f(c):
        if c.concrete:
            v = []
            for i in range(F.rank):
                x = c.cv(c.var('a%d' % i))
                k = c.choose(8, 'kind of number')
                v.append(F.p if k == 0 else (F.p + x) % (1 << 8 * F.w) if k == 1 else (1 << 8 * F.w) - 1 if k == 2 else F.p - 1 if k == 3 else x)
            b = [(v[i // F.w] >> (8 * (i % F.w))) & 255 for i in range(F.n)]
            o, io = c.call('h_decv' if vec else 'h_dec', [], [F.n] + b, nout=F.rank, niout=1)
            c.require_true('validity', (io[0] & 1) == int(all(x < F.p for x in v)))
            if all(x < F.p for x in v):
                c.require_eq('decoded element', o, [c.const(x) for x in v])
            return
        d = c.domain
        b = [d.var(i, c.var('b%d' % i)) for i in range(F.n)]
        o, io = c.call('h_decv' if vec else 'h_dec', [], [F.n] + b, nout=F.rank, niout=1)
        from vc.codec import IntB, Less
        us = [IntB({k: b[i * F.w + k] for k in range(F.w)}) for i in range(F.rank)]
        ok = int(all(d.less_than_p(u) for u in us))
        got = d.less_than_p(io[0].u) if io[0].__class__ is Less else io[0] & 1
        c.require_true('validity', got == ok)
        if ok:
            c.require_eq('decoded element', o, [d.poly(u) for u in us])
    return f


def fields():
    for f in rf.all_fields():
        if f.nlb != 1152 or rf.std_modulus(f) is None:
            continue
        yield Codec(f)
        if f.name.startswith('bls12_381'):
            yield Codec(f, True)


def obligations(tier):
    r = []
    for F in fields():
        kw = dict(nl=(F.p.bit_length() + 63) // 64, prime=F.p, domain=CodecDomain, hooks=HOOKS, trials=20 if tier == 'quick' else 300, backend='polynomial identity')
        for vec in (False, True):
            r.append(Ob('%s: encoding%s' % (F.name, ', vector' if vec else ''), F.tu, enc(F, vec), **kw))
            r.append(Ob('%s: decoding of any octets%s' % (F.name, ', vector' if vec else ''), F.tu, dec(F, vec), **kw))
    return r
