"""the pairing policies of the library"""
from vc.engine import TU
from .paramspec import tower
from .realfields import STD, NR


class PC:
    def __init__(s, name, hdr, curve, k, kind, cls, fam, defs=(), form='jac'):
        s.name, s.hdr, s.curve, s.k, s.cls, s.form = name, hdr, curve, k, cls, form
        s.p, s.r = STD[fam]
        nrs = {}
        if (fam, 2) in NR:
            nrs['fp2'] = nrs['fp4'] = NR[fam, 2]
        if (fam, 3) in NR:
            nrs['fp3'] = nrs['fp6_2over3'] = NR[fam, 3]
        if (fam, 6) in NR:
            nrs['fp6_3over2'] = nrs['fp12_2over3over2'] = NR[fam, 6]
        s.nrs = nrs
        s.gt = tower(s.p, kind, nrs)
        s.e = {12: 2, 4: 2, 6: 3}[k]
        s.g2 = tower(s.p, 'fp%d' % s.e, nrs)
        s.nl = (s.p.bit_length() + 63) // 64
        s.defs = tuple(defs)
        # Miller loop count, from the definition of the (optimal) ate pairing
        if form == 'jac':
            s.loop = -0xd201000000010000
        elif form == 'bn':
            s.loop = 6 * 4965661367192848881 + 2
        elif form == 'mnt':
            s.loop = s.p - s.r
        else:
            s.loop = s.p - 4 * s.r
        s.tus = {}

    def tu(s, what):
        if what not in s.tus:
            s.tus[what] = TU('pairing.cpp', ['-DHDR=<nil/crypto3/algebra/pairing/%s.hpp>' % s.hdr, '-DCURVE=curves::' + s.curve, '-DP_' + what] + (['-DXIF'] if s.k == 12 else []) + (['-DNLB=4608'] if what == 'PP' else []) + list(s.defs), name='pairing_%s_%s' % (s.name, what))
        return s.tus[what]


CURVES = [PC('bls12_381', 'bls12', 'bls12<381>', 12, 'fp12_2over3over2', 'element_fp12_2over3over2', 'bls12_381'),
          PC('alt_bn128', 'alt_bn128', 'alt_bn128<254>', 12, 'fp12_2over3over2', 'element_fp12_2over3over2', 'alt_bn128_254', form='bn'),
          PC('mnt4', 'mnt4', 'mnt4<298>', 4, 'fp4', 'element_fp4', 'mnt4_298', ['-DP_MNT'], form='mnt'),
          PC('mnt6', 'mnt6', 'mnt6<298>', 6, 'fp6_2over3', 'element_fp6_2over3', 'mnt6_298', ['-DP_MNT'], form='mnt'),
          PC('edwards', 'edwards', 'edwards<183>', 6, 'fp6_2over3', 'element_fp6_2over3', 'edwards_183', ['-DP_ED'], form='ed')]
