"""the concrete fields of the library"""
from vc.engine import TU

B = 'nil/crypto3/algebra/fields/'
ITEMS = ('modulus group_order_minus_one_half modulus_bits number_bits value_bits arity s t t_minus_1_over_2 arithmetic_generator geometric_generator '
         'multiplicative_generator root_of_unity nqr nqr_to_t Rsquared Rcubed group_order non_residue Frobenius_coeffs_c1 Frobenius_coeffs_c2 q p '
         'generator mul_generator').split()
MAXV = 40


class RF:
    def __init__(s, name, hdr, ty, kind='prime', ext=None, ap=None, nlb=1152, base=None, nog=False):
        s.name, s.hdr, s.ty, s.kind, s.ext, s.ap, s.nlb, s.base, s.nog = name, hdr, ty, kind, ext, ap, nlb, base, nog
        d = ['-DHDR=<%s%s>' % (B, hdr), '-DFIELD=%s' % ty, '-DNLB=%d' % nlb]
        if ext:
            d += ['-DEXT=<%s%s>' % (B, ext), '-DEXTP'] + (['-DCYC'] if kind in ('fp4', 'fp6_2over3', 'fp12_2over3over2') else [])
        if ap:
            d += ['-DAP=<%s%s>' % (B, ap)]
        if nog:
            d += ['-DNO_GOMH']
        s.tu = TU('params.cpp', d, name='params_' + name)
        s.nl = nlb // 64


def all_fields():
    L = []
    for fam, ver, ap, exts in (('bls12', 381, 1, ['fp2', 'fp6_3over2', 'fp12_2over3over2']), ('bls12', 377, 1, ['fp2', 'fp6_3over2', 'fp12_2over3over2']),
                               ('alt_bn128', 254, 1, ['fp2', 'fp6_3over2', 'fp12_2over3over2']), ('bn128', 254, 0, ['fp2']), ('mnt4', 298, 1, ['fp2', 'fp4']),
                               ('mnt6', 298, 1, ['fp3', 'fp6_2over3']), ('edwards', 183, 0, ['fp3', 'fp6_2over3'])):
        b = 'fields::%s_base_field<%d>' % (fam, ver)
        a = 'arithmetic_params/%s.hpp' % fam if ap else None
        n = '%s_%d' % (fam, ver)
        L.append(RF(n + '_base', fam + '/base_field.hpp', b, ap=a))
        L.append(RF(n + '_scalar', fam + '/scalar_field.hpp', 'fields::%s_scalar_field<%d>' % (fam, ver), ap=a))
        for e in exts:
            withap = e == 'fp2' or e == 'fp3'
            L.append(RF(n + '_' + e, fam + '/base_field.hpp', 'fields::%s<%s>' % (e, b), kind=e, ext=e + '.hpp', ap=a if withap else None, base=n + '_base'))
    for fam in ('pallas', 'vesta'):
        for k in ('base', 'scalar'):
            L.append(RF('%s_%s' % (fam, k), '%s/%s_field.hpp' % (fam, k), 'fields::%s_%s_field' % (fam, k), ap='arithmetic_params/%s.hpp' % fam, nog=True))
    for fam in ('jubjub', 'babyjubjub', 'curve25519'):
        for k in ('base', 'scalar'):
            L.append(RF('%s_%s' % (fam, k), '%s/%s_field.hpp' % (fam, k), 'fields::%s_%s_field' % (fam, k), ap='arithmetic_params/ed25519.hpp' if fam == 'curve25519' and k == 'base' else None, nog=True))
    L.append(RF('goldilocks64', 'goldilocks64/base_field.hpp', 'fields::goldilocks64_base_field', ap='arithmetic_params/goldilocks64.hpp', nog=True))
    L.append(RF('maxprime64', 'maxprime.hpp', 'fields::maxprime<64>'))
    for k in ('base', 'scalar'):
        for v in (160, 192, 224, 256, 384, 521):
            L.append(RF('secp_r1_%d_%s' % (v, k), 'secp/secp_r1/%s_field.hpp' % k, 'fields::secp_r1_%s_field<%d>' % (k, v)))
        for v in (160, 192, 224, 256):
            L.append(RF('secp_k1_%d_%s' % (v, k), 'secp/secp_k1/%s_field.hpp' % k, 'fields::secp_k1_%s_field<%d>' % (k, v)))
        L.append(RF('sect_k1_163_%s' % k, 'sect/sect_k1/%s_field.hpp' % k, 'fields::sect_k1_%s_field<163>' % k))
        L.append(RF('sm2p_v1_%s' % k, 'sm2p_v1/%s_field.hpp' % k, 'fields::sm2p_v1_%s_field<256>' % k))
    for v in (2048, 3072, 4096, 6144, 8192):
        L.append(RF('ffdhe_%d' % v, 'ffdhe_ietf.hpp', 'fields::ffdhe_ietf<%d>' % v, nlb=8256))
    for v in (1024, 1536, 2048, 3072, 4096, 6144, 8192):
        L.append(RF('modp_srp_%d' % v, 'modp_srp.hpp', 'fields::modp_srp<%d>' % v, nlb=8256))
    for v in (2048, 3072):
        L.append(RF('dsa_botan_%d' % v, 'dsa_botan.hpp', 'fields::dsa_botan<%d>' % v, nlb=8256))
    L.append(RF('dsa_jce_1024', 'dsa_jce.hpp', 'fields::dsa_jce<1024>', nlb=8256))
    return L


def dump(c, fn):
    """{item: int or list}"""
    o, io = c.call(fn, [], [], nout=MAXV * len(ITEMS), niout=len(ITEMS), partial=True)
    d = {}
    for k, it in enumerate(ITEMS):
        if io[k] == 1:
            d[it] = o[k * MAXV]
        elif io[k]:
            d[it] = o[k * MAXV:k * MAXV + io[k]]
    return d


# the published moduli of the pairing families
def _bls(x):
    r = x ** 4 - x ** 2 + 1
    return (x - 1) ** 2 * r // 3 + x, r


def _bn(x):
    return 36 * x ** 4 + 36 * x ** 3 + 24 * x ** 2 + 6 * x + 1, 36 * x ** 4 + 36 * x ** 3 + 18 * x ** 2 + 6 * x + 1


MNT4P = 475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081
MNT6P = 475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137
STD = {'bls12_381': _bls(-0xd201000000010000), 'bls12_377': _bls(0x8508c00000000001), 'alt_bn128_254': _bn(4965661367192848881), 'bn128_254': _bn(4965661367192848881),
       'mnt4_298': (MNT4P, MNT6P), 'mnt6_298': (MNT6P, MNT4P),
       'edwards_183': (6210044120409721004947206240885978274523751269793792001, 1552511030102430251236801561344621993261920897571225601),
       'pallas': (0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001, 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001),
       'vesta': (0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001, 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001),
       'curve25519': (2 ** 255 - 19, 2 ** 252 + 27742317777372353535851937790883648493),
       'jubjub': (_bls(-0xd201000000010000)[1], 0x0e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7),
       'babyjubjub': (_bn(4965661367192848881)[1], 2736030358979909402780800718157159386076813972158567259200215660948447373041),
       'goldilocks64': (2 ** 64 - 2 ** 32 + 1,) * 2,
       'secp_k1_256': (2 ** 256 - 2 ** 32 - 977, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141),
       'secp_r1_256': (2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551),
       'secp_r1_160': (2 ** 160 - 2 ** 31 - 1, 0x0100000000000000000001F4C8F927AED3CA752257),
       'secp_k1_160': (2 ** 160 - 2 ** 32 - 21389, 0x0100000000000000000001B8FA16DFAB9ACA16B6B3),
       'secp_k1_192': (2 ** 192 - 2 ** 32 - 4553, 0xFFFFFFFFFFFFFFFFFFFFFFFE26F2FC170F69466A74DEFD8D),
       'secp_k1_224': (2 ** 224 - 2 ** 32 - 6803, 0x010000000000000000000000000001DCE8D2EC6184CAF0A971769FB1F7),
       'secp_r1_192': (2 ** 192 - 2 ** 64 - 1, 0xFFFFFFFFFFFFFFFFFFFFFFFF99DEF836146BC9B1B4D22831),
       'secp_r1_224': (2 ** 224 - 2 ** 96 + 1, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF16A2E0B8F03E13DD29455C5C2A3D),
       'secp_r1_384': (2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973),
       'secp_r1_521': (2 ** 521 - 1, 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409)}
# first-level non-residues of the towers
NR = {('bls12_381', 2): [-1], ('bls12_377', 2): [-5], ('alt_bn128_254', 2): [-1], ('bn128_254', 2): [-1], ('mnt4_298', 2): [17], ('mnt6_298', 3): [5], ('edwards_183', 3): [61],
      ('bls12_381', 6): [1, 1], ('bls12_377', 6): [0, 1], ('alt_bn128_254', 6): [9, 1]}


def family(name):
    return name.rsplit('_', 1)[0] if name.split('_')[-1] in ('base', 'scalar') else name


def std_modulus(f):
    n = f.name
    for k in STD:
        if n == k or n.startswith(k + '_'):
            return STD[k][1 if n.endswith('_scalar') else 0]
    return None


def std_nrs(f):
    """non-residues of the tower of an extension field"""
    fam = f.base[:-5]
    r = {}
    if (fam, 2) in NR:
        r['fp2'] = r['fp4'] = NR[fam, 2]
    if (fam, 3) in NR:
        r['fp3'] = r['fp6_2over3'] = NR[fam, 3]
    if (fam, 6) in NR:
        r['fp6_3over2'] = r['fp12_2over3over2'] = NR[fam, 6]
    return r
