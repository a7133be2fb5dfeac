from vc.engine import TU
from vc.towers import *
from vc import towers

FLAGS = {'F1': ['-DIS_F1'], 'F2': ['-DIS_F2', '-DHAS_SCAL1', '-DHAS_FROB'], 'F3': ['-DHAS_SCAL1', '-DHAS_FROB'],
         'F4': ['-DIS_F4', '-DHAS_CYCEXP', '-DHAS_UNITARY', '-DHAS_FROB', '-DHAS_MNR'],
         'F6a': ['-DIS_F6A', '-DHAS_CYCEXP', '-DHAS_SCAL1', '-DHAS_UNITARY', '-DHAS_FROB', '-DHAS_MNR'],
         'F6b': ['-DHAS_SCAL1', '-DHAS_SCAL2', '-DHAS_FROB', '-DHAS_MNR'],
         'F12': ['-DIS_F12', '-DHAS_CYCEXP', '-DHAS_SCAL1', '-DHAS_SCAL2', '-DHAS_SCAL6', '-DHAS_UNITARY', '-DHAS_FROB', '-DHAS_MNR']}
NAME = {'F1': 'Fp', 'F2': 'Fp2', 'F3': 'Fp3', 'F4': 'Fp4', 'F6a': 'Fp6(2 over 3)', 'F6b': 'Fp6(3 over 2)', 'F12': 'Fp12'}
ALL = list(FLAGS)
_tus = {}


def tu(ft):
    if ft not in _tus:
        _tus[ft] = TU('ext.cpp', ['-DFT=' + ft] + FLAGS[ft], name='ext_' + ft)
    return _tus[ft]


def split(R, o):
    k = R.rank
    return [R.unflat(o[i * k:(i + 1) * k]) for i in range(len(o) // k)]


def req(c, R, name, got, want):
    c.require_eq(name, R.flat(got), R.flat(want))
