"""Edwards and twisted Edwards curves: the group law."""
from .curves_common import *
from . import C08

ASSUMPTIONS = ['the multiprecision library computes exact residues modulo p; the inverse of 0 is 0 (contracts of shim/)',
               'the Edwards law is complete: 1 +- d x1 x2 y1 y2 != 0 (a square and d a non-square); operands are points of the curve',
               'inverted coordinates: operands and results are the neutral element or have x y != 0 (the others have no such coordinates)',
               'extended_with_a_minus_1 mixed_add of different points: P - Q and P + Q are not of order 2 or 4 (documented restriction of the formula)',
               'the missing header forms/edwards/element_g1_affine.hpp is replaced by an empty one']
GS = [6, 7, 8, 10]


def obligations(tier):
    return C08.law(GS)
