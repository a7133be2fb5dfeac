"""Multi-exponentiation: shared by C17 and C18."""
import z3
from vc.engine import Ob, TU, Wide
from vc.llvmir import Ptr
from vc.poly import Infeasible
from vc.machine import Fail, Unsupported
from vc.loops import GroupDomain, GVal, GPart, SInt, ZI, isz
from vc.grouphooks import additive, INTHOOKS, is_group
from .curves_common import Curve
from .C12 import add, times

R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001      # order of the scalar field used by the harness
NL = 4
TUM = TU('multiexp.cpp', name='multiexp')


def scalar_at(m, p):
    v = m.domain.get(p, NL)
    return m.domain.int(v)


def h_scalar_mul(m, args, name):
    """scalar * point, point * scalar (C12)"""
    out, x, y = args
    if not is_group(m, x):
        x, y = y, x
    d = m.domain
    d.gwrite(m, out, 3, d.gscale(d.gread(m, x, 3), scalar_at(m, y)))


def h_opt_window(m, args, name):
    """opt_window_wnaf_exp(base, scalar, bits) (C18)"""
    d = m.domain
    d.gwrite(m, args[0], 3, d.gscale(d.gread(m, args[1], 3), scalar_at(m, args[2])))


SMUL = [(r'nil::crypto3::algebra::curves::detail::operator\*<', h_scalar_mul)]
OPTW = [(r'nil::crypto3::algebra::opt_window_wnaf_exp<', h_opt_window)]
HOOKS = INTHOOKS + additive(3)


def curve(c):
    return Curve(c, 1)


def points(c, C, n):
    """n concrete points, some neutral, some repeated, some normalised"""
    ps, rs = [], []
    for i in range(n):
        k = c.choose(8, 'kind of point')
        P = None if k == 7 else ps[c.choose(len(ps))] if k == 6 and ps else C.point(str(i), True)
        ps.append(P)
        rs += C.rep(P, 'one' if P is not None and c.choose(2, 'normalised') else 'p%d' % i)
    return ps, rs


def scalars(c, n):
    """n scalars of the field, small, equal, zero and one ones among them"""
    ss = []
    for i in range(n):
        v = c.bigint('s%d' % i, 256) % R
        k = c.choose(10, 'kind of scalar')
        if k == 0:
            v = 0
        elif k == 1:
            v = 1
        elif k == 2:
            v = R - 1 - v % 5
        elif k == 3 and ss:
            v = ss[-1]
        elif k < 7:
            v %= 1 << (1 + v % 23)
        ss.append(v)
    return ss


def total(C, ps, ss):
    r = None
    for P, s in zip(ps, ss):
        r = add(C, r, times(C, P, s))
    return r


def sym_scalar(c, name):
    t = c.bigint(name)
    c.domain.assume(t.t < R)
    return t
