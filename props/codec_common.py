"""Octet encodings: shared by C19 and C20."""
from vc.engine import Ob, TU, Refuted
from vc.poly import El, Poly, Infeasible
from vc.machine import Fail, Unsupported
from vc.codec import CodecDomain, Octet, Kept, HOOKS
from . import realfields as rf
from . import paramspec as ps


def require_octet(c, name, got, e, k, p):
    """got is octet k of the residue e"""
    if c.concrete:
        w = (c.cv(e) >> (8 * k)) & 255
        c.require_true(name, got & 255 == w)
        return
    w = c.domain.octet(e, k)
    if got.__class__ is Octet and w.__class__ is Octet and w.same(got) or got.__class__ is int and w.__class__ is int and got & 255 == w:
        c.discharged.append(name)
        return
    raise Refuted(name, '%r instead of octet %d of %r' % (got, k, e))
