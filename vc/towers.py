"""abstract towers of harness/absfield.hpp: symbol numbers and their specification rings"""
from .spec import Fld, Ext
S_P, S_NR, S_NR3, S_XI0, S_XI1, S_HALF, S_A, S_B, S_D, S_A2, S_B2, S_GX, S_GY, S_FC = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 14, 20
RANK = {'F1': 1, 'F2': 2, 'F3': 3, 'F4': 4, 'F6a': 6, 'F6b': 6, 'F12': 12}


def ring(c, name):
    """defines the symbols of the tower in the context and returns the ring"""
    F = Fld(c)
    if name == 'F1':
        return F
    nr = c.var('nr')
    c.sym(S_NR, nr)
    if name == 'F3':
        return Ext(F, 3, nr)
    if name == 'F6a':
        f3 = Ext(F, 3, nr)
        return Ext(f3, 2, f3.gen())
    f2 = Ext(F, 2, nr)
    if name == 'F2':
        return f2
    if name == 'F4':
        return Ext(f2, 2, f2.gen())
    xi = (c.var('xi0'), c.var('xi1'))
    c.sym(S_XI0, xi[0])
    c.sym(S_XI1, xi[1])
    f6 = Ext(f2, 3, xi)
    if name == 'F6b':
        return f6
    return Ext(f6, 2, f6.gen())


def elem(c, R, name):
    if c.concrete and c.rng and c.rng.random() < 0.15:
        # the special elements: zero, one, a unit vector, few coordinates
        k = c.rng.randrange(5)
        for i in range(R.rank):
            if k < 2 or k == 2 and i != c.rng.randrange(R.rank) or k == 3 and c.rng.random() < 0.7:
                c.env.setdefault('%s%d' % (name, i), int(k == 1 and i == 0))
    return R.unflat([c.var('%s%d' % (name, i)) for i in range(R.rank)])
