"""Scalar mathematics."""
from .linalg_common import *
from vc import poly
from vc.realiter import IterDomain, Heron, Newton, power_contract, sqrt_contract
from vc.realpow import RealPow, PowerLoop
import math, z3
ASSUMPTIONS = ['floating point arithmetic is treated as exact real arithmetic',
               'that the iterations of sqrt and nthroot end is only seen on concrete numbers (bounded); abs of a complex number uses the contract of sqrt']


def power(n):
    def f(c):
        x = c.var('x')
        if c.concrete and abs(n) > 40:       # stay inside the range of double
            x = [c.const(1), c.const(-1), c.const(2), c.const(-2), c.inv(c.const(2))][c.rng.randrange(5)]
        if n < 0:
            c.assume_nonzero(x)
        o, _ = c.call('s_exp', [x], [n], nout=1)
        w = c.const(1)
        if abs(n) <= 1000:
            for _ in range(abs(n)):
                w = w * x
        if c.concrete:
            if not c.is_zero(x):
                c.require('power', o[0] * (c.inv(w) if n >= 0 else w) - c.const(1))
            return
        c.require('power', o[0] - (w if n >= 0 else c.inv(w)))
    return f


def any_power(sign):
    """every int exponent"""
    def f(c):
        n = c.bigint('n', 31)
        if c.concrete:
            if sign < 0 and n == 0:
                n = 1
            x = c.const(1) + c.const(c.rng.choice((-1, 1)) * c.rng.randrange(1, 5)) * c.inv(c.const(2 ** 24))
            if n < 500 and c.rng.random() < .5:
                x = [c.const(3), c.const(-2), c.inv(c.const(2)), c.const(-1)][c.rng.randrange(4)]
            o, _ = c.call('s_exp', [x], [sign * n], nout=1)
            v = c.cv(x)
            w = math.exp(sign * n * math.log(abs(v))) * (1 if v > 0 or n % 2 == 0 else -1)
            c.require_true('power', abs(c.cv(o[0]) / w - 1) < 2e-6)
            return
        d = c.domain
        d.assume(n.t < 2 ** 31 if sign > 0 else z3.And(n.t >= 1, n.t <= 2 ** 31))
        w = n.t if sign > 0 else -n.t
        d.scalar['want'] = w
        o, _ = c.call('s_exp', c.group('x', 1), [d.zi(w)], nout=1)
        c.require_group('power', o, {'x': w})
    return f


def unit_power(n):
    """x with x * x == 1"""
    def f(c):
        s = 1 if c.choose(2) else -1
        x = c.const(s)
        o, _ = c.call('s_exp', [x], [n], nout=1)
        c.require('power', o[0] - c.const(s ** (n & 1)))
    return f


def absolute(c):
    x = c.var('x')
    o, _ = c.call('s_abs', [x], nout=1)
    c.require_true('non-negative', c.sign(o[0]) >= 0)
    c.require('same magnitude', (o[0] - x) * (o[0] + x))


def absint(c):
    w = c.choose(6)
    a, b = [(0, 0), (1, -1), (-1, 1), (2 ** 31 - 1, -2 ** 63 + 1), (-2 ** 31 + 1, 2 ** 63 - 1), (-5, 7)][w]
    _, io = c.call('s_absi', [], [a, b], niout=2)
    c.require_true('absolute value of an int', io[0] == abs(a))
    c.require_true('absolute value of a long', io[1] == abs(b))


def absc(c):
    x, y = c.var('x'), c.var('y')
    if c.concrete and c.rng.random() < .5:
        x = x * c.const(3)
        y = x * c.const(4) * c.const(3).inv()
    o, _ = c.call('s_absc', [x, y], nout=1)
    c.require_true('non-negative', c.sign(o[0]) >= 0)
    c.require('modulus', o[0] * o[0] - x * x - y * y)


def conj(c):
    x, y = c.var('x'), c.var('y')
    o, _ = c.call('s_conj', [x, y], nout=3)
    c.require_eq('conjugate', o, [x, x, -y])


def sqrt(fn, box=None):
    def f(c):
        if not c.concrete:
            x = c.var('x')
            if c.sign(x) < 0:
                return
            box['cut'].x = x
            o, _ = c.call(fn, [x], nout=1)
            c.require('square of the root', o[0] * o[0] - x)
            c.require_true('non-negative', c.sign(o[0]) >= 0)
            return
        v = c.var('v')
        v = v if c.sign(v) >= 0 else -v
        k = c.const(2) ** [0, 1, 2, 3, 4, 5, 6, 7, 11, 50, 200, 450][c.choose(8 if fn == 's_sqrtf' else 12)]
        x = v * v * (k * k if c.choose(2) else c.inv(k * k))
        w = v * (k if not x.den and False else c.const(1))
        o, _ = c.call(fn, [x], nout=1)
        c.require_true('non-negative', c.sign(o[0]) >= 0)
        c.require('square of the root', (o[0] * o[0] - x) * (c.inv(x) if not c.is_zero(x) else c.const(1)))
    return f


def root_any(n, box):
    def f(c):
        if c.concrete:
            return root(c, n)
        x = c.var('x')
        if c.sign(x) < 0:
            return
        box['cut'].x = x
        o, _ = c.call('s_root', [x], [n], nout=1)
        w = c.const(1)
        for _ in range(n):
            w = w * o[0]
        c.require('power of the root', w - x)
        c.require_true('non-negative', c.sign(o[0]) >= 0)
    return f


def root(c, n=None):
    v = c.var('v')
    v = v if c.sign(v) >= 0 else -v
    n = n or 1 + c.choose(7)
    o, _ = c.call('s_root', [v], [n], nout=1)
    c.require_true('non-negative', c.sign(o[0]) >= 0)
    w = c.const(1)
    for _ in range(n):
        w = w * o[0]
    c.require('power of the root', (w - v) * (c.inv(v) if not c.is_zero(v) else c.const(1)))


def obligations(tier):
    r = []
    for n in list(range(-33, 34)) + [63, 64, 65, 100, 127, 128, 255, 256, 257, 500, -63, -64, -65, -100, -127, -128, -255]:
        r.append(ob('exponentiate %d' % n, 'S', power(n), trials=60))
    for n in (2 ** 31 - 1, 2 ** 31 - 2, -2 ** 31 + 1, -2 ** 31, 2 ** 30, 2 ** 30 + 1, 10 ** 9 + 7):
        r.append(ob('exponentiate %d of a unit' % n, 'S', unit_power(n), trials=20))
    for sign in (1, -1):
        r.append(ob('exponentiate, any %s exponent' % ('non-negative' if sign > 0 else 'negative'), 'S', any_power(sign), domain=RealPow, cuts=lambda: {'square_and_multiply': PowerLoop(sign)},
                    backend='induction (z3)', trials=400, confirm=True))
    r.append(ob('absolute value', 'S', absolute))
    r.append(ob('absolute value of integers', 'S', absint))
    r.append(ob('modulus of a complex number', 'S', absc, hooks=[(r'algebra::sqrt\(double\)', sqrt_contract)]))
    r.append(ob('conjugate', 'S', conj))
    # partial correctness by contract; that the iterations end is seen by the native runs only
    kw = dict(backend='induction (rational function identities, z3 nlsat)', confirm=True, timeout=60, domain=IterDomain)
    for name, fn, trials in (('square root', 's_sqrt', 3000), ('square root, single precision', 's_sqrtf', 1000)):
        box = {}

        def cuts(box=box):
            box['cut'] = Heron()
            return {'heron_iteration': box['cut']}
        r.append(ob(name, 'S', sqrt(fn, box), cuts=cuts, trials=trials, **kw))
    for n in range(1, 8):
        box = {}

        def cuts(box=box, n=n):
            box['cut'] = Newton(n)
            return {'newton_iteration': box['cut']}
        r.append(ob('nth root, n = %d' % n, 'S', root_any(n, box), cuts=cuts, trials=500, hooks=[(r'algebra::exponentiate\(double, int\)', power_contract)], **kw))
    r.append(ob('the root iterations end', 'S', ends, symbolic=False, bounded='native evaluations', trials=3000))
    return r


def ends(c):
    """native: the iterations end, with the root, for arguments of all magnitudes"""
    k = c.choose(3)
    v = (c.cv(c.var('v')) % 1000 + 1) * 2.0 ** (c.rng.randrange(-300, 300) if k else c.rng.randrange(-8, 8))
    v *= 1 + c.rng.random()
    n = c.choose(12) + 2
    o, _ = c.call('s_sqrt', [v], nout=1) if k == 1 else c.call('s_root', [v], [n], nout=1)
    n = 2 if k == 1 else n
    w = math.exp(math.log(v) / n)
    c.require_true('root', abs(float(c.cv(o[0])) / w - 1) < 1e-9)
