"""Obligations: each is a Python contract of a harness function that calls the real code.  The same contract is run
 (1) symbolically - over all paths, the postcondition has to be discharged by the polynomial decision procedure, and
 (2) concretely - against the natively compiled real code, to turn a failed obligation into a failing input."""
import os, resource, sys, json, time, fractions, subprocess, tempfile, random, ctypes, shutil, threading, traceback, signal, mmap, struct
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from . import poly
from .poly import Poly, El, Facts, Infeasible
from .llvmir import Module, Ptr, UNDEF
from .machine import Machine, Chooser, Fail, Unsupported, Budget, Obj, SYM, M64, SVal
from .domain import FieldDomain, Lift

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = ['clang++-18', '-std=c++17', '-O0', '-g1', '-fconstexpr-steps=500000000', '-fconstexpr-depth=4096', '-fbracket-depth=4096',
       '-ftemplate-depth=4096', '-w', '-fno-exceptions' if False else '-fexceptions', '-I' + os.path.join(VERIF, 'shim'),
       '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness')]


class Wide:
    """an integer operand wider than the field elements of the call"""
    __slots__ = ('v', 'nl')

    def __init__(s, v, nl):
        s.v = v
        s.nl = nl


class CompileError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise CompileError(' '.join(cmd) + '\n' + r.stdout[-4000:] + r.stderr[-8000:])
    return r


_work = None
_rt = None
_rt_lock = threading.Lock()


_wd_lock = threading.Lock()


def workdir():
    global _work
    with _wd_lock:
        if _work is None:
            _work = tempfile.mkdtemp(prefix='vcwork.')
        return _work


def cleanup():
    global _work
    if _work and os.path.isdir(_work):
        shutil.rmtree(_work, ignore_errors=True)
    _work = None


def runtime_obj():
    global _rt
    with _rt_lock:
        if _rt is None:
            o = os.path.join(workdir(), 'rt.o')
            sh(['g++', '-O1', '-std=c++17', '-fPIC', '-c', os.path.join(VERIF, 'vc', 'vc_runtime.cpp'), '-o', o])
            _rt = o
        return _rt


class TU:
    """one harness translation unit"""
    all = {}

    def __init__(s, src, defs=(), name=None):
        s.src = src
        s.defs = tuple(defs)
        s.key = name or (src.replace('.cpp', '') + ''.join('_' + d.replace('=', '').replace('-D', '') for d in defs))
        s.bc = s.so = None
        s.mod = None
        s.error = None

    def build(s, native=True):
        if s.bc:
            return s
        w = workdir()
        base = os.path.join(w, s.key)
        src = os.path.join(VERIF, 'harness', s.src)
        sh(CXX + list(s.defs) + ['-Xclang', '-disable-O0-optnone', '-fPIC', '-emit-llvm', '-c', src, '-o', base + '.0.bc'])
        sh(['opt-18', '-passes=mem2reg', base + '.0.bc', '-o', base + '.bc'])
        s.bc = base + '.bc'
        return s

    def native(s):
        """the same bitcode, compiled to machine code and linked with the executable contracts"""
        if s.so:
            return s.so
        base = os.path.join(workdir(), s.key)
        sh(['clang++-18', '-O1', '-fPIC', '-w', '-c', base + '.0.bc', '-o', base + '.o'])
        tmp = base + '.so'
        sh(['clang++-18', '-shared', '-Wl,-z,defs', base + '.o', runtime_obj(), '-o', tmp])
        s.so = tmp
        return tmp

    def module(s):
        if s.mod is None:
            s.mod = Module(s.bc)
        return s.mod


def build_all(tus, jobs=8):
    errs = []

    def one(t):
        try:
            t.build()
        except CompileError as e:
            t.error = str(e)
            errs.append((t, str(e)))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, tus))
    return errs


class Refuted(Exception):
    def __init__(s, what, detail=None):
        Exception.__init__(s, what)
        s.what = what
        s.detail = detail


class Ctx:
    concrete = False

    def __init__(s, ob):
        s.ob = ob
        s.discharged = []
        s.log = []
        s.syms = {}
        s.nl = ob.nl

    # shared helpers
    def const(s, n):
        return El(Poly.const(n))

    def inv(s, e):
        s.assume_nonzero(e)
        return e.inv()

    def vars(s, names, prio=0):
        return [s.var(n, prio) for n in names.split()]

    def sym(s, i, e):
        s.syms[i] = e if isinstance(e, El) else s.const(e)


class SymCtx(Ctx):
    def __init__(s, ob, machine, chooser, prime, run=None):
        Ctx.__init__(s, ob)
        s.machine = machine
        s.chooser = chooser
        s.prime = prime
        poly.reset(prime)
        s.facts = Facts(chooser.choose)
        s.domain = ob.domain(s.facts, s.syms, prime)
        s.domain.deadline = getattr(ob, 'deadline', None)
        s.machine_begun = False
        s.varnames = []
        s.calls = []
        s.last = None
        s.run = run

    def var(s, name, prio=0):
        s.varnames.append(name)
        return El(poly.newvar(name, prio))

    def real(s, name, prio=0):
        return s.var(name, prio)

    # exponents, scalars and abstract group elements (vc/loops.py)
    def bigint(s, name, bits=1024):
        return s.domain.newint(name, None if s.run is None else s.run[name])

    def group(s, name, n, one=None, kind=''):
        from .loops import GVal, GPart
        g = GVal({name: 1}, kind, one)
        return [GPart(g, i, n) for i in range(n)]

    def require_group(s, name, parts, want):
        from .loops import GVal
        g = s.domain.glookup(parts)
        if s.domain.geq(g, GVal(want)):
            s.discharged.append(name)
            return
        if s.run is None:
            s.domain.intmodel = s.domain.refute(g, GVal(want))
        raise Refuted(name, '%r instead of %r' % (g, GVal(want)))

    def choose(s, n, label=''):
        k = s.chooser.choose(n)
        s.log.append((label, k))
        return k

    def is_zero(s, e):
        return s.facts.is_zero(e)

    def sign(s, e):
        return s.domain.sign(e)

    def assume_zero(s, e):
        s.facts.assume_zero(e)

    def assume_nonzero(s, e):
        s.facts.assume_nonzero(e)

    def call(s, fn, nums=(), ints=(), nout=0, niout=0, nl=None, partial=False):
        nl = nl or s.nl
        m = s.machine
        if not s.machine_begun:
            m.begin(s.facts, s.domain)
            s.machine_begun = True
        s.last = fn
        s.calls.append((fn, list(nums), list(ints)))
        real = s.ob.real
        sz = 8 if real else 8 * (1 + nl)
        a = m.alloc(8 + sum(8 if real else 8 * (1 + v.nl) if v.__class__ is Wide else sz for v in nums), 'in')
        off = 0
        for i, v in enumerate(nums):
            if real:
                m.store(Ptr(a.o, i * 8), 8, v)
            elif v.__class__ is Wide:
                s.domain.put(Ptr(a.o, off), v.nl, v.v)
                off += 8 * (1 + v.nl)
            else:
                s.domain.put(Ptr(a.o, off), nl, v)
                off += sz
        o = m.alloc(sz * max(1, nout), 'out')
        ii = m.alloc(8 * max(1, len(ints)), 'iin')
        for i, v in enumerate(ints):
            m.store(Ptr(ii.o, 8 * i), 8, v & M64 if isinstance(v, int) else v)
        io = m.alloc(8 * max(1, niout), 'iout')
        m.call(fn, [a, o, ii, io])
        outs = []
        for i in range(nout):
            if partial and i * sz not in o.o.cells:
                outs.append(None)
                continue
            if real:
                v = m.load(Ptr(o.o, i * sz), 8, 3)
                if v is UNDEF:
                    raise Fail('undef', 'result left undefined')
                outs.append(s.domain.real(v))
                continue
            v = s.domain.get(Ptr(o.o, i * sz), nl)
            outs.append(s.domain.el(v) if s.ob.elout and not isinstance(v, SVal) else v)
        iouts = []
        for i in range(niout):
            v = m.load(Ptr(io.o, 8 * i), 8)
            if v is UNDEF:
                raise Fail('undef', 'result left undefined')
            if isinstance(v, int) and v >= 1 << 63:
                v -= 1 << 64
            iouts.append(v)
        return outs, iouts

    def require(s, name, e):
        if isinstance(e, int):
            e = s.const(e)
        if s.facts.provably_zero(e):
            s.discharged.append(name)
            return
        raise Refuted(name, e)

    def require_eq(s, name, got, want):
        for i, (g, w) in enumerate(zip(got, want)):
            s.require('%s[%d]' % (name, i) if len(got) > 1 else name, g - w)
        if len(got) != len(want):
            raise Refuted(name, 'length')

    def require_true(s, name, b):
        if b:
            s.discharged.append(name)
        else:
            raise Refuted(name, None)


class ConcCtx(Ctx):
    concrete = True

    def __init__(s, ob, prime, rng, env=None, choices=None, native=None):
        Ctx.__init__(s, ob)
        s.prime = prime
        poly.reset(prime)
        s.rng = rng
        s.env = env or {}
        s.native = native
        s.facts = Facts(lambda n: 0)
        s.values = {}
        s.choices = choices
        s.cpos = 0
        s.calls = []
        s.cnt = {}

    def var(s, name, prio=0):
        k = s.cnt[name] = s.cnt.get(name, 0) + 1
        key = name if k == 1 else '%s~%d' % (name, k - 1)
        if s.ob.real:
            if key in s.env:
                v = fractions.Fraction(float(fractions.Fraction(s.env[key])))
            else:
                r = s.rng.random()
                v = (fractions.Fraction(s.rng.choice([0, 0, 1, -1, 2, -2, 4])) if r < 0.4 else fractions.Fraction(s.rng.randrange(-9, 10)) if r < 0.8 else
                     fractions.Fraction(s.rng.randrange(-64, 65), 8) if r < 0.9 or not s.values else fractions.Fraction(s.rng.choice(list(s.values.values()))))
            s.values[key] = str(v)
            e = El(Poly.const(v.numerator))
            return e * El(Poly.const(v.denominator)).inv() if v.denominator != 1 else e
        if key in s.env:
            v = s.env[key]
        else:
            r = s.rng.random()
            p = s.prime
            v = s.rng.randrange(p) if r < 0.75 else s.rng.choice([0, 1, p - 1, 2 % p]) if r < 0.93 or not s.values else s.rng.choice(list(s.values.values()))
        s.values[key] = v
        return El(Poly.const(v))

    def real(s, name, prio=0):
        return s.var(name, prio)

    def bigint(s, name, bits=1024):
        if name in s.env:
            v = int(s.env[name])
        else:
            r = s.rng
            t = r.random()
            b = r.randrange(0, 12) if t < 0.4 else r.randrange(0, 80) if t < 0.7 else r.choice([63, 64, 65, 127, 128, 129, 255, 256]) if t < 0.8 else r.randrange(0, bits + 1)
            b = min(b, bits)
            t = r.random()
            v = r.getrandbits(b) if b else 0
            if t < 0.2:
                v = (1 << b) - 1
            elif t < 0.35:
                v = 1 << max(0, b - 1)
            elif t < 0.5 and b:
                v = (1 << (b - 1)) | (1 << r.randrange(b))
        s.values[name] = v
        return v

    def choose(s, n, label=''):
        if s.choices is not None and s.cpos < len(s.choices):
            k = s.choices[s.cpos][1] % n
        else:
            k = s.rng.randrange(n)
        s.cpos += 1
        s.log.append((label, k))
        return k

    def cv(s, e):
        if s.ob.real:
            n = fractions.Fraction(e.n.cval())
            return n / e.denpoly().cval() if e.den else n
        if e.den:
            d = e.denpoly()
            assert d.is_const()
            return e.n.cval() * pow(d.cval(), -1, s.prime) % s.prime
        assert e.n.is_const(), e
        return e.n.cval() % s.prime

    def is_zero(s, e):
        return s.cv(e) == 0

    def sign(s, e):
        v = s.cv(e)
        return (v > 0) - (v < 0)

    def off(s, e):
        v = s.cv(e)
        if s.ob.real:
            return abs(v) > fractions.Fraction(1, 10 ** 7)
        return v

    def assume_zero(s, e):
        if s.cv(e):
            raise Infeasible()

    def assume_nonzero(s, e):
        if not s.cv(e):
            raise Infeasible()

    def call(s, fn, nums=(), ints=(), nout=0, niout=0, nl=None, partial=False):
        nl = nl or s.nl
        ni = []
        for v in nums:
            ni.append(s.cv(v) if isinstance(v, El) else v)
        s.calls.append({'fn': fn, 'nums': [v.v if v.__class__ is Wide else v for v in ni], 'ints': list(ints)})
        outs, iouts = s.native.call(fn, ni, list(ints), nout, niout, nl, dict([(0, s.prime)] + [(i, s.cv(e) if isinstance(e, El) else e) for i, e in s.syms.items()]), s)
        s.calls[-1]['out'] = outs
        s.calls[-1]['iout'] = iouts
        return [(s.rconst(o) if s.ob.real else s.const(o)) if s.ob.elout else o for o in outs], iouts

    def rconst(s, o):
        e = El(Poly.const(o.numerator))
        return e * El(Poly.const(o.denominator)).inv() if o.denominator != 1 else e

    def require(s, name, e):
        if isinstance(e, int):
            e = s.const(e)
        if s.off(e):
            raise Refuted(name, 'residual %s mod %s' % (s.cv(e), s.prime))

    def require_eq(s, name, got, want):
        for i, (g, w) in enumerate(zip(got, want)):
            if s.off(g - w):
                raise Refuted('%s[%d]' % (name, i) if len(got) > 1 else name, 'got %s, contract %s mod %s' % (s.cv(g), s.cv(w), s.prime))
        if len(got) != len(want):
            raise Refuted(name, 'length')

    def require_true(s, name, b):
        if not b:
            raise Refuted(name, 'false')


class Native:
    """calls into the natively compiled harness"""

    def __init__(s, tu, journal=None):
        s.lib = ctypes.CDLL(tu.native())
        s.fns = {}
        s.journal = journal
        s.lastsyms = None

    def run(s, f, *a):
        if s.journal:
            t = int(time.process_time()) + 20
            resource.setrlimit(resource.RLIMIT_CPU, (t, resource.RLIM_INFINITY))
        f(*a)
        if s.journal:
            s.journal(None)
            resource.setrlimit(resource.RLIMIT_CPU, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))

    def call(s, fn, nums, ints, nout, niout, nl, syms, ctx):
        f = s.fns.get(fn)
        if f is None:
            f = s.fns[fn] = getattr(s.lib, fn)
            f.restype = None
        if ctx.ob.real:
            a = (ctypes.c_double * max(1, len(nums)))(*[float(x) for x in nums])
            o = (ctypes.c_double * max(1, nout))()
            ii = (ctypes.c_int64 * max(1, len(ints)))(*ints)
            io = (ctypes.c_int64 * max(1, niout))()
            if s.journal:
                s.journal({'fn': fn, 'nums': [str(x) for x in nums], 'ints': ints, 'syms': {}, 'prime': None, 'values': ctx.values, 'choices': ctx.log})
            s.run(f, a, o, ii, io)
            outs = []
            for i in range(nout):
                if o[i] != o[i] or o[i] in (float('inf'), float('-inf')):
                    raise Refuted('the result is a number', 'output %d is %r' % (i, o[i]))
                outs.append(fractions.Fraction(o[i]))
            return outs, list(io)[:niout]
        if syms != s.lastsyms:
            s.lastsyms = dict(syms)
            for i, v in syms.items():
                ls = (ctypes.c_uint64 * 32)(*[(v >> (64 * k)) & M64 for k in range(32)])
                s.lib.vc_rt_symbol(ctypes.c_uint64(i), ls, 32)
        w = 1 + nl
        a = (ctypes.c_uint64 * (1 + sum(1 + v.nl if v.__class__ is Wide else w for v in nums)))()
        off = 0
        for v in nums:
            n_ = nl
            if v.__class__ is Wide:
                n_, v = v.nl, v.v
            for k in range(n_):
                a[off + 1 + k] = (v >> (64 * k)) & M64
            off += 1 + n_
        nums = [v.v if v.__class__ is Wide else v for v in nums]
        o = (ctypes.c_uint64 * (w * max(1, nout)))()
        ii = (ctypes.c_int64 * max(1, len(ints)))(*[x if x < 1 << 63 else x - (1 << 64) for x in ints])
        io = (ctypes.c_int64 * max(1, niout))()
        if s.journal:
            s.journal({'fn': fn, 'nums': nums, 'ints': ints, 'syms': syms, 'prime': ctx.prime, 'values': ctx.values, 'choices': ctx.log})
        s.run(f, a, o, ii, io)
        outs = []
        for i in range(nout):
            t = o[i * w]
            v = sum(o[i * w + 1 + k] << (64 * k) for k in range(nl))
            if t:
                v = syms.get(t & ((1 << 56) - 1), v)
            outs.append(v)
        return outs, list(io)[:niout]


class Ob:
    """one contract.  fn(ctx): sets up inputs, calls the harness, states the postcondition."""

    def __init__(s, name, tu, fn, nl=1, prime=None, domain=FieldDomain, hooks=(), primes=(7, 11, 13, 31, 101, 10007), budget=4_000_000,
                 maxpaths=4000, elout=True, native=True, trials=None, bounded=None, timeout=240, backend='polynomial identity', fuzz_ok=None, symbolic=True, real=False, traces=None, confirm=False, cuts=None):
        s.traces = traces
        s.cuts = cuts               # loop contracts: {name of the annotation: invariant} (vc/cuts.py)
        s.confirm = confirm         # the native runs decide an alarm of the verifier: it may depend on how the code is written
        s.real = real
        s.name = name
        s.tu = tu
        s.fn = fn
        s.nl = nl
        s.prime = prime
        s.domain = domain
        s.hooks = list(hooks)
        s.primes = (None,) if real else primes if prime is None else (prime,)
        s.budget = budget
        s.maxpaths = maxpaths
        s.elout = elout
        s.native = native
        s.trials = trials
        s.bounded = bounded
        s.timeout = timeout
        s.backend = backend
        s.fuzz_ok = fuzz_ok
        s.symbolic = symbolic


def prove(ob):
    """symbolic run over all paths. Returns a result dict."""
    t0 = time.time()
    ob.deadline = t0 + ob.timeout
    res = {'name': ob.name, 'status': 'discharged', 'paths': 0, 'infeasible': 0, 'vcs': 0, 'bounded': ob.bounded, 'backend': ob.backend, 'steps': 0}
    if not ob.symbolic:
        res['status'] = 'nosymbolic'
        return res
    ch = Chooser()
    try:
        m = Machine(ob.tu.module(), ob.hooks, ob.budget)
    except Exception as e:
        res.update(status='unsupported', why='%s: %s' % (type(e).__name__, e))
        return res
    primes = set()
    covers = set()
    fails = []
    if ob.traces is not None:
        return prove_loops(ob, m, res, t0)
    if ob.cuts is not None:
        return prove_cuts(ob, m, res, t0)
    return prove_paths(ob, m, res, t0, ch)


def zeroed(ctx):
    """the coordinates assumed on the path: elements that are zero, tested coordinates"""
    return {**getattr(ctx.domain, 'cvals', {}), **{'%s%d' % (g, i): 0 for g in getattr(ctx.domain, 'zerogens', ()) for i in range(12)}}


def prove_loops(ob, m, res, t0):
    """conjecture loop invariants from concrete executions of the code, then prove with them"""
    from . import loops
    shared = {'data': {}, 'inv': {}, 'dropped': set()}
    ctl = loops.LoopCtl(shared)
    try:
        for run in ob.traces:
            ch = Chooser()
            while True:
                ch.pos = 0
                ctx = SymCtx(ob, m, ch, ob.prime, run)
                ctl.begin('trace', m, run)
                try:
                    ob.fn(ctx)
                except Infeasible:
                    pass
                if not ch.next():
                    break
    except (Fail, Refuted, Budget) as e:
        # a concrete execution of the code under the callee contracts already breaks the contract
        what = e.what if isinstance(e, Refuted) else 'safety: %s' % e
        res.update(status='failed', fails=[{'what': what, 'detail': '%s, with %s' % (getattr(e, 'detail', None), run), 'hyps': [], 'choices': list(ctx.log),
                                            'envs': [(p, dict(run, **zeroed(ctx))) for p in ob.primes[:3]], 'call': ctx.last}])
        return finish(ob, m, res, t0, set(), set(), res['fails'])
    except (Unsupported, OverflowError, RecursionError, NotImplementedError, MemoryError) as e:
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
        res.update(status='unsupported', why='%s: %s' % (type(e).__name__, str(e)[:300]))
        return finish(ob, m, res, t0, set(), set(), [])
    except Exception as e:
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
        res.update(status='unsupported', why='internal %s: %s' % (type(e).__name__, str(e)[:300]))
        return finish(ob, m, res, t0, set(), set(), [])
    for attempt in range(12):
        shared['inv'] = loops.infer(shared)
        shared['closed'] = 0
        res.update(paths=0, vcs=0, infeasible=0, status='discharged')
        try:
            r = prove_paths(ob, m, res, t0, Chooser(), ctl)
        except loops.InvFail as e:
            if os.environ.get('VC_DEBUG'):
                print('invariant', e)
            inv = shared['inv'][e.key]
            c = inv.locs.get(e.loc) if e.loc != 'bound' else None
            if c is None:
                res.update(status='unsupported', why='loop of %s: %s' % (m.mod.demangled().get(e.key[0], e.key[0])[:80], e))
                return finish(ob, m, res, t0, set(), set(), [])
            if c[0] == 'G':
                for g, x in c[1].items():
                    shared['dropped'].add((e.key, e.loc, g, x))
            else:
                shared['dropped'].add((e.key, e.loc, None, c[1]))
            continue
        r['loops'] = len(shared['inv'])
        r['inductive_steps'] = shared['closed']
        if os.environ.get('VC_DEBUG'):
            for k, inv in shared['inv'].items():
                print('loop', m.mod.demangled().get(k[0], k[0])[:100], 'bound', inv.bound, {l: c for l, c in inv.locs.items()})
        return r
    res.update(status='unsupported', why='no inductive invariant found')
    return finish(ob, m, res, t0, set(), set(), [])


def prove_cuts(ob, m, res, t0):
    from .cuts import CutCtl, Dirty
    ctl = CutCtl(ob.cuts(), set())
    m.install_hooks(ctl.hooks())
    for attempt in range(8):
        ctl.closed = ctl.opened = 0
        res.update(paths=0, vcs=0, infeasible=0, status='discharged')
        try:
            r = prove_paths(ob, m, res, t0, Chooser(), ctl)
        except Dirty:
            continue
        r['loops'] = len(ctl.cuts)
        r['inductive_steps'] = ctl.closed
        if r['status'] == 'discharged' and ctl.opened and not ctl.closed:
            r.update(status='unsupported', why='the loop contract was never reached twice')
        return r
    res.update(status='unsupported', why='the loop changes too much')
    return finish(ob, m, res, t0, set(), set(), [])


def prove_paths(ob, m, res, t0, ch, ctl=None):
    primes = set()
    covers = set()
    fails = []
    from .loops import PathDone, InvFail
    from .cuts import Dirty
    while True:
        if time.time() - t0 > ob.timeout:
            res.update(status='unsupported' if not fails else 'failed', why='time limit')
            break
        ch.pos = 0
        ctx = None
        try:
            ctx = SymCtx(ob, m, ch, ob.prime)
            if ctl is not None:
                ctl.start(m)
            ob.fn(ctx)
            if hasattr(ctx.domain, 'scalar') and not ctx.domain.feasible():
                raise Infeasible()
            res['paths'] += 1
            res['vcs'] += len(ctx.discharged)
            covers.update(l for l in ctx.log)
        except Infeasible:
            res['infeasible'] += 1
        except PathDone:
            res['paths'] += 1
            res['vcs'] += 1
        except (InvFail, Dirty):
            raise
        except (Fail, Refuted) as e:
            if hasattr(ctx.domain, 'scalar') and not ctx.domain.feasible():
                res['infeasible'] += 1
                if ch.next():
                    continue
                break
            what = e.what if isinstance(e, Refuted) else 'safety: %s' % e
            det = getattr(e, 'detail', None)
            envs = []
            rng = random.Random(1)
            for p in () if ob.real else ((ob.prime,) if ob.prime else (101, 10007, 31, 13, 1000003)):
                for _ in range(3):
                    try:
                        env = ctx.facts.sample(rng, p, tries=60) if p < 1 << 40 else None
                    except Exception:
                        env = None
                    if env:
                        envs.append((p, {poly.NAMES[i]: env[i] for i in range(len(env))}))
            if hasattr(ctx.domain, 'intmodel') or hasattr(ctx.domain, 'model'):
                im = getattr(ctx.domain, 'intmodel', None) or ctx.domain.model()
                if im:
                    envs += [(p, dict(im, **zeroed(ctx))) for p in ob.primes[:3]]
            if ob.real and hasattr(ctx.domain, 'models'):
                try:
                    fix = getattr(ctx.domain, 'fixenv', dict)
                    envs += [(None, fix(x)) for x in ctx.domain.models(rng, poly.NAMES)]
                except Exception:
                    if os.environ.get('VC_DEBUG'):
                        traceback.print_exc()
            fails.append({'what': what, 'detail': repr(det)[:1500] if det is not None else None, 'hyps': [(a, repr(b)[:200]) for a, b in ctx.facts.hyps][:20],
                          'choices': list(ctx.log), 'envs': envs[:8], 'call': ctx.last, 'weak': bool(getattr(ctx.domain, 'weak', False))})
            res['status'] = 'failed'
            if len(fails) >= 6:
                break
        except Budget as e:
            fails.append({'what': 'termination: ' + str(e), 'detail': None, 'hyps': [], 'choices': list(ctx.log), 'envs': [], 'call': ctx.last})
            res['status'] = 'failed'
            break
        except (Unsupported, OverflowError, RecursionError, NotImplementedError, MemoryError) as e:
            res.update(status='unsupported', why='%s: %s' % (type(e).__name__, str(e)[:300]))
            if os.environ.get('VC_DEBUG'):
                traceback.print_exc()
            break
        except Exception as e:
            res.update(status='unsupported', why='internal %s: %s' % (type(e).__name__, str(e)[:300]))
            if os.environ.get('VC_DEBUG'):
                traceback.print_exc()
            break
        primes |= poly.USED_PRIMES
        if res['paths'] + res['infeasible'] > ob.maxpaths:
            res.update(status='unsupported', why='more than %d paths' % ob.maxpaths)
            break
        if not ch.next():
            break
    return finish(ob, m, res, t0, primes, covers, fails)


def finish(ob, m, res, t0, primes, covers, fails):
    if res['status'] == 'discharged' and res['vcs'] == 0:
        res.update(status='unsupported', why='vacuous: no obligation generated')
    res['fails'] = fails
    if fails and res['status'] == 'unsupported':
        res['status'] = 'failed'
    res['covers'] = len(covers)
    res['primes'] = sorted(primes)
    dem = m.mod.demangled()
    res['touched'] = sorted({dem[t] for t in m.touched if 'nil::crypto3' in dem[t]})
    res['wall'] = round(time.time() - t0, 2)
    return res


def _fuzz_child(ob, seed, trials, deadline, cases, wfd, jpath):
    """runs in a forked child"""
    jf = open(jpath, 'wb')

    def journal(d):
        b = b'' if d is None else json.dumps(d, default=str).encode()
        jf.seek(0)
        jf.write(struct.pack('<I', len(b)) + b)
        jf.flush()
    nat = Native(ob.tu, journal)
    rng = random.Random(seed)
    n = 0
    infeas = 0
    out = None

    def attempt(p, env=None, choices=None):
        ctx = ConcCtx(ob, p, rng, env, choices, nat)
        try:
            ob.fn(ctx)
        except Infeasible:
            return None
        except Refuted as e:
            if isinstance(e.detail, str) or e.detail is None:
                pass
            return {'what': e.what, 'detail': str(e.detail), 'prime': p, 'values': ctx.values, 'choices': ctx.log, 'calls': ctx.calls,
                    'symbols': {i: (ctx.cv(v) if isinstance(v, El) else v) for i, v in ctx.syms.items()}}
        return False
    try:
        for p, env, choices in cases:
            r = attempt(p, env, choices)
            n += 1
            if r:
                out = r
                break
            # same choices, other values
            for _ in range(30):
                r = attempt(p, None, choices)
                n += 1
                if r:
                    out = r
                    break
            if out:
                break
        k = 0
        while not out and n < trials and time.time() < deadline:
            p = ob.primes[k % len(ob.primes)]
            k += 1
            r = attempt(p)
            if r is None:
                infeas += 1
                if infeas > 20 * trials:
                    break
                continue
            n += 1
            if r:
                out = r
        msg = {'n': n, 'infeasible': infeas, 'fail': out}
    except Exception as e:
        msg = {'n': n, 'error': traceback.format_exc()[-1500:]}
    os.write(wfd, json.dumps(msg, default=str).encode())
    os.close(wfd)


def fuzz(ob, seed=1, trials=300, seconds=20, cases=()):
    """concrete runs of the contract against the native code, in a child process"""
    ob.tu.native()
    r, w = os.pipe()
    jpath = os.path.join(workdir(), 'j%d_%d' % (os.getpid(), threading.get_ident()))
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            _fuzz_child(ob, seed, trials, time.time() + seconds, cases, w, jpath)
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    import select
    end = time.time() + seconds + 90
    timed = False
    while True:
        rl, _, _ = select.select([r], [], [], max(0.1, end - time.time()))
        if not rl:
            timed = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if buf:
        try:
            return json.loads(buf)
        except Exception:
            pass
    j = None
    try:
        with open(jpath, 'rb') as f:
            d = f.read()
            k = struct.unpack('<I', d[:4])[0]
            if not k:
                return {'n': 0, 'error': 'the child was ended outside a call'}
            j = json.loads(d[4:4 + k])
    except Exception:
        pass
    if j is None:
        return {'n': 0, 'error': 'child died before the first call'}
    cpu = os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU
    why = 'does not terminate' if timed or cpu else 'killed by signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
    return {'n': 0, 'fail': {'what': 'safety: the call ' + why, 'detail': why, 'prime': j['prime'], 'values': j['values'], 'choices': j['choices'],
                             'calls': [{'fn': j['fn'], 'nums': j['nums'], 'ints': j['ints']}], 'symbols': j['syms']}}
