"""Symbolic executor for decoded LLVM bitcode.  One call of run() executes one path; every decision that the path
facts leave open goes through a chooser, and explore() enumerates all choices (each path is a set of verification
conditions: no abort, no out-of-bounds access, no undefined value used, and the postcondition of the contract)."""
import struct, sys, math, fractions, re
from .llvmir import Module, Ptr, FnRef, UNDEF, Undef
from .poly import Poly, El, Facts, Infeasible
from . import poly

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1
SYM = 0x56 << 56
T_FLOAT, T_DOUBLE, T_INT, T_STRUCT, T_ARRAY, T_PTR = 2, 3, 8, 10, 11, 12


class Fail(Exception):
    """the path violates a safety obligation"""

    def __init__(s, kind, msg):
        Exception.__init__(s, kind + ': ' + msg)
        s.kind = kind
        s.msg = msg


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('size', 'cells', 'name', 'ro', 'alive')

    def __init__(s, size, name, cells=None, ro=False):
        s.size = size
        s.cells = cells if cells is not None else {}
        s.name = name
        s.ro = ro
        s.alive = True

    def __repr__(s):
        return '<%s:%d>' % (s.name, s.size)


class SVal:
    """base of symbolic machine values handled by a plug-in domain"""
    __slots__ = ()


class Cat:
    """several cells moved through one register"""
    __slots__ = ('parts', 'n')

    def __init__(s, parts, n):
        s.parts = parts
        s.n = n


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Chooser:
    def __init__(s):
        s.trace = []
        s.pos = 0

    def choose(s, n):
        if n <= 1:
            return 0
        if s.pos < len(s.trace):
            k, m = s.trace[s.pos]
            s.pos += 1
            return k
        s.trace.append([0, n])
        s.pos += 1
        return 0

    def next(s):
        while s.trace:
            k, n = s.trace[-1]
            if k + 1 < n:
                s.trace[-1][0] = k + 1
                s.pos = 0
                return True
            s.trace.pop()
        return False


class Machine:
    def __init__(s, module, hooks=None, budget=4_000_000):
        s.mod = module
        s.budget = budget
        s.hook_src = hooks or []
        s.hooks = {}
        s.extern = dict(EXTERN)
        s.snapshot = {}
        s.touched = set()
        s.domain = None
        s.facts = None
        s.globals = {}
        s.steps = 0
        s.total_steps = 0
        s.ctors_done = False
        s.stack = []
        s.loopctl = None
        if s.hook_src:
            s.install_hooks(s.hook_src)

    def install_hooks(s, hooks):
        dem = s.mod.demangled()
        for pat, fn in hooks:
            rx = re.compile(pat)
            for m, d in dem.items():
                if rx.search(d):
                    s.hooks[m] = fn

    # -- paths ---------------------------------------------------------------------------
    def begin(s, facts, domain):
        s.facts = facts
        s.domain = domain
        domain.machine = s
        s.globals = {}
        s.steps = 0
        s.stack = []
        s.guards = set()
        if not s.ctors_done:
            s.ctors_done = True
            s.run_ctors()
            s.snapshot = {n: (o.size, dict(o.cells), o.ro) for n, o in s.globals.items()}
            s.globals = {}

    def run_ctors(s):
        if 'llvm.global_ctors' not in s.mod.globals:
            return
        _, cells, _ = s.mod.global_cells('llvm.global_ctors')
        for off, sz, v in cells:
            if isinstance(v, FnRef) and v.name in s.mod.fns and v.name not in s.mod.decl:
                try:
                    s.call(v.name, [])
                except Unsupported:
                    pass

    def gobj(s, name):
        name = name[1:]
        o = s.globals.get(name)
        if o is None:
            sn = s.snapshot.get(name)
            if sn is not None:
                o = Obj(sn[0], '@' + name, dict(sn[1]), sn[2])
            else:
                size, cells, ro = s.mod.global_cells(name)
                o = Obj(size, '@' + name, {off: (sz, v) for off, sz, v in cells}, ro)
            s.globals[name] = o
        return o

    def alloc(s, size, name='heap'):
        o = Obj(size, name)
        if s.loopctl is not None:
            s.loopctl.born(o, (name, tuple(s.stack)))
        return Ptr(o, 0)

    # -- memory --------------------------------------------------------------------------
    def deref(s, p, n, what):
        if p.__class__ is not Ptr:
            if isinstance(p, Undef):
                raise Fail('undef', '%s through an undefined pointer' % what)
            if isinstance(p, SVal):
                raise Unsupported('%s through %r' % (what, p))
            raise Fail('null', '%s through an invalid pointer %r' % (what, p))
        o = p.o
        if o.__class__ is str:
            o = s.gobj(o)
        off = p.off
        if off.__class__ is not int:
            raise Unsupported('symbolic address')
        if off < 0 or off + n > o.size:
            raise Fail('bounds', '%s of %d bytes at offset %d of %s (size %d)' % (what, n, off, o.name, o.size))
        if not o.alive:
            raise Fail('lifetime', '%s of a released object %s' % (what, o.name))
        return o, off

    def load(s, p, n, kind=T_INT):
        if p.__class__ is Ptr and p.o.__class__ is not str and p.o.__class__ is not Obj:
            return s.domain.symload(p, n)
        o, off = s.deref(p, n, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
        else:
            v = s.load_bytes(o, off, n)
        if kind == T_DOUBLE and v.__class__ is int:
            return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
        if kind == T_FLOAT and v.__class__ is int:
            return struct.unpack('<f', v.to_bytes(4, 'little'))[0]
        if kind == T_INT and v.__class__ is float:
            return int.from_bytes(struct.pack('<d' if n == 8 else '<f', v), 'little')
        return v

    def byte_cover(s, o, off):
        for b in range(off, off - 33, -1):
            c = o.cells.get(b)
            if c is not None:
                return (b, c) if b + c[0] > off else None
        return None

    def load_bytes(s, o, off, n):
        parts = []
        symbolic = False
        for b in range(off, off + n):
            c = o.cells.get(b)
            if c is not None:
                parts.append((b - off, c))
                if c[1].__class__ not in (int, float):
                    symbolic = True
        if symbolic and parts[0][0] == 0 and parts[-1][0] + parts[-1][1][0] <= n:
            return Cat(parts, n)
        r = 0
        k = 0
        while k < n:
            t = s.byte_cover(o, off + k)
            if t is None:
                return UNDEF
            b, (sz, v) = t
            if v.__class__ is float:
                v = int.from_bytes(struct.pack('<d' if sz == 8 else '<f', v), 'little')
            if v.__class__ is not int:
                if v is UNDEF:
                    return UNDEF
                raise Unsupported('partial read of a symbolic value')
            sh = off + k - b
            take = min(sz - sh, n - k)
            r |= ((v >> (8 * sh)) & ((1 << (8 * take)) - 1)) << (8 * k)
            k += take
        return r

    def clear(s, o, off, n):
        cells = o.cells
        if n <= 64:
            for b in range(off - 15, off):
                c = cells.get(b)
                if c is not None and b + c[0] > off:
                    s.split(o, b, c)
            for b in range(off, off + n):
                c = cells.get(b)
                if c is not None:
                    if b + c[0] > off + n:
                        s.split(o, b, c)
                    cells.pop(b, None)
        else:
            for b in [b for b in cells if b < off + n and b + cells[b][0] > off]:
                c = cells[b]
                if b < off or b + c[0] > off + n:
                    s.split(o, b, c)
                else:
                    del cells[b]
            for b in range(off, off + 16):
                cells.pop(b, None)
            for b in range(max(off, off + n - 16), off + n):
                cells.pop(b, None)

    def split(s, o, b, c):
        del o.cells[b]
        sz, v = c
        if v.__class__ is float:
            v = int.from_bytes(struct.pack('<d' if sz == 8 else '<f', v), 'little')
        for k in range(sz):
            o.cells[b + k] = (1, (v >> (8 * k)) & 255 if v.__class__ is int else UNDEF)

    def store(s, p, n, v):
        if p.__class__ is Ptr and p.o.__class__ is not str and p.o.__class__ is not Obj and hasattr(p.o, 'front'):
            s.domain.symstore(p, n, v)
            return
        o, off = s.deref(p, n, 'write')
        if o.ro:
            raise Fail('const', 'write to constant %s' % o.name)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            s.clear(o, off, n)
        if v.__class__ is Cat:
            if v.n != n:
                raise Unsupported('store of a composite value of another size')
            s.clear(o, off, n)
            for k, c in v.parts:
                cells[off + k] = c
            return
        cells[off] = (n, v)

    def memcpy(s, d, p, n):
        if n == 0:
            return
        if p.__class__ is Ptr and p.o.__class__ is not str and p.o.__class__ is not Obj:
            if n % 8:
                raise Unsupported('copy of a part of a word')
            for i in range(0, n, 8):
                s.store(Ptr(d.o, d.off + i), 8, s.domain.symload(Ptr(p.o, p.off + i), 8))
            return
        if d.__class__ is Ptr and hasattr(d.o, 'front'):
            if n % 8:
                raise Unsupported('copy of a part of a word')
            for i in range(0, n, 8):
                s.domain.symstore(Ptr(d.o, d.off + i), 8, s.load(Ptr(p.o, p.off + i), 8))
            return
        so, soff = s.deref(p, n, 'read')
        do, doff = s.deref(d, n, 'write')
        if do.ro:
            raise Fail('const', 'write to constant %s' % do.name)
        cells = so.cells
        items = []
        t = s.byte_cover(so, soff)
        if t and t[0] < soff:
            s.split(so, t[0], t[1])
        t = s.byte_cover(so, soff + n - 1)
        if t and t[0] + t[1][0] > soff + n:
            s.split(so, t[0], t[1])
        if n <= 8 * len(cells):
            for b in range(soff, soff + n):
                c = cells.get(b)
                if c is not None:
                    items.append((b - soff, c))
        else:
            for b, c in cells.items():
                if soff <= b < soff + n:
                    items.append((b - soff, c))
        s.clear(do, doff, n)
        dc = do.cells
        for b, c in items:
            dc[doff + b] = c

    def memset(s, d, v, n):
        if n == 0:
            return
        do, doff = s.deref(d, n, 'write')
        s.clear(do, doff, n)
        k = 0
        if v == 0:
            while k < n:
                t = 8 if (doff + k) % 8 == 0 and n - k >= 8 else (4 if (doff + k) % 4 == 0 and n - k >= 4 else 1)
                do.cells[doff + k] = (t, 0)
                k += t
        else:
            for k in range(n):
                do.cells[doff + k] = (1, v & 255)

    def load_agg(s, p, ty):
        L = s.mod.L
        k = L.LLVMGetTypeKind(ty)
        if k == T_STRUCT:
            return [s.load_agg(Ptr(p.o, p.off + L.LLVMOffsetOfElement(s.mod.dl, ty, i)), L.LLVMStructGetTypeAtIndex(ty, i))
                    for i in range(L.LLVMCountStructElementTypes(ty))]
        if k == T_ARRAY:
            et = L.LLVMGetElementType(ty)
            sz = s.mod.size(et)
            return [s.load_agg(Ptr(p.o, p.off + i * sz), et) for i in range(L.LLVMGetArrayLength(ty))]
        return s.load(p, s.mod.ssize(ty), k)

    def store_agg(s, p, v, ty):
        L = s.mod.L
        k = L.LLVMGetTypeKind(ty)
        if k == T_STRUCT:
            for i in range(L.LLVMCountStructElementTypes(ty)):
                s.store_agg(Ptr(p.o, p.off + L.LLVMOffsetOfElement(s.mod.dl, ty, i)), v[i] if v is not UNDEF else UNDEF, L.LLVMStructGetTypeAtIndex(ty, i))
        elif k == T_ARRAY:
            et = L.LLVMGetElementType(ty)
            sz = s.mod.size(et)
            for i in range(L.LLVMGetArrayLength(ty)):
                s.store_agg(Ptr(p.o, p.off + i * sz), v[i] if v is not UNDEF else UNDEF, et)
        else:
            s.store(p, s.mod.ssize(ty), v)

    # -- calls ---------------------------------------------------------------------------
    def call(s, name, args):
        h = s.hooks.get(name)
        if h is not None:
            r = h(s, args, name)
            if r is not NotImplemented:
                return r
        if name in s.mod.decl:
            h = s.extern.get(name)
            if h is None:
                if name.startswith('llvm.'):
                    base = '.'.join(name.split('.')[:2])
                    h = s.extern.get(base) or s.extern.get('.'.join(name.split('.')[:3]))
                if h is None:
                    dem = s.mod.demangled().get(name, name)
                    if dem.startswith('std::__throw'):
                        raise Fail('throw', dem)
                    raise Unsupported('external function ' + dem)
            return h(s, args)
        F = s.mod.fn(name)
        s.touched.add(name)
        if len(s.stack) > 400:
            raise Fail('recursion', 'call depth')
        s.stack.append(name)
        r = s.exec(F, args)
        s.stack.pop()
        return r

    def headers(s, F):
        from .loops import headers
        return headers(F)

    def truth(s, v, what='branch'):
        if v.__class__ is int:
            return v & 1
        if v is UNDEF:
            raise Fail('undef', '%s on an undefined value' % what)
        return int(s.domain.truth(v))

    def exec(s, F, args):
        R = list(F.template)
        R[:len(args)] = args
        blocks = F.blocks
        allocas = []
        prev = -1
        cur = 0
        ctl = s.loopctl
        if ctl is not None:
            hdr = s.headers(F)
            frame = {}
        while True:
            phis, body = blocks[cur]
            if phis:
                vals = [R[inc[prev]] for _, inc, _ in phis]
                for (dst, _, _), v in zip(phis, vals):
                    R[dst] = v
            if ctl is not None and cur in hdr:
                ctl.at_header(F, cur, prev, R, frame)
            s.steps += len(body)
            if s.steps > s.budget:
                raise Budget('instruction budget exceeded in ' + F.name)
            for I in body:
                op = I[0]
                if op == 'load':
                    _, dst, p, n, w, kind, ty, line = I
                    p = R[p]
                    if kind == T_STRUCT or kind == T_ARRAY:
                        R[dst] = s.load_agg(p, ty)
                        continue
                    v = s.load(p, n, kind)
                    if w and w < 8 and v.__class__ is int:
                        v &= (1 << w) - 1
                    R[dst] = v
                elif op == 'store':
                    _, v, p, n, kind, ty, line = I
                    if kind == T_STRUCT or kind == T_ARRAY:
                        s.store_agg(R[p], R[v], ty)
                        continue
                    s.store(R[p], n, R[v])
                elif op == 'gep':
                    _, dst, b, c, terms = I
                    b = R[b]
                    for t, sz, w in terms:
                        iv = R[t]
                        if iv.__class__ is not int:
                            if iv is UNDEF:
                                raise Fail('undef', 'undefined index')
                            if b.__class__ is Ptr and b.o.__class__ is not str and b.o.__class__ is not Obj:
                                c = c + s.domain.term(iv, w) * sz
                                continue
                            iv = s.domain.concretize(iv, w)
                        c += sgn(iv, w) * sz
                    if b.__class__ is Ptr:
                        R[dst] = Ptr(b.o, b.off + c)
                    elif b.__class__ is int:
                        R[dst] = (b + c) & M64
                    elif b is UNDEF:
                        R[dst] = UNDEF
                    else:
                        raise Unsupported('gep on %r' % (b,))
                elif op == 'call':
                    _, dst, callee, fp, a, byval, nd, line = I
                    args = [R[k] for k in a]
                    for k, sz in byval:
                        q = s.alloc(sz, 'byval')
                        s.memcpy(q, args[k], sz)
                        args[k] = q
                    if callee is None:
                        f = R[fp]
                        if f.__class__ is not FnRef:
                            raise Fail('call', 'call through an invalid pointer')
                        callee = f.name
                    R[dst] = s.call(callee, args)
                    if nd is not None:
                        prev, cur = cur, nd
                        break
                elif op == 'br':
                    prev, cur = cur, I[1]
                    break
                elif op == 'condbr':
                    v = R[I[1]]
                    if v.__class__ is not int:
                        v = s.truth(v)
                    prev, cur = cur, (I[2] if v & 1 else I[3])
                    break
                elif op == 'ret':
                    for q in allocas:
                        q.alive = False
                        if ctl is not None:
                            ctl.dead(q)
                    return R[I[1]] if I[1] is not None else None
                elif op == 'alloca':
                    n = R[I[3]]
                    q = Obj(I[2] * n, 'local of ' + F.name)
                    allocas.append(q)
                    if ctl is not None:
                        ctl.born(q, (F.name, I[1]))
                    R[I[1]] = Ptr(q, 0)
                elif op == 'icmp':
                    _, dst, pr, x, y, w, line = I
                    R[dst] = s.icmp(pr, R[x], R[y], w)
                elif op == 'bin':
                    _, dst, bop, x, y, w, nsw, line = I
                    R[dst] = s.bin(bop, R[x], R[y], w, nsw, F, line)
                elif op == 'cast':
                    _, dst, cop, x, wi, wo = I
                    R[dst] = s.cast(cop, R[x], wi, wo)
                elif op == 'fbin':
                    _, dst, bop, xs, line = I
                    R[dst] = s.fbin(bop, [R[x] for x in xs])
                elif op == 'fcmp':
                    _, dst, pr, x, y, line = I
                    R[dst] = s.fcmp(pr, R[x], R[y])
                elif op == 'select':
                    _, dst, xs = I
                    c = R[xs[0]]
                    if c.__class__ is not int:
                        c = s.truth(c, 'select')
                    R[dst] = R[xs[1]] if c & 1 else R[xs[2]]
                elif op == 'extractvalue':
                    v = R[I[2][0]]
                    for k in I[3]:
                        v = v[k] if v is not UNDEF else UNDEF
                    R[I[1]] = v
                elif op == 'insertvalue':
                    R[I[1]] = s.insert(R[I[2][0]], R[I[2][1]], I[3])
                elif op == 'switch':
                    v = R[I[1]]
                    if v.__class__ is not int:
                        raise Unsupported('switch on symbolic value')
                    t = I[2]
                    for c, b in I[3]:
                        if c == v:
                            t = b
                            break
                    prev, cur = cur, t
                    break
                elif op == 'unreachable':
                    raise Fail('unreachable', 'control reaches the end of ' + s.mod.demangled().get(F.name, F.name))
                elif op in ('landingpad', 'resume'):
                    raise Unsupported(op)
                else:
                    raise Unsupported(I[1] + ' ' + I[2])
            else:
                raise Unsupported('block without terminator')

    def insert(s, agg, v, idx):
        if agg is UNDEF:
            agg = []
        agg = list(agg)
        k = idx[0]
        while len(agg) <= k:
            agg.append(UNDEF)
        agg[k] = v if len(idx) == 1 else s.insert(agg[k], v, idx[1:])
        return agg

    def icmp(s, pr, x, y, w):
        if x.__class__ is int and y.__class__ is int:
            if pr == 'eq':
                return int(x == y)
            if pr == 'ne':
                return int(x != y)
            if pr[0] == 's':
                x = sgn(x, w)
                y = sgn(y, w)
            t = pr[1:]
            return int(x < y if t == 'lt' else x <= y if t == 'le' else x > y if t == 'gt' else x >= y)
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if x.__class__ is Ptr or y.__class__ is Ptr:
            if x.__class__ is Ptr and y.__class__ is Ptr:
                xo = s.gobj(x.o) if x.o.__class__ is str else x.o
                yo = s.gobj(y.o) if y.o.__class__ is str else y.o
                if xo is yo:
                    if x.off.__class__ is not int or y.off.__class__ is not int:
                        return s.domain.icmp(pr, s.domain.zi(x.off), s.domain.zi(y.off), 64)
                    return s.icmp(pr, x.off & M64, y.off & M64, 64)
            elif x == 0 or y == 0 or x.__class__ is int or y.__class__ is int:
                pass
            if pr == 'eq':
                return 0
            if pr == 'ne':
                return 1
            if pr in ('ugt', 'uge'):
                return int(y.__class__ is int)
            if pr in ('ult', 'ule'):
                return int(x.__class__ is int)
            raise Unsupported('pointer comparison')
        if x.__class__ is FnRef or y.__class__ is FnRef:
            same = x.__class__ is FnRef and y.__class__ is FnRef and x.name == y.name
            return int(same == (pr == 'eq'))
        return s.domain.icmp(pr, x, y, w)

    def bin(s, op, x, y, w, nsw, F, line):
        if x.__class__ is int and y.__class__ is int:
            m = (1 << w) - 1
            if op == 'add':
                if nsw and w >= 32:
                    r = sgn(x, w) + sgn(y, w)
                    if r >> (w - 1) not in (0, -1):
                        raise Fail('overflow', 'signed overflow, line %d' % line)
                return (x + y) & m
            if op == 'sub':
                if nsw and w >= 32:
                    r = sgn(x, w) - sgn(y, w)
                    if r >> (w - 1) not in (0, -1):
                        raise Fail('overflow', 'signed overflow, line %d' % line)
                return (x - y) & m
            if op == 'mul':
                if nsw and w >= 32:
                    r = sgn(x, w) * sgn(y, w)
                    if r >> (w - 1) not in (0, -1):
                        raise Fail('overflow', 'signed overflow, line %d' % line)
                return (x * y) & m
            if op == 'and':
                return x & y
            if op == 'or':
                return x | y
            if op == 'xor':
                return x ^ y
            if op in ('shl', 'lshr', 'ashr'):
                if y >= w:
                    raise Fail('shift', 'shift amount %d, line %d' % (y, line))
                if op == 'shl':
                    return (x << y) & m
                if op == 'lshr':
                    return x >> y
                return (sgn(x, w) >> y) & m
            if y == 0:
                raise Fail('division', 'integer division by zero, line %d' % line)
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            a = sgn(x, w)
            b = sgn(y, w)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            if q >> (w - 1) not in (0, -1):
                raise Fail('overflow', 'signed division overflow, line %d' % line)
            return (q if op == 'sdiv' else a - q * b) & m
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if x.__class__ is Ptr and y.__class__ is Ptr and op == 'sub':
            xo = s.gobj(x.o) if x.o.__class__ is str else x.o
            yo = s.gobj(y.o) if y.o.__class__ is str else y.o
            if xo is yo:
                if x.off.__class__ is not int or y.off.__class__ is not int:
                    return s.domain.zi(x.off - y.off)
                return (x.off - y.off) & M64
            raise Unsupported('difference of unrelated pointers')
        if x.__class__ is Ptr and y.__class__ is int:
            if op == 'add':
                return Ptr(x.o, x.off + sgn(y, 64))
            if op == 'sub':
                return Ptr(x.o, x.off - sgn(y, 64))
            if op == 'and' and y < 16:
                return x.off & y
        if x.__class__ is int and y.__class__ is Ptr:
            if op == 'add':
                return Ptr(y.o, y.off + sgn(x, 64))
            if op == 'sub' and x == 0:
                return Ptr(y.o, y.off)
        return s.domain.bin(op, x, y, w)

    def cast(s, op, x, wi, wo):
        if x is UNDEF:
            return UNDEF
        if x.__class__ is int:
            if op == 'trunc':
                return x & ((1 << wo) - 1)
            if op in ('zext', 'freeze', 'ptrtoint', 'inttoptr'):
                return x
            if op == 'sext':
                return sgn(x, wi) & ((1 << wo) - 1)
            if op in ('uitofp', 'sitofp'):
                x = float(x if op == 'uitofp' else sgn(x, wi))
                return struct.unpack('<f', struct.pack('<f', x))[0] if wo == -32 else x
            if op == 'bitcast':
                return struct.unpack('<d', x.to_bytes(8, 'little'))[0] if wo == 0 else struct.unpack('<f', x.to_bytes(4, 'little'))[0] if wo == -32 else x
        if x.__class__ is float:
            if op in ('fptoui', 'fptosi'):
                if math.isnan(x) or math.isinf(x):
                    raise Fail('cast', 'conversion of %r to integer' % x)
                return int(x) & ((1 << wo) - 1)
            if op in ('fpext', 'freeze'):
                return x
            if op == 'fptrunc':
                return struct.unpack('<f', struct.pack('<f', x))[0]
            if op == 'bitcast':
                return int.from_bytes(struct.pack('<d', x), 'little')
        if x.__class__ is Ptr or x.__class__ is FnRef:
            return x
        if x.__class__ is El and op in ('fpext', 'fptrunc', 'freeze'):
            return x
        return s.domain.cast(op, x, wi, wo)

    # floating point values are real numbers (exact): float when concrete, El when symbolic
    def fbin(s, op, xs):
        if any(x is UNDEF for x in xs):
            return UNDEF
        if all(x.__class__ is float for x in xs):
            a = xs[0]
            if op == 'fneg':
                return -a
            b = xs[1]
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if b == 0:
                return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
            if s.domain.exact and fractions.Fraction(a) / fractions.Fraction(b) != fractions.Fraction(a / b):
                return s.domain.fbin(op, xs)
            return a / b
        return s.domain.fbin(op, xs)

    def fcmp(s, pr, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.__class__ is float and b.__class__ is float:
            nan = a != a or b != b
            if pr == 'ord':
                return int(not nan)
            if pr == 'uno':
                return int(nan)
            if nan:
                return int(pr[0] == 'u')
            t = pr[1:]
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[t])
        return s.domain.fcmp(pr, a, b)


# ------------------------------------------------------------------ external functions
def x_memcpy(m, a):
    n = a[2]
    if n.__class__ is not int:
        raise Unsupported('memcpy of symbolic size')
    m.memcpy(a[0], a[1], n)
    return a[0]


def x_memset(m, a):
    m.memset(a[0], a[1], a[2])
    return a[0]


def x_memcmp(m, a):
    for k in range(a[2]):
        x = m.load(Ptr(a[0].o, a[0].off + k), 1)
        y = m.load(Ptr(a[1].o, a[1].off + k), 1)
        if x is UNDEF or y is UNDEF:
            raise Fail('undef', 'memcmp')
        if x != y:
            return (1 if x > y else -1) & 0xffffffff
    return 0


def x_new(m, a):
    if a[0].__class__ is not int:
        raise Unsupported('allocation of symbolic size')
    if a[0] > 1 << 40:
        raise Fail('alloc', 'allocation of %d bytes' % a[0])
    return m.alloc(a[0])


def x_delete(m, a):
    p = a[0]
    if p.__class__ is Ptr:
        if not p.o.alive or p.off != 0:
            raise Fail('lifetime', 'invalid delete')
        p.o.alive = False
        if m.loopctl is not None:
            m.loopctl.dead(p.o)
    return None


def x_assert(m, a):
    def cs(p):
        r = b''
        try:
            k = 0
            while True:
                c = m.load(Ptr(p.o, p.off + k), 1)
                if c == 0:
                    break
                r += bytes([c])
                k += 1
        except Exception:
            pass
        return r.decode(errors='replace')
    raise Fail('assert', cs(a[0]))


def x_throw(m, a):
    raise Fail('throw', 'exception')


def x_nop(m, a):
    return 0


def x_id(m, a):
    return a[0]


def x_abort(m, a):
    raise Fail('abort', 'abort')


def _f1(fn):
    def f(m, a):
        x = a[0]
        if x.__class__ is float:
            try:
                return fn(x)
            except ValueError:
                return -math.inf if x == 0 else math.nan
        return m.domain.fun(fn, x)
    return f


def x_fma(m, a):
    return m.fbin('fadd', [m.fbin('fmul', [a[0], a[1]]), a[2]])


def x_ctz(m, a):
    x = a[0]
    return (x & -x).bit_length() - 1 if x else 64


def _ov(op, signed):
    def f(m, a):
        raise Unsupported('overflow intrinsic')
    return f


def x_minmax(pred):
    def f(m, a):
        c = m.icmp(pred, a[0], a[1], 64)
        return a[0] if m.truth(c) else a[1]
    return f


def x_guard(m, a):
    p = a[0]
    k = p.o if isinstance(p.o, str) else id(p.o)
    if k in m.guards:
        return 0
    m.guards.add(k)
    return 1


def x_sqrt(x):
    return math.sqrt(x) if x >= 0 else math.nan


EXTERN = {
    'memcpy': x_memcpy, 'memmove': x_memcpy, 'memset': x_memset, 'memcmp': x_memcmp, 'llvm.memcpy': x_memcpy, 'llvm.memmove': x_memcpy,
    'llvm.memset': x_memset, 'bcmp': x_memcmp, '_Znwm': x_new, '_Znam': x_new, 'malloc': x_new, '_ZdlPv': x_delete, '_ZdlPvm': x_delete,
    '_ZdaPv': x_delete, '_ZdaPvm': x_delete, 'free': x_delete, '__assert_fail': x_assert, '__cxa_throw': x_throw,
    '__cxa_allocate_exception': lambda m, a: m.alloc(a[0] + 128, 'exception'), '__cxa_atexit': x_nop, '__cxa_guard_acquire': x_guard,
    '__cxa_guard_release': x_nop, '__cxa_free_exception': x_nop, 'abort': x_abort, '_ZSt9terminatev': x_abort,
    '_ZNSt8ios_base4InitC1Ev': x_nop, '_ZNSt8ios_base4InitD1Ev': x_nop, 'llvm.trap': x_abort, '__cxa_pure_virtual': x_abort,
    'llvm.fabs': _f1(abs), 'fabs': _f1(abs), 'log2': _f1(math.log2), 'floor': _f1(math.floor), 'ceil': _f1(math.ceil), 'sqrt': _f1(x_sqrt),
    'llvm.floor': _f1(lambda x: float(math.floor(x))), 'llvm.ceil': _f1(lambda x: float(math.ceil(x))), 'llvm.sqrt': _f1(x_sqrt),
    'llvm.fmuladd': x_fma, 'llvm.fma': x_fma, 'llvm.cttz': x_ctz, 'llvm.stacksave': x_nop, 'llvm.stackrestore': x_nop,
    'llvm.ctpop': lambda m, a: bin(a[0]).count('1'), 'llvm.expect': x_id, 'llvm.umax': x_minmax('ugt'), 'llvm.umin': x_minmax('ult'),
    'llvm.smax': x_minmax('sgt'), 'llvm.smin': x_minmax('slt'), 'llvm.is.constant': x_nop, 'pow': None,
}


def x_pow(m, a):
    if a[0].__class__ is float and a[1].__class__ is float:
        return float(a[0] ** a[1])
    raise Unsupported('pow')


EXTERN['pow'] = x_pow


def x_ctlz64(m, a):
    return 64 - a[0].bit_length()


EXTERN['llvm.ctlz.i64'] = x_ctlz64
EXTERN['llvm.ctlz.i32'] = lambda m, a: 32 - a[0].bit_length()
EXTERN['llvm.abs.i32'] = lambda m, a: abs(sgn(a[0], 32))
EXTERN['llvm.abs.i64'] = lambda m, a: abs(sgn(a[0], 64))
EXTERN['llvm.uadd.with.overflow.i64'] = lambda m, a: [(a[0] + a[1]) & M64, int(a[0] + a[1] > M64)]
EXTERN['llvm.umul.with.overflow.i64'] = lambda m, a: [(a[0] * a[1]) & M64, int(a[0] * a[1] > M64)]
EXTERN['llvm.usub.with.overflow.i64'] = lambda m, a: [(a[0] - a[1]) & M64, int(a[0] < a[1])]
