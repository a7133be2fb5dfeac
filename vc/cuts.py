"""Loops proved with an invariant written at their head: the code carries a guarded annotation CRYPTO3_ALGEBRA_LOOP_CONTRACT(name,
variables...), a call of a harness function without effect.  At the first arrival the invariant is checked, the variables are
replaced by arbitrary values that satisfy it, and every register computed inside the loop is poisoned; at the second arrival the
invariant is checked again, the variant has to be smaller, and everything else that was changed has to be unused (such locations
are poisoned at the first arrival of the next attempt)."""
import re
from .llvmir import Ptr
from .loops import LoopCtl, PathDone, HAVOC, headers, SymObj, SymArr


class Dirty(Exception):
    pass


def natural(F, h):
    """blocks of the loop with header h"""
    c = F.__dict__.setdefault('nat', {}) if hasattr(F, '__dict__') else {}
    if h in c:
        return c[h]
    succ = []
    for phis, body in F.blocks:
        t = body[-1] if body else ('',)
        succ.append([t[1]] if t[0] == 'br' else [t[2], t[3]] if t[0] == 'condbr' else [t[2]] + [b for _, b in t[3]] if t[0] == 'switch' else
                    [t[6]] if t[0] == 'call' and t[6] is not None else [])
    pred = {}
    for b, ss in enumerate(succ):
        for x in ss:
            pred.setdefault(x, set()).add(b)
    body = {h}
    todo = list(headers(F)[h])
    while todo:
        b = todo.pop()
        if b not in body:
            body.add(b)
            todo += pred.get(b, ())
    c[h] = body
    return body


class CutCtl(LoopCtl):
    def __init__(s, cuts, dirty):
        LoopCtl.__init__(s, {'data': {}, 'inv': {}, 'dropped': set()})
        s.cuts = cuts
        s.dirty = dirty
        s.regs = {}
        s.recs = {}
        s.closed = s.opened = 0

    def start(s, m):
        s.begin('cut', m)
        s.recs = {}
        s.regs = {}

    def at_header(s, F, cur, prev, R, frame):
        s.regs[F.name] = R
        if prev not in F.hdrs[cur]:
            for k in [k for k, r in s.recs.items() if r['loop'] == (F.name, cur)]:
                del s.recs[k]

    def mem(s):
        st = {}
        for nm, o in s.names():
            if not isinstance(o, (SymObj, SymArr)):
                for off, (sz, v) in o.cells.items():
                    st[(nm, off, sz)] = v
        return st

    def arrive(s, name, m, args, mangled):
        inv = s.cuts[name]
        F = m.mod.fn(m.stack[-1])
        key = (F.name, mangled)
        rec = s.recs.get(key)
        if rec is None:
            s.opened += 1
            at = [b for b, (_, body) in enumerate(F.blocks) if any(i[0] == 'call' and i[2] == mangled for i in body)]
            loops = [h for h in headers(F) if all(b in natural(F, h) for b in at)]
            if len(at) != 1 or not loops:
                from .machine import Unsupported
                raise Unsupported('the loop contract %s is not inside a loop' % name)
            h = min(loops, key=lambda x: len(natural(F, x)))
            inv.check(m, args, None)
            before = s.mem()
            rec = {'inv': inv.havoc(m, args), 'loop': (F.name, h)}
            R = s.regs[F.name]
            for b in natural(F, h):
                phis, body = F.blocks[b]
                for dst, _, _ in phis:
                    R[dst] = HAVOC
                for i in body:
                    if len(i) > 1 and i[0] not in ('br', 'condbr', 'store', 'ret', 'switch', 'unreachable') and i[1].__class__ is int and i[0] != 'alloca':
                        R[i[1]] = HAVOC
            objs = dict(s.names())
            for nm, off, sz in s.dirty:
                o = objs.get(nm)
                if o is not None and off in o.cells and o.cells[off][0] == sz and o.cells[off][1] is before.get((nm, off, sz)):
                    o.cells[off] = (sz, HAVOC)
            rec['mem'] = s.mem()
            s.recs[key] = rec
            return None
        inv.check(m, args, rec['inv'])
        now = s.mem()
        own = inv.owned(m, args)
        new = set()
        for k, v in rec['mem'].items():
            if v is HAVOC:
                continue
            w = now.get(k, HAVOC)
            if not (w is v or s.same(m.domain, w, v)) and not own(k, s):
                new.add(k)
        if new - s.dirty:
            s.dirty |= new
            raise Dirty()
        s.closed += 1
        raise PathDone()

    def hooks(s):
        return [(r'\bvch::' + n + r'<', lambda m, a, mg, n=n: s.arrive(n, m, a, mg)) for n in s.cuts]
