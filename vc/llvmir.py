"""Decode LLVM bitcode (through the LLVM-C API) into the flat form the symbolic executor runs."""
import ctypes, ctypes.util, subprocess, re
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_size_t, byref, POINTER

_L = None


def lib():
    global _L
    if _L is not None:
        return _L
    for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.1', 'libLLVM-18.so.1', 'libLLVM.so'):
        try:
            _L = ctypes.CDLL(p)
            break
        except OSError:
            continue
    if _L is None:
        raise RuntimeError('no libLLVM')
    V = c_void_p
    sig = {
        'LLVMContextCreate': (V, []), 'LLVMCreateMemoryBufferWithContentsOfFile': (c_int, [c_char_p, POINTER(V), POINTER(c_char_p)]),
        'LLVMParseIRInContext': (c_int, [V, V, POINTER(V), POINTER(c_char_p)]),
        'LLVMGetModuleDataLayout': (V, [V]), 'LLVMGetFirstFunction': (V, [V]), 'LLVMGetNextFunction': (V, [V]),
        'LLVMGetFirstGlobal': (V, [V]), 'LLVMGetNextGlobal': (V, [V]), 'LLVMGetInitializer': (V, [V]),
        'LLVMGetValueName2': (c_void_p, [V, POINTER(c_size_t)]), 'LLVMIsDeclaration': (c_int, [V]),
        'LLVMGetFirstBasicBlock': (V, [V]), 'LLVMGetNextBasicBlock': (V, [V]), 'LLVMGetFirstInstruction': (V, [V]),
        'LLVMGetNextInstruction': (V, [V]), 'LLVMGetInstructionOpcode': (c_int, [V]), 'LLVMGetNumOperands': (c_int, [V]),
        'LLVMGetOperand': (V, [V, c_uint]), 'LLVMTypeOf': (V, [V]), 'LLVMGetTypeKind': (c_int, [V]),
        'LLVMGetIntTypeWidth': (c_uint, [V]), 'LLVMGetICmpPredicate': (c_int, [V]), 'LLVMGetFCmpPredicate': (c_int, [V]),
        'LLVMGetAllocatedType': (V, [V]), 'LLVMGetGEPSourceElementType': (V, [V]), 'LLVMABISizeOfType': (c_ulonglong, [V, V]),
        'LLVMStoreSizeOfType': (c_ulonglong, [V, V]), 'LLVMOffsetOfElement': (c_ulonglong, [V, V, c_uint]),
        'LLVMGetElementType': (V, [V]), 'LLVMGetArrayLength': (c_uint, [V]), 'LLVMConstIntGetZExtValue': (c_ulonglong, [V]),
        'LLVMPrintValueToString': (c_void_p, [V]), 'LLVMGetValueKind': (c_int, [V]), 'LLVMGetConstOpcode': (c_int, [V]),
        'LLVMGetAggregateElement': (V, [V, c_uint]), 'LLVMGetNumIndices': (c_uint, [V]), 'LLVMGetIndices': (POINTER(c_uint), [V]),
        'LLVMCountParams': (c_uint, [V]), 'LLVMGetParam': (V, [V, c_uint]), 'LLVMGetReturnType': (V, [V]),
        'LLVMGlobalGetValueType': (V, [V]), 'LLVMCountIncoming': (c_uint, [V]), 'LLVMGetIncomingBlock': (V, [V, c_uint]),
        'LLVMGetIncomingValue': (V, [V, c_uint]), 'LLVMGetNumSuccessors': (c_uint, [V]), 'LLVMGetSuccessor': (V, [V, c_uint]),
        'LLVMGetCalledValue': (V, [V]), 'LLVMGetNumArgOperands': (c_uint, [V]), 'LLVMCountStructElementTypes': (c_uint, [V]),
        'LLVMStructGetTypeAtIndex': (V, [V, c_uint]), 'LLVMGetDebugLocLine': (c_uint, [V]),
        'LLVMGetDebugLocFilename': (c_void_p, [V, POINTER(c_uint)]), 'LLVMBasicBlockAsValue': (V, [V]),
        'LLVMGetCallSiteEnumAttribute': (V, [V, c_uint, c_uint]), 'LLVMGetEnumAttributeKindForName': (c_uint, [c_char_p, c_size_t]),
        'LLVMGetTypeAttributeValue': (V, [V]), 'LLVMIsConstant': (c_int, [V]), 'LLVMConstRealGetDouble': (ctypes.c_double, [V, POINTER(c_int)]),
        'LLVMGetNormalDest': (V, [V]), 'LLVMIsConditional': (c_int, [V]), 'LLVMGetCondition': (V, [V]), 'LLVMGetNSW': (c_int, [V]),
        'LLVMGetNamedFunction': (V, [V, c_char_p]), 'LLVMIsGlobalConstant': (c_int, [V]), 'LLVMIsATerminatorInst': (V, [V]),
        'LLVMGetVectorSize': (c_uint, [V]),
    }
    for n, (r, a) in sig.items():
        f = getattr(_L, n)
        f.restype = r
        f.argtypes = a
    return _L


OPS = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 53: 'extractvalue',
       54: 'insertvalue', 58: 'resume', 59: 'landingpad', 68: 'freeze', 57: 'cmpxchg', 56: 'atomicrmw', 55: 'fence',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge',
         12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
T_VOID, T_FLOAT, T_DOUBLE, T_INT, T_STRUCT, T_ARRAY, T_PTR, T_VEC = 0, 2, 3, 8, 10, 11, 12, 13


class Undef:
    def __repr__(s):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off):
        s.o = o
        s.off = off

    def __repr__(s):
        return 'Ptr(%r,%r)' % (s.o, s.off)

    def __eq__(s, t):
        return isinstance(t, Ptr) and s.o == t.o and s.off == t.off

    def __hash__(s):
        return hash((s.o, s.off))


class FnRef:
    __slots__ = ('name',)

    def __init__(s, n):
        s.name = n

    def __repr__(s):
        return '@' + s.name


class Fn:
    pass


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        self.path = path
        self.ctx = L.LLVMContextCreate()
        buf = c_void_p()
        msg = c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(msg)):
            raise RuntimeError(msg.value)
        m = c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, byref(m), byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.byval_kind = L.LLVMGetEnumAttributeKindForName(b'byval', 5)
        self.fns = {}
        self.decl = set()
        self.fnames = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self.name(f)
            self.fnames[f] = n
            if L.LLVMIsDeclaration(f):
                self.decl.add(n)
            self.fns[n] = f
            f = L.LLVMGetNextFunction(f)
        self.globals = {}
        self.gnames = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            n = self.name(g)
            self.globals[n] = g
            self.gnames[g] = n
            g = L.LLVMGetNextGlobal(g)
        self.cache = {}
        self._dem = None
        self._tsize = {}

    def name(self, v):
        sz = c_size_t()
        p = self.L.LLVMGetValueName2(v, byref(sz))
        return ctypes.string_at(p, sz.value).decode() if p else ''

    def demangled(self):
        if self._dem is None:
            names = list(self.fns)
            out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            self._dem = dict(zip(names, out))
        return self._dem

    def size(self, ty):
        s = self._tsize.get(ty)
        if s is None:
            s = self._tsize[ty] = self.L.LLVMABISizeOfType(self.dl, ty)
        return s

    def ssize(self, ty):
        return self.L.LLVMStoreSizeOfType(self.dl, ty)

    def width(self, ty):
        k = self.L.LLVMGetTypeKind(ty)
        return self.L.LLVMGetIntTypeWidth(ty) if k == T_INT else (64 if k == T_PTR else 0)

    def text(self, v):
        p = self.L.LLVMPrintValueToString(v)
        return ctypes.string_at(p).decode()

    # -- constants -----------------------------------------------------------------
    def const(self, v):
        L = self.L
        k = L.LLVMGetValueKind(v)
        # LLVMValueKind: Argument0 BasicBlock1 ... Function5 GlobalAlias6 GlobalIFunc7 GlobalVariable8 BlockAddress9
        # ConstantExpr10 ConstantArray11 ConstantStruct12 ConstantVector13 Undef14 AggZero15 DataArray16 DataVector17 Int18 FP19 NullPtr20
        if k == 5:
            return FnRef(self.fnames[v])
        if k == 8:
            return Ptr('@' + self.gnames[v], 0)
        if k == 18:
            w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(v))
            if w <= 64:
                return L.LLVMConstIntGetZExtValue(v) & ((1 << w) - 1)
            t = self.text(v).split()[-1]
            return (int(t) if t not in ('true', 'false') else int(t == 'true')) & ((1 << w) - 1)
        if k == 20:
            return 0
        if k == 19:
            lo = c_int()
            return float(L.LLVMConstRealGetDouble(v, byref(lo)))
        if k in (14, 25, 26, 27):
            return UNDEF
        if k == 15:
            return self.zero(L.LLVMTypeOf(v))
        if k in (11, 12, 13, 16, 17):
            ty = L.LLVMTypeOf(v)
            tk = L.LLVMGetTypeKind(ty)
            n = L.LLVMCountStructElementTypes(ty) if tk == T_STRUCT else (L.LLVMGetArrayLength(ty) if tk == T_ARRAY else L.LLVMGetVectorSize(ty))
            return [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)]
        if k == 10:
            op = OPS.get(L.LLVMGetConstOpcode(v))
            if op == 'gep':
                base = self.const(L.LLVMGetOperand(v, 0))
                off = self.gep_const(v)
                return Ptr(base.o, base.off + off)
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const(L.LLVMGetOperand(v, 0))
            raise NotImplementedError('constexpr ' + self.text(v))
        t = self.text(v)
        if 'poison' in t or 'undef' in t:
            return UNDEF
        raise NotImplementedError('const kind %d %s' % (k, t))

    def zero(self, ty):
        L = self.L
        k = L.LLVMGetTypeKind(ty)
        if k == T_STRUCT:
            return [self.zero(L.LLVMStructGetTypeAtIndex(ty, i)) for i in range(L.LLVMCountStructElementTypes(ty))]
        if k == T_ARRAY:
            return [self.zero(L.LLVMGetElementType(ty))] * L.LLVMGetArrayLength(ty)
        if k in (T_FLOAT, T_DOUBLE):
            return 0.0
        return 0

    def gep_const(self, v):
        L = self.L
        ty = L.LLVMGetGEPSourceElementType(v)
        off = 0
        for i in range(1, L.LLVMGetNumOperands(v)):
            idx = self.const(L.LLVMGetOperand(v, i))
            if idx >= 1 << 63:
                idx -= 1 << 64
            if i == 1:
                off += idx * self.size(ty)
            elif L.LLVMGetTypeKind(ty) == T_STRUCT:
                off += L.LLVMOffsetOfElement(self.dl, ty, idx)
                ty = L.LLVMStructGetTypeAtIndex(ty, idx)
            else:
                ty = L.LLVMGetElementType(ty)
                off += idx * self.size(ty)
        return off

    def flatten(self, v, ty, off, out):
        """constant python value v of type ty -> list of (off,size,value)"""
        L = self.L
        k = L.LLVMGetTypeKind(ty)
        if k == T_STRUCT:
            for i in range(L.LLVMCountStructElementTypes(ty)):
                self.flatten(v[i] if v is not UNDEF else UNDEF, L.LLVMStructGetTypeAtIndex(ty, i), off + L.LLVMOffsetOfElement(self.dl, ty, i), out)
        elif k == T_ARRAY:
            et = L.LLVMGetElementType(ty)
            es = self.size(et)
            for i in range(L.LLVMGetArrayLength(ty)):
                self.flatten(v[i] if v is not UNDEF else UNDEF, et, off + i * es, out)
        elif v is not UNDEF:
            out.append((off, self.ssize(ty), v))

    def global_cells(self, name):
        L = self.L
        g = self.globals[name]
        ty = L.LLVMGlobalGetValueType(g)
        size = self.size(ty)
        out = []
        init = L.LLVMGetInitializer(g)
        if init:
            self.flatten(self.const(init), ty, 0, out)
        return size, out, bool(L.LLVMIsGlobalConstant(g))

    # -- functions -----------------------------------------------------------------
    def fn(self, name):
        f = self.cache.get(name)
        if f is None:
            f = self.cache[name] = self.decode(name)
        return f

    def decode(self, name):
        L = self.L
        fv = self.fns[name]
        F = Fn()
        F.name = name
        slots = {}
        template = []
        F.nparams = L.LLVMCountParams(fv)
        for i in range(F.nparams):
            slots[L.LLVMGetParam(fv, i)] = len(template)
            template.append(UNDEF)
        bbs = []
        b = L.LLVMGetFirstBasicBlock(fv)
        while b:
            bbs.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        bidx = {b: i for i, b in enumerate(bbs)}
        insts = []
        for b in bbs:
            li = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                li.append(i)
                slots[i] = len(template)
                template.append(UNDEF)
                i = L.LLVMGetNextInstruction(i)
            insts.append(li)
        consts = {}

        def opnd(v):
            s = slots.get(v)
            if s is not None:
                return s
            s = consts.get(v)
            if s is None:
                s = len(template)
                template.append(self.const(v))
                consts[v] = s
            return s
        blocks = []
        for bi, li in enumerate(insts):
            phis = []
            body = []
            for i in li:
                oc = L.LLVMGetInstructionOpcode(i)
                op = OPS.get(oc)
                dst = slots[i]
                ty = L.LLVMTypeOf(i)
                line = L.LLVMGetDebugLocLine(i)
                if op == 'phi':
                    inc = {}
                    for k in range(L.LLVMCountIncoming(i)):
                        inc[bidx[L.LLVMGetIncomingBlock(i, k)]] = opnd(L.LLVMGetIncomingValue(i, k))
                    phis.append((dst, inc, ty))
                    continue
                if op in ('call', 'invoke'):
                    cv = L.LLVMGetCalledValue(i)
                    n = L.LLVMGetNumArgOperands(i)
                    kind = L.LLVMGetValueKind(cv)
                    if kind == 5:
                        nm = self.fnames[cv]
                        if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.experimental.noalias') or nm == 'llvm.assume':
                            if op == 'call':
                                continue
                        callee = nm
                    else:
                        callee = None
                    args = [opnd(L.LLVMGetOperand(i, k)) for k in range(n)]
                    byval = []
                    for k in range(n):
                        a = L.LLVMGetCallSiteEnumAttribute(i, k + 1, self.byval_kind)
                        if a:
                            byval.append((k, self.size(L.LLVMGetTypeAttributeValue(a))))
                    nd = bidx[L.LLVMGetNormalDest(i)] if op == 'invoke' else None
                    body.append(('call', dst, callee, None if callee else opnd(cv), args, byval, nd, line))
                    continue
                n = L.LLVMGetNumOperands(i)
                if op == 'br':
                    if L.LLVMIsConditional(i):
                        body.append(('condbr', opnd(L.LLVMGetCondition(i)), bidx[L.LLVMGetSuccessor(i, 0)], bidx[L.LLVMGetSuccessor(i, 1)], line))
                    else:
                        body.append(('br', bidx[L.LLVMGetSuccessor(i, 0)]))
                    continue
                if op == 'switch':
                    cases = [(self.const(L.LLVMGetOperand(i, k)), bidx[L.LLVMGetSuccessor(i, k // 2)]) for k in range(2, n, 2)]
                    body.append(('switch', opnd(L.LLVMGetOperand(i, 0)), bidx[L.LLVMGetSuccessor(i, 0)], cases, self.width(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))))
                    continue
                if op == 'alloca':
                    body.append(('alloca', dst, self.size(L.LLVMGetAllocatedType(i)), opnd(L.LLVMGetOperand(i, 0))))
                    continue
                if op == 'gep':
                    sty = L.LLVMGetGEPSourceElementType(i)
                    const = 0
                    terms = []
                    t = sty
                    for k in range(1, n):
                        iv = L.LLVMGetOperand(i, k)
                        if k > 1 and L.LLVMGetTypeKind(t) == T_STRUCT:
                            idx = self.const(iv)
                            const += L.LLVMOffsetOfElement(self.dl, t, idx)
                            t = L.LLVMStructGetTypeAtIndex(t, idx)
                            continue
                        if k > 1:
                            t = L.LLVMGetElementType(t)
                        sz = self.size(t)
                        w = self.width(L.LLVMTypeOf(iv))
                        if iv not in slots and L.LLVMGetValueKind(iv) == 18:
                            c = self.const(iv)
                            if c >= 1 << (w - 1):
                                c -= 1 << w
                            const += c * sz
                        else:
                            terms.append((opnd(iv), sz, w))
                    body.append(('gep', dst, opnd(L.LLVMGetOperand(i, 0)), const, terms))
                    continue
                if op == 'load':
                    body.append(('load', dst, opnd(L.LLVMGetOperand(i, 0)), self.ssize(ty), self.width(ty), L.LLVMGetTypeKind(ty), ty, line))
                    continue
                if op == 'store':
                    v = L.LLVMGetOperand(i, 0)
                    vt = L.LLVMTypeOf(v)
                    body.append(('store', opnd(v), opnd(L.LLVMGetOperand(i, 1)), self.ssize(vt), L.LLVMGetTypeKind(vt), vt, line))
                    continue
                if op == 'icmp':
                    w = self.width(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    body.append(('icmp', dst, PRED[L.LLVMGetICmpPredicate(i)], opnd(L.LLVMGetOperand(i, 0)), opnd(L.LLVMGetOperand(i, 1)), w, line))
                    continue
                if op == 'fcmp':
                    body.append(('fcmp', dst, FPRED[L.LLVMGetFCmpPredicate(i)], opnd(L.LLVMGetOperand(i, 0)), opnd(L.LLVMGetOperand(i, 1)), line))
                    continue
                if op in ('extractvalue', 'insertvalue'):
                    ni = L.LLVMGetNumIndices(i)
                    p = L.LLVMGetIndices(i)
                    idx = [p[k] for k in range(ni)]
                    body.append((op, dst, [opnd(L.LLVMGetOperand(i, k)) for k in range(n)], idx))
                    continue
                if op in ('trunc', 'zext', 'sext', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'freeze'):
                    body.append(('cast', dst, op, opnd(L.LLVMGetOperand(i, 0)), self.width(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))), -32 if L.LLVMGetTypeKind(ty) == 2 else self.width(ty)))
                    continue
                if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
                    nsw = L.LLVMGetNSW(i) if op in ('add', 'sub', 'mul', 'shl') else 0
                    body.append(('bin', dst, op, opnd(L.LLVMGetOperand(i, 0)), opnd(L.LLVMGetOperand(i, 1)), self.width(ty), nsw, line))
                    continue
                if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                    body.append(('fbin', dst, op, [opnd(L.LLVMGetOperand(i, k)) for k in range(n)], line))
                    continue
                if op == 'ret':
                    body.append(('ret', opnd(L.LLVMGetOperand(i, 0)) if n else None))
                    continue
                if op == 'select':
                    body.append(('select', dst, [opnd(L.LLVMGetOperand(i, k)) for k in range(3)]))
                    continue
                if op in ('unreachable', 'resume', 'landingpad'):
                    body.append((op, dst))
                    continue
                body.append(('unsupported', op or str(oc), self.text(i)))
            blocks.append((phis, body))
        F.template = template
        F.blocks = blocks
        F.retwidth = self.width(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(fv)))
        return F
