"""Reader for LLVM IR modules, through the LLVM-C API of the installed libLLVM-18 (ctypes).

Gives plain Python objects (Module / Function / Block / Instr) for the abstract
interpreter; nothing of the program is ever executed.
"""
import ctypes as C
import os

_LIB = None
for _p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
           "libLLVM-18.so"):
    try:
        _LIB = C.CDLL(_p)
        break
    except OSError:
        continue
if _LIB is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p
_SZ = C.c_size_t
_U = C.c_uint


def _d(name, res, *args):
    f = getattr(_LIB, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _d("LLVMContextCreate", P)
MemBufFile = _d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _d("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _d("LLVMGetFirstFunction", P, P)
NextFn = _d("LLVMGetNextFunction", P, P)
FirstGl = _d("LLVMGetFirstGlobal", P, P)
NextGl = _d("LLVMGetNextGlobal", P, P)
ValName = _d("LLVMGetValueName2", P, P, C.POINTER(_SZ))
IsDecl = _d("LLVMIsDeclaration", C.c_int, P)
FirstBB = _d("LLVMGetFirstBasicBlock", P, P)
NextBB = _d("LLVMGetNextBasicBlock", P, P)
BBasValue = _d("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _d("LLVMValueAsBasicBlock", P, P)
ValueIsBB = _d("LLVMValueIsBasicBlock", C.c_int, P)
FirstIn = _d("LLVMGetFirstInstruction", P, P)
NextIn = _d("LLVMGetNextInstruction", P, P)
Opcode = _d("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _d("LLVMGetNumOperands", C.c_int, P)
GetOp = _d("LLVMGetOperand", P, P, _U)
TypeOf = _d("LLVMTypeOf", P, P)
TypeKind = _d("LLVMGetTypeKind", C.c_int, P)
IntWidth = _d("LLVMGetIntTypeWidth", _U, P)
CountParams = _d("LLVMCountParams", _U, P)
GetParam = _d("LLVMGetParam", P, P, _U)
StructN = _d("LLVMCountStructElementTypes", _U, P)
StructAt = _d("LLVMStructGetTypeAtIndex", P, P, _U)
ArrLen = _d("LLVMGetArrayLength2", C.c_uint64, P)
ElemTy = _d("LLVMGetElementType", P, P)
VecLen = _d("LLVMGetVectorSize", _U, P)
ModDL = _d("LLVMGetModuleDataLayout", P, P)
ABISize = _d("LLVMABISizeOfType", C.c_ulonglong, P, P)
ABIAlign = _d("LLVMABIAlignmentOfType", _U, P, P)
OffElem = _d("LLVMOffsetOfElement", C.c_ulonglong, P, P, _U)
ICmpPred = _d("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _d("LLVMGetFCmpPredicate", C.c_int, P)
NumSucc = _d("LLVMGetNumSuccessors", _U, P)
GetSucc = _d("LLVMGetSuccessor", P, P, _U)
NumInc = _d("LLVMCountIncoming", _U, P)
IncVal = _d("LLVMGetIncomingValue", P, P, _U)
IncBB = _d("LLVMGetIncomingBlock", P, P, _U)
CalledVal = _d("LLVMGetCalledValue", P, P)
CalledFnTy = _d("LLVMGetCalledFunctionType", P, P)
NumArgs = _d("LLVMGetNumArgOperands", _U, P)
NormalDest = _d("LLVMGetNormalDest", P, P)
UnwindDest = _d("LLVMGetUnwindDest", P, P)
GEPTy = _d("LLVMGetGEPSourceElementType", P, P)
AllocTy = _d("LLVMGetAllocatedType", P, P)
Ordering = _d("LLVMGetOrdering", C.c_int, P)
SuccOrdering = _d("LLVMGetCmpXchgSuccessOrdering", C.c_int, P)
RMWOp = _d("LLVMGetAtomicRMWBinOp", C.c_int, P)
IsCleanup = _d("LLVMIsCleanup", C.c_int, P)
NumClauses = _d("LLVMGetNumClauses", _U, P)
GetClause = _d("LLVMGetClause", P, P, _U)
NumIdx = _d("LLVMGetNumIndices", _U, P)
GetIdx = _d("LLVMGetIndices", C.POINTER(_U), P)
ValKind = _d("LLVMGetValueKind", C.c_int, P)
ConstInt = _d("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
PrintVal = _d("LLVMPrintValueToString", C.c_void_p, P)
ConstOpc = _d("LLVMGetConstOpcode", C.c_int, P)
IsNull = _d("LLVMIsNull", C.c_int, P)
GlobalInit = _d("LLVMGetInitializer", P, P)
GlobalTy = _d("LLVMGlobalGetValueType", P, P)
IsGlobConst = _d("LLVMIsGlobalConstant", C.c_int, P)
Linkage = _d("LLVMGetLinkage", C.c_int, P)
AggElem = _d("LLVMGetAggregateElement", P, P, _U)
IsStr = _d("LLVMIsConstantString", C.c_int, P)
AsStr = _d("LLVMGetAsString", P, P, C.POINTER(_SZ))
DbgLine = _d("LLVMGetDebugLocLine", _U, P)
DbgFile = _d("LLVMGetDebugLocFilename", P, P, C.POINTER(_U))
DbgDir = _d("LLVMGetDebugLocDirectory", P, P, C.POINTER(_U))
IsAtomicSI = _d("LLVMIsAtomicSingleThread", C.c_int, P)
GetAlign = _d("LLVMGetAlignment", _U, P)
DisposeMsg = _d("LLVMDisposeMessage", None, C.c_void_p)
AliasRes = _d("LLVMAliasGetAliasee", P, P)

OPS = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad', 60: 'addrspacecast', 66: 'fneg', 67: 'callbr', 68: 'freeze'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}
ORD = {0: 'not_atomic', 1: 'unordered', 2: 'monotonic', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
# LLVMValueKind
VK_ARG, VK_BB, VK_FN, VK_ALIAS, VK_IFUNC, VK_GVAR = 0, 1, 5, 6, 7, 8
VK_CE, VK_CARR, VK_CSTRUCT, VK_CVEC = 10, 11, 12, 13
VK_UNDEF, VK_AGGZERO, VK_DATAARR, VK_DATAVEC, VK_INT, VK_FP, VK_NULL, VK_TOKENNONE = 14, 15, 16, 17, 18, 19, 20, 21
VK_MD, VK_ASM, VK_INSTR, VK_POISON = 22, 23, 24, 25


def _name(v):
    n = _SZ()
    p = ValName(v, C.byref(n))
    return C.string_at(p, n.value).decode('utf-8', 'replace') if n.value else ''


class Ty:
    __slots__ = ('k', 'w', 'elems', 'offs', 'n', 'elt', 'size', 'align')

    def __repr__(self):
        return f"<{self.k}{self.w or ''} sz{self.size}>"


class Instr:
    __slots__ = ('op', 'ty', 'ops', 'x', 'line', 'file', 'id', 'fn', 'idx', 'bb')

    def loc(self):
        return f"{self.file}:{self.line}"

    def __repr__(self):
        return f"%{self.id}={self.op}@{self.loc()}"


class Block:
    __slots__ = ('instrs', 'idx')


class Function:
    def __init__(self, mod, ref, name):
        self.mod = mod
        self.ref = ref
        self.name = name
        self.is_decl = bool(IsDecl(ref))
        self._blocks = None
        self.nparams = CountParams(ref)
        self.params = None
        self.ty_params = [mod.ty(TypeOf(GetParam(ref, i))) for i in range(self.nparams)]

    @property
    def blocks(self):
        if self._blocks is None:
            self._build()
        return self._blocks

    def _build(self):
        m = self.mod
        ids = {}
        n = 0
        for i in range(self.nparams):
            ids[GetParam(self.ref, i)] = n
            n += 1
        bbs = []
        b = FirstBB(self.ref)
        bbidx = {}
        while b:
            bbidx[b] = len(bbs)
            bbs.append(b)
            b = NextBB(b)
        todo = []
        for b in bbs:
            ins = FirstIn(b)
            lst = []
            while ins:
                ids[ins] = n
                n += 1
                lst.append(ins)
                ins = NextIn(ins)
            todo.append(lst)
        self.nregs = n
        blocks = []
        for bi, lst in enumerate(todo):
            blk = Block()
            blk.idx = bi
            blk.instrs = []
            for k, r in enumerate(lst):
                blk.instrs.append(m._instr(r, ids, bbidx, self, bi, k))
            blocks.append(blk)
        self._blocks = blocks

    def __repr__(self):
        return f"<fn {self.name}>"


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'decl')


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P()
        msg = C.c_char_p()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(f"cannot read {path}: {msg.value}")
        mod = P()
        if ParseIR(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError(f"cannot parse {path}: {msg.value}")
        self.mod = mod
        self.dl = ModDL(mod)
        self._ty = {}
        self._files = {}
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        f = FirstFn(mod)
        while f:
            nm = _name(f)
            self.functions[nm] = Function(self, f, nm)
            f = NextFn(f)
        g = FirstGl(mod)
        while g:
            G = Global()
            G.name = _name(g)
            G.ty = self.ty(GlobalTy(g))
            G.decl = bool(IsDecl(g))
            G.const = bool(IsGlobConst(g))
            G.init = None if G.decl else GlobalInit(g)
            self.globals[G.name] = G
            g = NextGl(g)
        for G in self.globals.values():
            if G.init is not None:
                G.init = self._opnd(G.init, {}, {})

    # ---- types
    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        r = Ty()
        self._ty[t] = r
        r.w = 0
        r.elems = r.offs = r.elt = None
        r.n = 0
        r.size = 0
        r.align = 1
        if k == 0:
            r.k = 'void'
        elif k == 8:
            r.k = 'int'
            r.w = IntWidth(t)
        elif k == 12:
            r.k = 'ptr'
            r.w = 64
        elif k == 10:
            r.k = 'struct'
            n = StructN(t)
            r.elems = [self.ty(StructAt(t, i)) for i in range(n)]
            r.offs = [OffElem(self.dl, t, i) for i in range(n)]
            r.n = n
        elif k == 11:
            r.k = 'array'
            r.n = ArrLen(t)
            r.elt = self.ty(ElemTy(t))
        elif k in (13, 17):
            r.k = 'vec'
            r.n = VecLen(t)
            r.elt = self.ty(ElemTy(t))
        elif k in (1, 2, 3, 4, 5, 6, 18):
            r.k = 'fp'
            r.w = {1: 16, 2: 32, 3: 64, 4: 80, 5: 128, 6: 128, 18: 16}[k]
        elif k == 9:
            r.k = 'fn'
            return r
        elif k == 7:
            r.k = 'label'
            return r
        else:
            r.k = 'other%d' % k
            return r
        if r.k != 'void':
            try:
                r.size = ABISize(self.dl, t)
                r.align = ABIAlign(self.dl, t)
            except Exception:
                pass
        return r

    def _fileof(self, r):
        n = _U()
        p = DbgFile(r, C.byref(n))
        if not p or not n.value:
            return ''
        s = C.string_at(p, n.value).decode('utf-8', 'replace')
        if not s.startswith('/'):
            p2 = DbgDir(r, C.byref(n))
            if p2 and n.value:
                s = os.path.join(C.string_at(p2, n.value).decode(), s)
        if s not in self._files:
            self._files[s] = os.path.normpath(s)
        return self._files[s]

    # ---- operands
    def _opnd(self, v, ids, bbidx):
        if v in ids:
            return ('r', ids[v])
        k = ValKind(v)
        t = self.ty(TypeOf(v)) if k not in (VK_BB, VK_MD) else None
        if k == VK_INT:
            if t.w <= 64:
                return ('c', ConstInt(v), t.w)
            s = PrintVal(v)
            txt = C.string_at(s).decode()
            DisposeMsg(s)
            return ('c', int(txt.split()[-1]) & ((1 << t.w) - 1), t.w)
        if k == VK_NULL:
            return ('c', 0, 64)
        if k == VK_FN:
            return ('f', _name(v))
        if k == VK_GVAR:
            return ('g', _name(v))
        if k in (VK_ALIAS, VK_IFUNC):
            return self._opnd(AliasRes(v), ids, bbidx)
        if k in (VK_UNDEF, VK_POISON):
            return ('undef', t)
        if k == VK_AGGZERO:
            return ('zero', t)
        if k in (VK_CARR, VK_CSTRUCT, VK_CVEC, VK_DATAARR, VK_DATAVEC):
            if k == VK_DATAARR and IsStr(v):
                n = _SZ()
                p = AsStr(v, C.byref(n))
                return ('str', C.string_at(p, n.value), t)
            n = t.n
            return ('agg', [self._opnd(AggElem(v, i), ids, bbidx) for i in range(n)], t)
        if k == VK_FP:
            s = PrintVal(v)
            txt = C.string_at(s).decode()
            DisposeMsg(s)
            return ('fp', txt, t)
        if k == VK_CE:
            op = OPS.get(ConstOpc(v), '?')
            ops = [self._opnd(GetOp(v, i), ids, bbidx) for i in range(NumOps(v))]
            src = self.ty(GEPTy(v)) if op == 'gep' else None
            return ('ce', op, ops, src, t)
        if k == VK_BB:
            return ('bb', bbidx[ValueAsBB(v)])
        if k == VK_ASM:
            return ('asm',)
        if k == VK_MD:
            return ('md',)
        return ('unk', k)

    def _instr(self, r, ids, bbidx, fn, bi, k):
        I = Instr()
        op = OPS.get(Opcode(r), 'op%d' % Opcode(r))
        I.op = op
        I.ty = self.ty(TypeOf(r))
        I.id = ids[r]
        I.fn = fn
        I.bb = bi
        I.idx = k
        I.x = None
        I.line = DbgLine(r)
        I.file = self._fileof(r) if I.line else ''

        def O(v):
            return self._opnd(v, ids, bbidx)

        if op == 'phi':
            I.ops = []
            I.x = {bbidx[IncBB(r, i)]: O(IncVal(r, i)) for i in range(NumInc(r))}
            return I
        if op in ('call', 'invoke'):
            cv = CalledVal(r)
            callee = O(cv)
            n = NumArgs(r)
            if callee[0] == 'f' and callee[1].startswith('llvm.dbg.'):
                I.op = 'nop'
                I.ops = []
                return I
            I.ops = [O(GetOp(r, i)) for i in range(n)]
            I.x = [callee, None, None, [self.ty(TypeOf(GetOp(r, i))) if ValKind(GetOp(r, i)) != VK_MD else None for i in range(n)]]
            if op == 'invoke':
                I.x[1] = bbidx[NormalDest(r)]
                I.x[2] = bbidx[UnwindDest(r)]
            return I
        if op == 'br':
            n = NumSucc(r)
            I.x = [bbidx[GetSucc(r, i)] for i in range(n)]
            I.ops = [O(GetOp(r, 0))] if n == 2 else []
            return I
        if op == 'switch':
            I.ops = [O(GetOp(r, 0))]
            n = NumOps(r)
            dflt = bbidx[ValueAsBB(GetOp(r, 1))]
            cases = []
            for i in range(2, n, 2):
                cases.append((O(GetOp(r, i))[1], bbidx[ValueAsBB(GetOp(r, i + 1))]))
            I.x = (dflt, cases)
            return I
        I.ops = [O(GetOp(r, i)) for i in range(NumOps(r))] if op != 'landingpad' else []
        if op == 'icmp':
            I.x = (PRED[ICmpPred(r)], self.ty(TypeOf(GetOp(r, 0))))
        elif op == 'gep':
            I.x = self.ty(GEPTy(r))
        elif op == 'alloca':
            I.x = self.ty(AllocTy(r))
        elif op == 'load':
            I.x = (ORD[Ordering(r)], GetAlign(r))
        elif op == 'store':
            I.x = (ORD[Ordering(r)], GetAlign(r), self.ty(TypeOf(GetOp(r, 0))))
        elif op == 'atomicrmw':
            I.x = (RMW[RMWOp(r)], ORD[Ordering(r)], self.ty(TypeOf(GetOp(r, 1))))
        elif op == 'fence':
            I.x = (ORD[Ordering(r)],)
        elif op == 'cmpxchg':
            I.x = (ORD[SuccOrdering(r)],)
        elif op in ('extractvalue', 'insertvalue'):
            n = NumIdx(r)
            ix = GetIdx(r)
            I.x = ([ix[i] for i in range(n)], self.ty(TypeOf(GetOp(r, 0))))
        elif op == 'landingpad':
            I.x = (bool(IsCleanup(r)), [O(GetClause(r, i)) for i in range(NumClauses(r))])
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
            I.x = self.ty(TypeOf(GetOp(r, 0)))
        elif op == 'fcmp':
            I.x = FCmpPred(r)
        return I
