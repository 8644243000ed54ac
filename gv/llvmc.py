"""LLVM IR reader: ctypes binding to libLLVM's C API, translated lazily into plain Python objects."""
import ctypes as C, struct, os
_L = None
for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "libLLVM.so.18.1", "libLLVM-18.so"):
    try:
        _L = C.CDLL(p); break
    except OSError: pass
V = C.c_void_p
def _f(name, res, *args):
    fn = getattr(_L, name); fn.restype = res; fn.argtypes = list(args); return fn
u = C.c_uint; i_ = C.c_int; sz = C.c_size_t; u64 = C.c_ulonglong
ContextCreate = _f("LLVMContextCreate", V)
MemBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", i_, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", i_, V, V, C.POINTER(V), C.POINTER(C.c_char_p))
GetFirstFunction = _f("LLVMGetFirstFunction", V, V); GetNextFunction = _f("LLVMGetNextFunction", V, V)
GetFirstGlobal = _f("LLVMGetFirstGlobal", V, V); GetNextGlobal = _f("LLVMGetNextGlobal", V, V)
GetFirstGlobalAlias = _f("LLVMGetFirstGlobalAlias", V, V); GetNextGlobalAlias = _f("LLVMGetNextGlobalAlias", V, V)
AliasGetAliasee = _f("LLVMAliasGetAliasee", V, V)
IsDeclaration = _f("LLVMIsDeclaration", i_, V)
_GetValueName = _f("LLVMGetValueName2", C.c_void_p, V, C.POINTER(sz))
GetFirstBB = _f("LLVMGetFirstBasicBlock", V, V); GetNextBB = _f("LLVMGetNextBasicBlock", V, V)
GetFirstI = _f("LLVMGetFirstInstruction", V, V); GetNextI = _f("LLVMGetNextInstruction", V, V)
Opcode = _f("LLVMGetInstructionOpcode", i_, V)
NumOperands = _f("LLVMGetNumOperands", i_, V); GetOperand = _f("LLVMGetOperand", V, V, u)
TypeOf = _f("LLVMTypeOf", V, V); TypeKind = _f("LLVMGetTypeKind", i_, V); IntW = _f("LLVMGetIntTypeWidth", u, V)
ICmpP = _f("LLVMGetICmpPredicate", i_, V); FCmpP = _f("LLVMGetFCmpPredicate", i_, V)
AllocT = _f("LLVMGetAllocatedType", V, V); GEPT = _f("LLVMGetGEPSourceElementType", V, V)
NSW = _f("LLVMGetNSW", i_, V); NUW = _f("LLVMGetNUW", i_, V)
CalledValue = _f("LLVMGetCalledValue", V, V); CalledFT = _f("LLVMGetCalledFunctionType", V, V)
NumArgOps = _f("LLVMGetNumArgOperands", u, V)
NormalDest = _f("LLVMGetNormalDest", V, V); UnwindDest = _f("LLVMGetUnwindDest", V, V)
NumClauses = _f("LLVMGetNumClauses", u, V); GetClause = _f("LLVMGetClause", V, V, u); IsCleanup = _f("LLVMIsCleanup", i_, V)
NumSucc = _f("LLVMGetNumSuccessors", u, V); GetSucc = _f("LLVMGetSuccessor", V, V, u)
IsConditional = _f("LLVMIsConditional", i_, V); GetCondition = _f("LLVMGetCondition", V, V)
CountIncoming = _f("LLVMCountIncoming", u, V); IncV = _f("LLVMGetIncomingValue", V, V, u); IncB = _f("LLVMGetIncomingBlock", V, V, u)
NumIdx = _f("LLVMGetNumIndices", u, V); GetIdx = _f("LLVMGetIndices", C.POINTER(u), V)
ValueKind = _f("LLVMGetValueKind", i_, V)
ConstZExt = _f("LLVMConstIntGetZExtValue", u64, V)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, V, C.POINTER(i_))
IsNull = _f("LLVMIsNull", i_, V); ConstOp = _f("LLVMGetConstOpcode", i_, V)
AggEl = _f("LLVMGetAggregateElement", V, V, u)
AsString = _f("LLVMGetAsString", C.c_void_p, V, C.POINTER(sz)); IsConstString = _f("LLVMIsConstantString", i_, V)
GetInit = _f("LLVMGetInitializer", V, V); GlobalConst = _f("LLVMIsGlobalConstant", i_, V); IsTLS = _f("LLVMIsThreadLocal", i_, V)
GlobalValueType = _f("LLVMGlobalGetValueType", V, V)
GetDL = _f("LLVMGetModuleDataLayout", V, V); OffsetOf = _f("LLVMOffsetOfElement", u64, V, V, u)
ABISize = _f("LLVMABISizeOfType", u64, V, V); StoreSize = _f("LLVMStoreSizeOfType", u64, V, V); ABIAlign = _f("LLVMABIAlignmentOfType", u, V, V)
StructN = _f("LLVMCountStructElementTypes", u, V); StructT = _f("LLVMStructGetTypeAtIndex", V, V, u)
ElemT = _f("LLVMGetElementType", V, V); ArrN = _f("LLVMGetArrayLength2", C.c_uint64, V); VecN = _f("LLVMGetVectorSize", u, V)
RetT = _f("LLVMGetReturnType", V, V); IsVarArg = _f("LLVMIsFunctionVarArg", i_, V)
CountParams = _f("LLVMCountParams", u, V); GetParam = _f("LLVMGetParam", V, V, u)
DbgLine = _f("LLVMGetDebugLocLine", u, V); _DbgFile = _f("LLVMGetDebugLocFilename", C.c_void_p, V, C.POINTER(u))
RMWOp = _f("LLVMGetAtomicRMWBinOp", i_, V); IsAtomicI = _f("LLVMGetOrdering", i_, V)
PrintValue = _f("LLVMPrintValueToString", C.c_void_p, V); DisposeMsg = _f("LLVMDisposeMessage", None, C.c_void_p)
PrintType = _f("LLVMPrintTypeToString", C.c_void_p, V)
NumArgAttr = None
CSAttr = _f("LLVMGetCallSiteEnumAttribute", V, V, u, u); AttrKind = _f("LLVMGetEnumAttributeKindForName", u, C.c_char_p, sz); AttrType = _f("LLVMGetTypeAttributeValue", V, V)
AK_BYVAL = AttrKind(b"byval", 5)
AK_SRET = AttrKind(b"sret", 4)
VA = _f("LLVMValueAsBasicBlock", V, V)
BBAsV = _f("LLVMBasicBlockAsValue", V, V)

OPN = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',
 29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',
 42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',
 58:'resume',59:'landingpad'}
ICP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCP = ['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']
# LLVMValueKind
VK_Arg, VK_BB, VK_MU, VK_MD, VK_MP, VK_Fn, VK_Alias, VK_IFunc, VK_GVar, VK_BA, VK_CE, VK_CA, VK_CS, VK_CV, VK_Undef, VK_CAZ, VK_CDA, VK_CDV, VK_CI, VK_CFP, VK_Null = range(21)
VK_Poison = 25  # after InlineAsm etc.; verified at load

class Ty:
    __slots__ = ("k", "w", "elems", "n", "size", "align", "offs", "sname")
    # k: void,int,float,double,ptr,struct,array,vec,fn,label,other
    def __repr__(self): return f"{self.k}{self.w or ''}"

class Val:  # operand descriptor
    __slots__ = ("k", "x", "t")
    # k: 'r' register id | 'c' int const | 'f' float | 'null' | 'undef' | 'g' global name | 'fn' function | 'agg' list | 'ce' const expr | 'bb'|'zero'| 'str' bytes
    def __init__(s, k, x, t): s.k = k; s.x = x; s.t = t
    def __repr__(s): return f"<{s.k} {s.x}>"

class Ins:
    __slots__ = ("op", "id", "t", "ops", "x", "line", "file", "nsw", "nuw", "byval")
    def __repr__(s): return f"{s.op}#{s.id} {s.ops} {s.x} @{s.file}:{s.line}"

class Fn:
    __slots__ = ("name", "ref", "mod", "decl", "params", "ret", "vararg", "_blocks", "entry", "order", "_loops", "dem", "file")

class Global:
    __slots__ = ("name", "ref", "const", "tls", "t", "decl", "mod", "align")

class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = V(); err = C.c_char_p()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(err)): raise RuntimeError(err.value)
        m = V()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)): raise RuntimeError(err.value)
        self.m = m; self.dl = GetDL(m); self.tcache = {}; self.fns = {}; self.globals = {}; self.alias = {}
        self.vcache = {}
        f = GetFirstFunction(m)
        while f:
            fn = Fn(); fn.name = self.vname(f); fn.ref = f; fn.mod = self; fn.decl = bool(IsDeclaration(f)); fn._blocks = None; fn._loops = None
            fn.dem = None; fn.file = None
            ft = GlobalValueType(f); fn.ret = self.ty(RetT(ft)); fn.vararg = bool(IsVarArg(ft))
            self.fns[fn.name] = fn; f = GetNextFunction(f)
        g = GetFirstGlobal(m)
        while g:
            G = Global(); G.name = self.vname(g); G.ref = g; G.const = bool(GlobalConst(g)); G.tls = bool(IsTLS(g)); G.t = self.ty(GlobalValueType(g)); G.decl = bool(IsDeclaration(g)); G.mod = self
            self.globals[G.name] = G; g = GetNextGlobal(g)
        a = GetFirstGlobalAlias(m)
        while a:
            self.alias[self.vname(a)] = self.vname(AliasGetAliasee(a)); a = GetNextGlobalAlias(a)
    def vname(self, v):
        n = sz(); p = _GetValueName(v, C.byref(n)); return C.string_at(p, n.value).decode()
    def ty(self, t):
        r = self.tcache.get(t)
        if r: return r
        r = Ty(); self.tcache[t] = r; k = TypeKind(t); r.w = None; r.elems = None; r.n = None; r.size = 0; r.align = 1; r.offs = None; r.sname = None
        if k == 0: r.k = 'void'
        elif k == 8: r.k = 'int'; r.w = IntW(t)
        elif k == 2: r.k = 'float'
        elif k == 3: r.k = 'double'
        elif k == 4: r.k = 'x86fp80'
        elif k == 12: r.k = 'ptr'
        elif k == 10:
            r.k = 'struct'; n = StructN(t); r.elems = [self.ty(StructT(t, j)) for j in range(n)]
            try: r.offs = [OffsetOf(self.dl, t, j) for j in range(n)]
            except Exception: r.offs = None
        elif k == 11: r.k = 'array'; r.n = ArrN(t); r.elems = self.ty(ElemT(t))
        elif k == 13: r.k = 'vec'; r.n = VecN(t); r.elems = self.ty(ElemT(t))
        elif k == 9: r.k = 'fn'
        elif k == 7: r.k = 'label'
        else: r.k = 'other'
        if r.k not in ('void', 'fn', 'label', 'other') :
            r.size = ABISize(self.dl, t); r.align = ABIAlign(self.dl, t)
        return r
    # ---- operands
    def val(self, v, regs=None):
        r = self.vcache.get(v)
        if r is not None: return r
        k = ValueKind(v)
        if k in (VK_Arg,) or k >= 27 or (k not in range(0, 27)):  # argument or instruction
            t = self.ty(TypeOf(v)); r = Val('r', v, t)
        elif k == VK_Fn: r = Val('fn', self.vname(v), self.ty(TypeOf(v)))
        elif k == VK_Alias: r = Val('alias', self.vname(v), self.ty(TypeOf(v)))
        elif k == VK_GVar: r = Val('g', self.vname(v), self.ty(TypeOf(v)))
        elif k == VK_CI:
            t = self.ty(TypeOf(v))
            if t.w <= 64: x = ConstZExt(v) & ((1 << t.w) - 1)
            else:
                p = PrintValue(v); s = C.string_at(p).decode(); DisposeMsg(p); x = int(s.split()[-1]) & ((1 << t.w) - 1)
            r = Val('c', x, t)
        elif k == VK_CFP: lo = i_(); r = Val('f', ConstReal(v, C.byref(lo)), self.ty(TypeOf(v)))
        elif k == VK_Null: r = Val('null', None, self.ty(TypeOf(v)))
        elif k == VK_CAZ: r = Val('zero', None, self.ty(TypeOf(v)))
        elif k == VK_Undef: r = Val('undef', None, self.ty(TypeOf(v)))
        elif k in (VK_CDA, VK_CDV) and IsConstString(v) and self.ty(TypeOf(v)).elems.w == 8:
            n = sz(); p = AsString(v, C.byref(n)); r = Val('str', C.string_at(p, n.value), self.ty(TypeOf(v)))
        elif k in (VK_CA, VK_CS, VK_CV, VK_CDA, VK_CDV):
            t = self.ty(TypeOf(v)); n = t.n if t.k in ('array', 'vec') else len(t.elems)
            r = Val('agg', [self.val(AggEl(v, j)) for j in range(n)], t)
        elif k == VK_CE:
            op = OPN[ConstOp(v)]; x = None
            if op == 'gep': x = self.ty(GEPT(v))
            r = Val('ce', (op, [self.val(GetOperand(v, j)) for j in range(NumOperands(v))], x), self.ty(TypeOf(v)))
        elif k == VK_MD: r = Val('md', None, None)
        elif k == VK_BB: r = Val('bb', v, None)
        else:
            p = PrintValue(v); s = C.string_at(p).decode(); DisposeMsg(p)
            if 'poison' in s: r = Val('undef', None, self.ty(TypeOf(v)))
            else: r = Val('other', s[:80], None)
        self.vcache[v] = r
        return r
    # ---- function bodies
    def blocks(self, fn):
        if fn._blocks is not None: return fn._blocks
        fn.params = [(GetParam(fn.ref, j), self.ty(TypeOf(GetParam(fn.ref, j)))) for j in range(CountParams(fn.ref))]
        for p, t in fn.params: self.vcache[p] = Val('r', p, t)
        blocks = {}; order = []
        # pre-register all instruction values so that operand kinds are certain
        raw = []
        b = GetFirstBB(fn.ref)
        while b:
            l = []; ins = GetFirstI(b)
            while ins:
                l.append(ins)
                self.vcache[ins] = Val('r', ins, self.ty(TypeOf(ins)))
                ins = GetNextI(ins)
            raw.append((b, l)); b = GetNextBB(b)
        fn.entry = raw[0][0]
        for b, l in raw:
            out = []
            for ins in l:
                I = self.ins(ins)
                if I is not None: out.append(I)
            blocks[b] = out; order.append(b)
        fn._blocks = blocks; fn.order = order
        return blocks
    def ins(self, v):
        I = Ins(); op = OPN[Opcode(v)]; I.op = op; I.id = v; I.t = self.vcache[v].t; I.x = None; I.nsw = I.nuw = False; I.byval = None
        I.line = DbgLine(v); n = u(0); p = _DbgFile(v, C.byref(n)); I.file = C.string_at(p, n.value).decode() if p and n.value else None
        nop = NumOperands(v)
        if op in ('call', 'invoke'):
            na = NumArgOps(v); I.ops = [self.val(GetOperand(v, j)) for j in range(na)]
            cv = self.val(CalledValue(v))
            if cv.k == 'fn' and cv.x.startswith('llvm.dbg.'): return None
            nd = ud = None
            for j in range(na):
                if I.ops[j].t is not None and I.ops[j].t.k == 'ptr':
                    a = CSAttr(v, j + 1, AK_BYVAL)
                    if a: I.byval = (I.byval or []) + [(j, self.ty(AttrType(a)).size)]
                    if CSAttr(v, j + 1, AK_SRET): I.nuw = True; I.nsw = j
            if op == 'invoke': nd = NormalDest(v); ud = UnwindDest(v)
            I.x = (cv, nd, ud)
            return I
        if op == 'br':
            ns = NumSucc(v)
            I.ops = [self.val(GetCondition(v))] if ns == 2 else []
            I.x = [GetSucc(v, j) for j in range(ns)]
            return I
        if op == 'switch':
            I.ops = [self.val(GetOperand(v, 0))]
            cases = []
            for j in range(2, nop, 2): cases.append((self.val(GetOperand(v, j)).x, VA(GetOperand(v, j + 1))))
            I.x = (VA(GetOperand(v, 1)), cases)
            return I
        if op == 'phi':
            I.ops = []; I.x = {IncB(v, j): self.val(IncV(v, j)) for j in range(CountIncoming(v))}
            return I
        if op == 'landingpad':
            I.ops = []; cl = []
            for j in range(NumClauses(v)):
                c = GetClause(v, j); t = self.ty(TypeOf(c))
                cl.append(('filter' if t.k == 'array' else 'catch', self.val(c)))
            I.x = (cl, bool(IsCleanup(v))); return I
        I.ops = [self.val(GetOperand(v, j)) for j in range(nop)]
        if op == 'icmp': I.x = ICP[ICmpP(v)]
        elif op == 'fcmp': I.x = FCP[FCmpP(v)]
        elif op == 'alloca': I.x = self.ty(AllocT(v))
        elif op == 'gep': I.x = self.ty(GEPT(v))
        elif op in ('extractvalue', 'insertvalue'): I.x = [GetIdx(v)[j] for j in range(NumIdx(v))]
        elif op in ('add', 'sub', 'mul', 'shl'): I.nsw = bool(NSW(v)); I.nuw = bool(NUW(v))
        elif op == 'atomicrmw': I.x = RMWOp(v)
        elif op in ('load', 'store'): I.x = IsAtomicI(v)
        return I
    def loop_headers(self, fn):
        """blocks that are targets of DFS back edges -> set of (latch, header); natural loop body sets."""
        if fn._loops is not None: return fn._loops
        bl = self.blocks(fn)
        succ = {}
        for b, l in bl.items():
            t = l[-1]
            if t.op == 'br': succ[b] = list(t.x)
            elif t.op == 'switch': succ[b] = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke': succ[b] = [t.x[1], t.x[2]]
            else: succ[b] = []
        color = {}; back = []
        stack = [(fn.entry, iter(succ[fn.entry]))]; color[fn.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1; stack.append((s, iter(succ[s]))); break
                elif color[s] == 1: back.append((b, s))
            else:
                color[b] = 2; stack.pop()
        pred = {}
        for b, ss in succ.items():
            for s in ss: pred.setdefault(s, []).append(b)
        loops = {}
        for l, h in back:
            body = loops.setdefault(h, {h}); st = [l]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st += pred.get(x, [])
        fn._loops = loops
        return loops

_dem = None
def demangle(n):
    global _dem
    if not n.startswith("_Z"): return n
    if _dem is None:
        lib = C.CDLL("libstdc++.so.6"); _dem = lib.__cxa_demangle
        _dem.restype = C.c_void_p; _dem.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
    st = C.c_int(); p = _dem(n.encode(), None, None, C.byref(st))
    if not p or st.value: return n
    s = C.string_at(p).decode()
    return s
