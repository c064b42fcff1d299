"""ctypes view of LLVM IR (LLVM-C API of the installed libLLVM 18).

Loads a bitcode/IR file and converts it into plain Python objects:
Module / Function / Block / Inst with *resolved* operands (callee identity, byte
offsets of every struct/array access, debug locations).  Nothing is executed.
"""
import ctypes as C
import os

_LIBS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
         "libLLVM-18.so.1", "libLLVM-18.so", "libLLVM.so.18.1"]
L = None
for _p in _LIBS:
    try:
        L = C.CDLL(_p)
        break
    except OSError:
        continue
if L is None:
    raise RuntimeError("libLLVM 18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
ValName = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
IsConstGlobal = _f("LLVMIsGlobalConstant", C.c_int, P)
IsThreadLocal = _f("LLVMIsThreadLocal", C.c_int, P)
GetInit = _f("LLVMGetInitializer", P, P)
Linkage = _f("LLVMGetLinkage", C.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
BBName = _f("LLVMGetBasicBlockName", C.c_char_p, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
Operand = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
ConstZ = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstS = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
IsConstInt = _f("LLVMIsAConstantInt", P, P)
IsConstNull = _f("LLVMIsAConstantPointerNull", P, P)
IsFunctionV = _f("LLVMIsAFunction", P, P)
IsGlobalVar = _f("LLVMIsAGlobalVariable", P, P)
IsConstExpr = _f("LLVMIsAConstantExpr", P, P)
IsUndef = _f("LLVMIsUndef", C.c_int, P)
IsPoison = _f("LLVMIsPoison", C.c_int, P)
IsConstant = _f("LLVMIsConstant", C.c_int, P)
IsArgument = _f("LLVMIsAArgument", P, P)
IsInstruction = _f("LLVMIsAInstruction", P, P)
IsMetadataV = _f("LLVMIsAMDNode", P, P)
IsAggZero = _f("LLVMIsAConstantAggregateZero", P, P)
IsConstStruct = _f("LLVMIsAConstantStruct", P, P)
IsConstArray = _f("LLVMIsAConstantArray", P, P)
IsConstDataArray = _f("LLVMIsAConstantDataArray", P, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GEPSrc = _f("LLVMGetGEPSourceElementType", P, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
CountStruct = _f("LLVMCountStructElementTypes", C.c_uint, P)
ElemType = _f("LLVMGetElementType", P, P)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
AllocTy = _f("LLVMGetAllocatedType", P, P)
CalledVal = _f("LLVMGetCalledValue", P, P)
CalledFTy = _f("LLVMGetCalledFunctionType", P, P)
NumArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
IncVal = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncBB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
IsCond = _f("LLVMIsConditional", C.c_int, P)
DLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
DFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(C.c_uint))
AsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
ElemAsConst = _f("LLVMGetElementAsConstant", P, P, C.c_uint)
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
HasNSW = _f("LLVMGetNSW", C.c_int, P)
HasNUW = _f("LLVMGetNUW", C.c_int, P)
RetType = _f("LLVMGetReturnType", P, P)
IsVarArg = _f("LLVMIsFunctionVarArg", C.c_int, P)
CountPT = _f("LLVMCountParamTypes", C.c_uint, P)
ParamTypes = _f("LLVMGetParamTypes", None, P, C.POINTER(P))
PrintType = _f("LLVMPrintTypeToString", C.c_char_p, P)
PrintVal = _f("LLVMPrintValueToString", C.c_char_p, P)
FnAttrKind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
FnAttr = _f("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Inst:
    __slots__ = ("op", "id", "ops", "width", "isptr", "pred", "nsw", "nuw", "block", "line", "file", "asize", "astruct",
                 "gep", "callee", "fty", "incoming", "succs", "cases", "bytes", "noundef", "isvoid")

    def __repr__(self):
        return "<%s %%%s @%s:%s>" % (self.op, self.id, self.file, self.line)


class Block:
    __slots__ = ("name", "idx", "insts", "succs", "preds", "fn")

    def __repr__(self):
        return "<bb %s/%d %s>" % (self.fn.name, self.idx, self.name)


class Function:
    __slots__ = ("name", "params", "blocks", "decl", "linkage", "retw", "retptr", "retvoid", "vararg", "pwidths", "pptr",
                 "noreturn", "loops", "headers", "loopof", "file", "line", "fty")


class Global:
    __slots__ = ("name", "const", "decl", "linkage", "size", "init", "string", "tls")


class Module:
    def __init__(self):
        self.functions = {}
        self.globals = {}
        self.aliases = 0
        self.structs = {}


def _name(v):
    n = C.c_size_t()
    s = ValName(v, C.byref(n))
    return s.decode() if s else ""


def load(path):
    ctx = ContextCreate()
    buf = P()
    err = C.c_char_p()
    if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError("cannot read %s: %s" % (path, err.value))
    m = P()
    if ParseIR(ctx, buf, C.byref(m), C.byref(err)):
        raise RuntimeError("cannot parse %s: %s" % (path, err.value))
    td = DataLayout(m)
    mod = Module()
    kn_noreturn = FnAttrKind(b"noreturn", 8)

    def tyinfo(t):
        k = TypeKind(t)
        if k == 8:
            return (IntWidth(t), False)
        if k == 12:
            return (64, True)
        if k == 0:
            return (0, False)
        if k in (2, 3):
            return (32 if k == 2 else 64, False)
        return (None, False)

    def tsize(t):
        if TypeKind(t) in (0, 9) and TypeKind(t) == 0:
            return 0
        return ABISize(td, t)

    def gep_decode(v, base, src, idxs, conv):
        """-> (base operand, const byte offset, [(operand, scale)])"""
        const = 0
        var = []
        t = src
        for k, ix in enumerate(idxs):
            if k == 0:
                scale = ABISize(td, t)
            else:
                tk = TypeKind(t)
                if tk == 10:  # struct
                    n = ConstZ(ix)
                    const += OffsetOf(td, t, n)
                    t = StructElem(t, n)
                    continue
                if tk in (11, 13):
                    t = ElemType(t)
                    scale = ABISize(td, t)
                else:
                    raise RuntimeError("gep into type kind %d" % tk)
            if IsConstInt(ix):
                const += ConstS(ix) * scale
            else:
                var.append((conv(ix), scale))
        return conv(base), const, var

    def const_value(v, depth=0):
        """constants -> ('c',val,width) | ('null',) | ('g',name,off) | ('undef',) | ('agg',...)"""
        if IsConstInt(v):
            return ('c', ConstZ(v), IntWidth(TypeOf(v)))
        if IsConstNull(v):
            return ('null',)
        if IsUndef(v) or IsPoison(v):
            return ('undef',)
        if IsFunctionV(v):
            return ('g', _name(v), 0)
        if IsGlobalVar(v):
            return ('g', _name(v), 0)
        if IsConstExpr(v):
            oc = OPC.get(ConstOpcode(v))
            if oc == 'gep':
                ops = [Operand(v, i) for i in range(NumOps(v))]
                b, c, var = gep_decode(v, ops[0], GEPSrc(v), ops[1:], const_value)
                if not var and b[0] == 'g':
                    return ('g', b[1], b[2] + c)
                return ('undef',)
            if oc in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return const_value(Operand(v, 0))
            return ('undef',)
        return ('other', PrintVal(v).decode()[:80])

    def agg_bytes(v, base, out):
        """flatten an initializer into {offset: (value, size)}"""
        t = TypeOf(v)
        k = TypeKind(t)
        if IsAggZero(v):
            out.append((base, ('zero', ABISize(td, t)), ABISize(td, t)))
            return
        if IsUndef(v):
            return
        if k == 10:
            for i in range(CountStruct(t)):
                agg_bytes(AggElem(v, i), base + OffsetOf(td, t, i), out)
            return
        if k == 11:
            et = ElemType(t)
            es = ABISize(td, et)
            for i in range(ArrayLen(t)):
                agg_bytes(AggElem(v, i), base + i * es, out)
            return
        out.append((base, const_value(v), ABISize(td, t)))

    g = FirstGlobal(m)
    while g:
        G = Global()
        G.name = _name(g)
        G.const = bool(IsConstGlobal(g))
        G.decl = bool(IsDecl(g))
        G.linkage = Linkage(g)
        G.tls = bool(IsThreadLocal(g))
        G.size = ABISize(td, GlobalValueType(g)) if TypeKind(GlobalValueType(g)) != 0 else 0
        G.init = None
        G.string = None
        if not G.decl:
            iv = GetInit(g)
            t = TypeOf(iv)
            if IsConstDataArray(iv) and IntWidth(ElemType(t)) == 8:
                n = C.c_size_t()
                p = AsString(iv, C.byref(n))
                G.string = C.string_at(p, n.value)
            elif IsAggZero(iv) and TypeKind(t) == 11 and TypeKind(ElemType(t)) == 8 and IntWidth(ElemType(t)) == 8:
                G.string = b"\0" * ArrayLen(t)
            else:
                G.init = []
                agg_bytes(iv, 0, G.init)
        mod.globals[G.name] = G
        g = NextGlobal(g)
    mod.aliases = 1 if FirstAlias(m) else 0

    f = FirstFn(m)
    fns = []
    while f:
        F = Function()
        F.name = _name(f)
        F.decl = bool(IsDecl(f))
        F.linkage = Linkage(f)
        fty = GlobalValueType(f)
        rt = RetType(fty)
        F.retw, F.retptr = tyinfo(rt)
        F.retvoid = TypeKind(rt) == 0
        F.vararg = bool(IsVarArg(fty))
        F.fty = PrintType(fty).decode()
        F.noreturn = bool(FnAttr(f, 0xFFFFFFFF, kn_noreturn))
        F.params = []
        F.pwidths = []
        F.pptr = []
        for i in range(CountParams(f)):
            p = GetParam(f, i)
            w, isp = tyinfo(TypeOf(p))
            F.params.append(i)
            F.pwidths.append(w)
            F.pptr.append(isp)
        F.blocks = []
        F.file = None
        F.line = 0
        mod.functions[F.name] = F
        fns.append((F, f))
        f = NextFn(f)

    for F, f in fns:
        if F.decl:
            continue
        ids = {}
        for i in range(CountParams(f)):
            ids[GetParam(f, i)] = ('a', i)
        bmap = {}
        b = FirstBB(f)
        n = 0
        while b:
            B = Block()
            B.name = (BBName(b) or b"").decode()
            B.idx = len(F.blocks)
            B.insts = []
            B.succs = []
            B.preds = []
            B.fn = F
            F.blocks.append(B)
            bmap[b] = B
            i = FirstInst(b)
            while i:
                ids[i] = ('i', n)
                n += 1
                i = NextInst(i)
            b = NextBB(b)

        def conv(v):
            r = ids.get(v)
            if r is not None:
                return r
            return const_value(v)

        b = FirstBB(f)
        while b:
            B = bmap[b]
            i = FirstInst(b)
            while i:
                I = Inst()
                I.op = OPC.get(Opcode(i), 'op%d' % Opcode(i))
                I.id = ids[i][1]
                I.block = B
                I.width, I.isptr = tyinfo(TypeOf(i))
                I.isvoid = TypeKind(TypeOf(i)) == 0
                I.line = DLine(i)
                ln = C.c_uint()
                fp = DFile(i, C.byref(ln))
                I.file = C.string_at(fp, ln.value).decode() if fp else None
                I.pred = I.gep = I.callee = I.fty = I.incoming = I.cases = None
                I.nsw = I.nuw = False
                I.succs = []
                I.ops = []
                I.asize = None
                I.bytes = None
                op = I.op
                if op == 'phi':
                    I.incoming = [(bmap[IncBB(i, k)], conv(IncVal(i, k))) for k in range(CountIncoming(i))]
                elif op == 'call':
                    cv = CalledVal(i)
                    na = NumArgs(i)
                    skip = False
                    if IsFunctionV(cv) and _name(cv).startswith("llvm.dbg."):
                        i = NextInst(i)
                        continue
                    I.callee = conv(cv)
                    cft = CalledFTy(i)
                    I.fty = PrintType(cft).decode()
                    I.ops = [conv(Operand(i, k)) for k in range(na)]
                elif op in ('br', 'switch'):
                    if op == 'br' and IsCond(i):
                        I.ops = [conv(Operand(i, 0))]
                        I.succs = [bmap[Succ(i, 0)], bmap[Succ(i, 1)]]
                    elif op == 'br':
                        I.succs = [bmap[Succ(i, 0)]]
                    else:
                        I.ops = [conv(Operand(i, 0))]
                        I.cases = []
                        I.succs = [bmap[Succ(i, 0)]]
                        for k in range(2, NumOps(i), 2):
                            cvv = conv(Operand(i, k))
                            tb = bmap[ValueAsBB(Operand(i, k + 1))]
                            I.cases.append((cvv, tb))
                            I.succs.append(tb)
                elif op == 'gep':
                    ops = [Operand(i, k) for k in range(NumOps(i))]
                    I.gep = gep_decode(i, ops[0], GEPSrc(i), ops[1:], conv)
                elif op == 'alloca':
                    t = AllocTy(i)
                    I.asize = ABISize(td, t)
                    I.astruct = TypeKind(t) == 10 or TypeKind(t) == 11 and TypeKind(ElemType(t)) == 10
                    I.ops = [conv(Operand(i, 0))]
                else:
                    I.ops = [conv(Operand(i, k)) for k in range(NumOps(i))]
                    if op == 'icmp':
                        I.pred = PRED[ICmpPred(i)]
                        o0 = Operand(i, 0)
                        I.bytes = tyinfo(TypeOf(o0))
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        I.nsw = bool(HasNSW(i))
                        I.nuw = bool(HasNUW(i))
                    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
                        I.bytes = tyinfo(TypeOf(Operand(i, 0)))
                    elif op == 'store':
                        t = TypeOf(Operand(i, 0))
                        I.bytes = ABISize(td, t)
                        I.width, I.isptr = tyinfo(t)
                    elif op == 'load':
                        I.bytes = ABISize(td, TypeOf(i))
                B.insts.append(I)
                if I.file and F.file is None:
                    F.file, F.line = I.file, I.line
                i = NextInst(i)
            last = B.insts[-1]
            B.succs = list(dict.fromkeys(last.succs))
            b = NextBB(b)
        for B in F.blocks:
            for s in B.succs:
                s.preds.append(B)
        _loops(F)
    return mod


def _loops(F):
    """natural loops through dominators: F.loops {header: set(blocks)}; F.loopof block->innermost header"""
    n = len(F.blocks)
    # reachable
    seen = set()
    order = []

    def dfs(b):
        stack = [(b, iter(b.succs))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(x)
                stack.pop()

    dfs(F.blocks[0])
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {F.blocks[0]: F.blocks[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in b.preds if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                x, y = d, p
                while x is not y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                d = x
            if idom.get(b) is not d:
                idom[b] = d
                ch = True

    def dominates(a, b):
        while True:
            if a is b:
                return True
            if idom[b] is b:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in b.succs:
            if s in num and dominates(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in x.preds if p in num)
    F.loops = loops
    F.headers = set(loops)
    # irreducible check: a retreating edge whose target does not dominate its source
    for b in rpo:
        for s in b.succs:
            if num[s] <= num[b] and not dominates(s, b):
                raise RuntimeError("irreducible control flow in %s" % F.name)
