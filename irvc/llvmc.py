import re
"""LLVM bitcode -> plain Python objects, through the LLVM C API (libLLVM-18, ctypes).

Nothing here interprets the program: it only exposes the module clang produced from
/repo's sources (functions, blocks, instructions, operands, types, debug lines)."""
import ctypes as C, subprocess, re
_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so.18.1")
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CtxCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext2", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p)) if hasattr(_L, "LLVMParseIRInContext2") else _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
TypeByName = _f("LLVMGetTypeByName2", P, P, C.c_char_p)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstG = _f("LLVMGetFirstGlobal", P, P)
NextG = _f("LLVMGetNextGlobal", P, P)
GetInit = _f("LLVMGetInitializer", P, P)
IsGConst = _f("LLVMIsGlobalConstant", C.c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opc = _f("LLVMGetInstructionOpcode", C.c_int, P)
COpc = _f("LLVMGetConstOpcode", C.c_int, P)
NOps = _f("LLVMGetNumOperands", C.c_int, P)
Op = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ValName = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
VKind = _f("LLVMGetValueKind", C.c_int, P)
PrintT = _f("LLVMPrintTypeToString", P, P)
PrintV = _f("LLVMPrintValueToString", P, P)
DisposeMsg = _f("LLVMDisposeMessage", None, P)
NElem = _f("LLVMCountStructElementTypes", C.c_uint, P)
ElemAt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
ElemT = _f("LLVMGetElementType", P, P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
DL = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_uint64, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_uint64, P, P)
OffOf = _f("LLVMOffsetOfElement", C.c_uint64, P, P, C.c_uint)
CIntZ = _f("LLVMConstIntGetZExtValue", C.c_uint64, P)
CIntS = _f("LLVMConstIntGetSExtValue", C.c_int64, P)
CReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
AggEl = _f("LLVMGetAggregateElement", P, P, C.c_uint)
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, P)
NSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
NInc = _f("LLVMCountIncoming", C.c_uint, P)
IncV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
Callee = _f("LLVMGetCalledValue", P, P)
CalledFT = _f("LLVMGetCalledFunctionType", P, P)
NormDest = _f("LLVMGetNormalDest", P, P)
UnwDest = _f("LLVMGetUnwindDest", P, P)
NumArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
AllocT = _f("LLVMGetAllocatedType", P, P)
GEPT = _f("LLVMGetGEPSourceElementType", P, P)
NIdx = _f("LLVMGetNumIndices", C.c_uint, P)
Idx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
NClauses = _f("LLVMGetNumClauses", C.c_uint, P)
Clause = _f("LLVMGetClause", P, P, C.c_uint)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
NSW = _f("LLVMGetNSW", C.c_int, P)
NUW = _f("LLVMGetNUW", C.c_int, P)
NParams = _f("LLVMCountParams", C.c_uint, P)
Param = _f("LLVMGetParam", P, P, C.c_uint)
DbgLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
DbgFile = _f("LLVMGetDebugLocFilename", C.POINTER(C.c_char), P, C.POINTER(C.c_uint))
GVT = _f("LLVMGlobalGetValueType", P, P)
FnRet = _f("LLVMGetReturnType", P, P)
EnumKind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
GetAttrFn = _f("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)
GetAttrCS = _f("LLVMGetCallSiteEnumAttribute", P, P, C.c_uint, C.c_uint)
AttrT = _f("LLVMGetTypeAttributeValue", P, P)
CreateEA = _f("LLVMCreateEnumAttribute", P, P, C.c_uint, C.c_uint64)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, C.c_uint, P)
RemAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, C.c_uint, C.c_uint)
WriteBC = _f("LLVMWriteBitcodeToFile", C.c_int, P, C.c_char_p)
IsNull = _f("LLVMIsNull", C.c_int, P)
IsUndef = _f("LLVMIsUndef", C.c_int, P)
MDStr = None

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd",
       10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem",
       19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp",
       36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast",
       42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 66: "fneg", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 7: "label", 8: "int", 9: "func",
      10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}


class Type:
    __slots__ = ("kind", "w", "elems", "n", "size", "offs", "store", "s")

    def __repr__(self):
        return self.s


class Const:
    """Operand that is a constant. kind: int, fp, null, undef, zero, global, func, expr, agg"""
    __slots__ = ("kind", "ty", "val", "ops", "opc", "extra")

    def __init__(self, kind, ty, val=None, ops=None, opc=None, extra=None):
        self.kind, self.ty, self.val, self.ops, self.opc, self.extra = kind, ty, val, ops, opc, extra

    def __repr__(self):
        return "Const(%s,%s)" % (self.kind, self.val)


class Ref:
    """Operand that is an SSA value (argument or instruction)."""
    __slots__ = ("id", "ty")

    def __init__(self, i, ty):
        self.id, self.ty = i, ty

    def __repr__(self):
        return "%%%d" % self.id


class Instr:
    __slots__ = ("id", "op", "ty", "ops", "x", "loc", "block")

    def __repr__(self):
        return "%%%s = %s %s %s" % (self.id, self.op, self.ops, self.x)


class Block:
    def __init__(self, name):
        self.name, self.instrs, self.succs, self.preds = name, [], [], []

    def __repr__(self):
        return "bb:" + str(self.name)


class Function:
    def __init__(self, name):
        self.name = name
        self.demangled = name
        self.blocks = []
        self.args = []
        self.ret = None
        self.sret = None
        self.loops = None

    @property
    def isdecl(self):
        return not self.blocks


def demangle(names):
    if not names:
        return {}
    r = subprocess.run(["/usr/bin/c++filt"], input="\n".join(names), text=True, capture_output=True)
    return dict(zip(names, r.stdout.split("\n")))


def _load(path):
    ctx = CtxCreate()
    buf, msg = P(), C.c_char_p()
    if MemBuf(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError(msg.value)
    mod = P()
    if ParseIR(ctx, buf, C.byref(mod), C.byref(msg)):
        raise RuntimeError(msg.value)
    return ctx, mod


def name_of(v):
    n = C.c_size_t()
    s = ValName(v, C.byref(n))
    return s.decode() if s else ""


def template_args(t):
    """top-level template arguments of `name<...>...`"""
    i = t.index("<") + 1
    d, cur, out = 0, "", []
    while i < len(t):
        c = t[i]
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            if d == 0 and c == ">" and t[i - 1] != "-":
                break
            d -= 1
        elif c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            i += 1
            continue
        cur += c
        i += 1
    return out + [cur.strip()]


def comparator_type(dm):
    """the comparator's type when dm is an instance of std::sort and relatives with a comparator"""
    m = re.match(r"void std::(stable_sort|sort|nth_element|partial_sort)<", dm)
    if not m:
        return None
    a = template_args(dm)
    return a[1] if len(a) == 2 else None


def set_inline_attrs(path, out, noinline_re):
    """Mark functions: noinline if the demangled name matches, alwaysinline otherwise; drop optnone."""
    ctx, mod = _load(path)
    k = {a: EnumKind(a.encode(), len(a)) for a in ("noinline", "alwaysinline", "optnone")}
    fns = []
    f = FirstFn(mod)
    while f:
        fns.append((f, name_of(f)))
        f = NextFn(f)
    dm = demangle([n for _, n in fns])
    IDX = 0xFFFFFFFF
    cmps = {c + "::operator()(" for c in (comparator_type(d) for d in dm.values()) if c}
    for f, n in fns:
        if FirstBB(f) is None:
            continue
        RemAttr(f, IDX, k["optnone"])
        RemAttr(f, IDX, k["noinline"])
        RemAttr(f, IDX, k["alwaysinline"])
        a = "noinline" if (noinline_re.search(dm[n]) or any(c in dm[n] and not dm[n].startswith("void std::") for c in cmps)) else "alwaysinline"
        AddAttr(f, IDX, CreateEA(ctx, k[a], 0))
    WriteBC(mod, out.encode())
    return dm


class Module:
    def __init__(self, path):
        self.ctx, self.mod = _load(path)
        self.dl = DL(self.mod)
        self._tc = {}
        self._gc = {}
        self.functions = {}
        self.globals = {}
        self._sretk = EnumKind(b"sret", 4)
        self._byvalk = EnumKind(b"byval", 5)
        f = FirstFn(self.mod)
        raw = []
        while f:
            n = name_of(f)
            raw.append((f, n))
            self.functions[n] = Function(n)
            f = NextFn(f)
        g = FirstG(self.mod)
        while g:
            n = name_of(g)
            self.globals[n] = g
            g = NextG(g)
        dm = demangle(list(self.functions))
        self._raw = dict((n, f) for f, n in raw)
        self._parsed = set()
        for f, n in raw:
            F = self.functions[n]
            F.demangled = dm[n]
            F.has_body = FirstBB(f) is not None
            F.fty = GVT(f)

    def fn(self, n):
        F = self.functions[n]
        if n not in self._parsed:
            self._parsed.add(n)
            self._parse_fn(self._raw[n], F)
        return F

    def find(self, rx):
        r = re.compile(rx)
        return [n for n, F in self.functions.items() if F.has_body and r.search(F.demangled)]

    def named_struct(self, name):
        t = TypeByName(self.ctx, name.encode())
        return self.type(t) if t else None

    def type(self, t):
        if t in self._tc:
            return self._tc[t]
        T = Type()
        T.kind = TK.get(TKind(t), "?")
        T.w = T.n = 0
        T.elems = T.offs = None
        p = PrintT(t)
        T.s = C.string_at(p).decode()
        DisposeMsg(p)
        T.size = T.store = 0
        self._tc[t] = T
        if T.kind == "int":
            T.w = IntW(t)
        if T.kind not in ("void", "func", "label", "metadata", "token", "?"):
            try:
                if not (T.kind == "struct" and " = type opaque" in T.s):
                    T.size = ABISize(self.dl, t)
                    T.store = StoreSize(self.dl, t)
            except Exception:
                pass
        if T.kind == "struct":
            n = NElem(t)
            T.elems = [self.type(ElemAt(t, i)) for i in range(n)]
            T.offs = [OffOf(self.dl, t, i) for i in range(n)]
            T.n = n
        elif T.kind == "array":
            T.n = ArrLen(t)
            T.elems = [self.type(ElemT(t))]
        elif T.kind == "vector":
            T.n = VecLen(t)
            T.elems = [self.type(ElemT(t))]
        return T

    def const(self, v):
        k = VKind(v)
        ty = self.type(TypeOf(v))
        # LLVMValueKind: 10 ConstantExpr, 18 ConstantInt, 19 ConstantFP
        if k == 18 or (IsNull(v) and ty.kind == "int"):
            if ty.w <= 64:
                return Const("int", ty, CIntZ(v))
            p = PrintV(v)
            s = C.string_at(p).decode()
            DisposeMsg(p)
            val = int(s.split()[-1])
            return Const("int", ty, val % (1 << ty.w))
        if k == 19 or (IsNull(v) and ty.kind in ("double", "float")):
            b = C.c_int()
            return Const("fp", ty, CReal(v, C.byref(b)))
        if ty.kind == "ptr" and IsNull(v):
            return Const("null", ty)
        if IsUndef(v):
            return Const("undef", ty)
        n = name_of(v)
        if n in self.functions and self._raw.get(n) == v:
            return Const("func", ty, n)
        if n and n in self.globals and self.globals[n] == v:
            return Const("global", ty, n)
        if IsNull(v):
            return Const("zero", ty)
        if ty.kind in ("array", "struct", "vector"):
            return Const("agg", ty, ops=[self.const(AggEl(v, i)) for i in range(ty.n)])
        if ty.kind == "metadata":
            return Const("undef", ty)
        if k == 10:
            opc = OPC.get(COpc(v), "?")
            ex = self.type(GEPT(v)) if opc == "gep" else None
            return Const("expr", ty, ops=[self.const(Op(v, i)) for i in range(NOps(v))], opc=opc, extra=ex)
        return Const("undef", ty)

    def global_init(self, n):
        g = self.globals[n]
        init = GetInit(g)
        return self.type(GVT(g)), (self.const(init) if init else None), bool(IsGConst(g))

    def _parse_fn(self, f, F):
        ids = {}
        cnt = 0
        for i in range(NParams(f)):
            p = Param(f, i)
            ids[p] = cnt
            a = GetAttrFn(f, i + 1, self._sretk)
            bv = GetAttrFn(f, i + 1, self._byvalk)
            F.args.append((cnt, self.type(TypeOf(p)), self.type(AttrT(a)) if a else None, self.type(AttrT(bv)) if bv else None))
            cnt += 1
        F.ret = self.type(FnRet(F.fty))
        blocks = {}
        bbs = []
        b = FirstBB(f)
        while b:
            B = Block(len(bbs))
            blocks[b] = B
            bbs.append(b)
            F.blocks.append(B)
            i = FirstI(b)
            while i:
                ids[i] = cnt
                cnt += 1
                i = NextI(i)
            b = NextBB(b)
        # LLVMValueAsBasicBlock is identity on pointers for block operands
        for b in bbs:
            B = blocks[b]
            i = FirstI(b)
            while i:
                I = self._instr(i, ids, blocks)
                if I is not None:
                    I.block = B
                    B.instrs.append(I)
                i = NextI(i)
            t = B.instrs[-1]
            n = {"br": 1, "switch": 1, "invoke": 1}.get(t.op)
            if t.op in ("br", "switch"):
                B.succs = list(dict.fromkeys(t.x["succs"]))
            elif t.op == "invoke":
                B.succs = [t.x["normal"], t.x["unwind"]]
        for B in F.blocks:
            for s in B.succs:
                s.preds.append(B)

    def _opnd(self, v, ids):
        if v in ids:
            return Ref(ids[v], self.type(TypeOf(v)))
        return self.const(v)

    def _instr(self, i, ids, blocks):
        I = Instr()
        I.id = ids[i]
        I.op = OPC.get(Opc(i), "op%d" % Opc(i))
        I.ty = self.type(TypeOf(i))
        I.x = {}
        ln = DbgLine(i)
        if ln:
            L = C.c_uint()
            s = DbgFile(i, C.byref(L))
            I.loc = (s[:L.value].decode() if s else "?", ln)
        else:
            I.loc = None
        op = I.op
        if op == "phi":
            I.ops = []
            I.x["inc"] = [(blocks[IncB(i, k)], self._opnd(IncV(i, k), ids)) for k in range(NInc(i))]
            return I
        if op in ("call", "invoke"):
            c = Callee(i)
            cn = name_of(c)
            if cn.startswith("llvm.dbg") or cn.startswith("llvm.lifetime") or cn.startswith("llvm.experimental.noalias"):
                return None
            n = NumArgs(i)
            I.ops = [self._opnd(Op(i, k), ids) for k in range(n)]
            I.x["callee"] = self._opnd(c, ids)
            sr = [GetAttrCS(i, k + 1, self._sretk) for k in range(n)]
            I.x["sret"] = [self.type(AttrT(a)) if a else None for a in sr]
            if op == "invoke":
                I.x["normal"] = blocks[NormDest(i)]
                I.x["unwind"] = blocks[UnwDest(i)]
            return I
        if op == "br":
            ns = NSucc(i)
            I.x["succs"] = [blocks[Succ(i, k)] for k in range(ns)]
            I.ops = [self._opnd(Op(i, 0), ids)] if ns == 2 else []
            return I
        if op == "switch":
            I.ops = [self._opnd(Op(i, 0), ids)]
            n = NOps(i)
            I.x["default"] = blocks[Op(i, 1)] if Op(i, 1) in blocks else None
            succs = [blocks[Succ(i, k)] for k in range(NSucc(i))]
            I.x["succs"] = succs
            I.x["default"] = succs[0]
            I.x["cases"] = [(self.const(Op(i, 2 + 2 * k)).val, succs[k + 1]) for k in range((n - 2) // 2)]
            return I
        if op == "landingpad":
            I.ops = []
            I.x["clauses"] = [self._opnd(Clause(i, k), ids) for k in range(NClauses(i))]
            I.x["cleanup"] = bool(IsCleanup(i))
            return I
        I.ops = [self._opnd(Op(i, k), ids) for k in range(NOps(i))]
        if op == "icmp":
            I.x["pred"] = ICMP[ICmpP(i)]
        elif op == "fcmp":
            I.x["pred"] = FCMP[FCmpP(i)]
        elif op == "alloca":
            I.x["ty"] = self.type(AllocT(i))
        elif op == "gep":
            I.x["ty"] = self.type(GEPT(i))
        elif op in ("extractvalue", "insertvalue"):
            n = NIdx(i)
            p = Idx(i)
            I.x["idx"] = [p[k] for k in range(n)]
        elif op in ("add", "sub", "mul", "shl"):
            I.x["nsw"] = bool(NSW(i))
            I.x["nuw"] = bool(NUW(i))
        return I
