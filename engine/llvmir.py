"""Load LLVM bitcode into plain Python objects through the LLVM-C API (ctypes)."""
import ctypes as C
import os

_lib = None


def _load():
    global _lib
    if _lib is not None:
        return _lib
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
              "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so"):
        try:
            _lib = C.CDLL(p)
            break
        except OSError:
            continue
    if _lib is None:
        raise RuntimeError("libLLVM-18.so not found")
    return _lib


class _F:
    def __init__(self):
        self.l = _load()

    def __getattr__(self, n):
        f = getattr(self.l, "LLVM" + n)
        setattr(self, n, f)
        return f


def _api():
    L = _F()
    P = C.c_void_p
    for n in ("ContextCreate GetFirstFunction GetNextFunction GetFirstBasicBlock GetNextBasicBlock "
              "GetFirstInstruction GetNextInstruction GetFirstGlobal GetNextGlobal GetOperand TypeOf "
              "GetInitializer GetAllocatedType GetGEPSourceElementType GetCalledValue GetElementType "
              "GlobalGetValueType GetBasicBlockParent BasicBlockAsValue ValueAsBasicBlock GetSuccessor "
              "GetIncomingValue GetIncomingBlock GetParam GetReturnType StructGetTypeAtIndex GetModuleDataLayout "
              "GetAggregateElement GetEntryBasicBlock GetSwitchDefaultDest GetBasicBlockTerminator "
              "GetIndices").split():
        getattr(L, n).restype = P
    for n in ("GetValueName2", "GetAsString", "PrintValueToString", "GetDebugLocFilename", "GetDebugLocDirectory", "GetStructName"):
        getattr(L, n).restype = C.c_void_p
    L.ABISizeOfType.restype = C.c_ulonglong
    L.OffsetOfElement.restype = C.c_ulonglong
    L.ConstIntGetZExtValue.restype = C.c_ulonglong
    L.ConstRealGetDouble.restype = C.c_double
    L.GetArrayLength2.restype = C.c_uint64
    return L


L = None

# LLVM-C opcode numbers
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "vaarg",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 68: "freeze", 60: "addrspacecast"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
KIND_INSTR, KIND_ARG = "i", "a"


class Type:
    __slots__ = ("kind", "width", "size", "elem", "count", "fields", "offsets", "name")

    def __init__(self, kind, width=0, size=0):
        self.kind = kind
        self.width = width
        self.size = size
        self.elem = None
        self.count = 0
        self.fields = ()
        self.offsets = ()
        self.name = ""

    def __repr__(self):
        return "%s%s" % (self.kind, self.width or "")


class Instr:
    __slots__ = ("nsw", "op", "ty", "ops", "id", "line", "file", "pred", "block", "succ", "inc", "gep", "callee",
                 "extra", "idx", "col")

    def __repr__(self):
        return "%%%s = %s %s @%s:%s" % (self.id, self.op, self.ops, os.path.basename(self.file or "?"), self.line)


class Block:
    __slots__ = ("id", "instrs", "func", "preds", "succs", "idx")


class Function:
    __slots__ = ("name", "args", "argtys", "blocks", "ret", "decl", "internal", "module", "_loops", "varargs",
                 "file", "line")


class Global:
    __slots__ = ("name", "const", "size", "init", "internal", "decl", "align", "threadlocal")


class Module:
    def __init__(self):
        self.functions = {}
        self.globals = {}
        self.path = None


def _s(p):
    return C.cast(p, C.c_char_p).value.decode() if p else ""


class Loader:
    def __init__(self, path):
        global L
        if L is None:
            L = _api()
        self.ctx = C.c_void_p(L.ContextCreate())
        buf = C.c_void_p()
        err = C.c_char_p()
        if L.CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        mod = C.c_void_p()
        if L.ParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.mod = mod
        self.td = C.c_void_p(L.GetModuleDataLayout(mod))
        self.tcache = {}
        self.m = Module()
        self.m.path = path
        self.load()

    def type(self, t):
        t = C.c_void_p(t)
        r = self.tcache.get(t.value)
        if r:
            return r
        k = L.GetTypeKind(t)
        if k == 0:
            r = Type("void")
        elif k == 2:
            r = Type("float", 32, 4)
        elif k == 3:
            r = Type("double", 64, 8)
        elif k == 4:
            r = Type("x86_fp80", 80, 16)
        elif k == 8:
            w = L.GetIntTypeWidth(t)
            r = Type("int", w, (w + 7) // 8)
        elif k == 12:
            r = Type("ptr", 64, 8)
        elif k == 10:
            r = Type("struct", 0, 0)
            self.tcache[t.value] = r
            r.size = L.ABISizeOfType(self.td, t) if not L.IsOpaqueStruct(t) else 0
            n = L.CountStructElementTypes(t)
            r.name = _s(L.GetStructName(t))
            r.fields = tuple(self.type(L.StructGetTypeAtIndex(t, i)) for i in range(n))
            r.offsets = tuple(L.OffsetOfElement(self.td, t, i) for i in range(n)) if r.size else ()
        elif k == 11:
            r = Type("array")
            r.elem = self.type(L.GetElementType(t))
            r.count = L.GetArrayLength2(t)
            r.size = L.ABISizeOfType(self.td, t)
        elif k == 9:
            r = Type("func")
        elif k == 7:
            r = Type("label")
        elif k == 13 or k == 17:
            r = Type("vector", 0, L.ABISizeOfType(self.td, t))
        else:
            r = Type("other%d" % k)
        self.tcache[t.value] = r
        return r

    def name(self, v):
        n = C.c_size_t()
        p = L.GetValueName2(C.c_void_p(v), C.byref(n))
        return C.string_at(p, n.value).decode() if p and n.value else ""

    def operand(self, v):
        if v in self.ids:
            return ("l", self.ids[v])
        vp = C.c_void_p(v)
        if L.IsAConstant(vp) or L.IsAFunction(vp):
            return self.const(v)
        if L.IsAInlineAsm(vp):
            return ("asm",)
        if L.IsABasicBlock(vp):
            return ("b", v)
        return ("other", L.GetValueKind(vp))

    IS = None

    def const(self, v):
        vp = C.c_void_p(v)
        L.IsAConstantInt.restype = L.IsAConstantFP.restype = C.c_void_p
        for n in ("IsAConstantPointerNull", "IsAFunction", "IsAGlobalVariable", "IsAUndefValue", "IsAConstantExpr",
                  "IsAConstantAggregateZero", "IsAConstantDataArray", "IsAConstantArray", "IsAConstantStruct"):
            getattr(L, n).restype = C.c_void_p
        ty = self.type(L.TypeOf(vp))
        if L.IsAConstantInt(vp):
            if ty.width > 64:
                return ("bigint", ty.width)
            return ("i", ty.width, L.ConstIntGetZExtValue(vp))
        if L.IsAConstantFP(vp):
            loss = C.c_int()
            return ("f", ty.kind, L.ConstRealGetDouble(vp, C.byref(loss)))
        if L.IsAConstantPointerNull(vp):
            return ("null",)
        if L.IsAFunction(vp):
            return ("fn", self.name(v))
        if L.IsAGlobalVariable(vp):
            return ("g", self.name(v), 0)
        if L.IsAUndefValue(vp):
            return ("undef", ty)
        if L.IsAConstantExpr(vp):
            opc = OPC.get(L.GetConstOpcode(vp), "?")
            n = L.GetNumOperands(vp)
            ops = [L.GetOperand(vp, i) for i in range(n)]
            if opc == "gep":
                base = self.const(ops[0])
                off, var = self.gep(vp, ops, True)
                if base[0] == "g":
                    return ("g", base[1], base[2] + off)
                if base[0] == "null":
                    return ("i", 64, off)
                return ("ce", "gep", base, off)
            cops = [self.const(o) for o in ops]
            if opc in ("bitcast", "inttoptr", "ptrtoint"):
                return cops[0] if opc != "inttoptr" or cops[0][0] != "i" else ("inttoptr", cops[0][2])
            return ("ce", opc, cops, ty)
        if L.IsAConstantAggregateZero(vp):
            return ("zero", ty)
        if L.IsAConstantDataArray(vp):
            n = L.GetNumOperands(vp)
            cnt = ty.count
            return ("agg", ty, [self.const(L.GetAggregateElement(vp, i)) for i in range(cnt)])
        if L.IsAConstantArray(vp) or L.IsAConstantStruct(vp):
            n = L.GetNumOperands(vp)
            return ("agg", ty, [self.const(L.GetOperand(vp, i)) for i in range(n)])
        return ("unk", ty)

    def gep(self, vp, ops, const):
        """-> (constant offset, [(operand value ref, scale, width)])"""
        t = L.GetGEPSourceElementType(vp)
        ty = self.type(t)
        off = 0
        var = []

        def idx(o, size):
            nonlocal off
            op = ("l", self.ids[o]) if o in self.ids else self.const(o)
            if op[0] == "i":
                x = op[2]
                if x >= 1 << (op[1] - 1):
                    x -= 1 << op[1]
                off += x * size
            else:
                var.append((op, size, self.type(L.TypeOf(C.c_void_p(o))).width))
        idx(ops[1], ty.size)
        cur = ty
        for o in ops[2:]:
            if cur.kind == "struct":
                op = self.const(o)
                off += cur.offsets[op[2]]
                cur = cur.fields[op[2]]
            elif cur.kind == "array":
                idx(o, cur.elem.size)
                cur = cur.elem
            else:
                raise RuntimeError("gep into " + cur.kind)
        return off, var

    def load(self):
        m = self.m
        g = L.GetFirstGlobal(self.mod)
        self.ids = {}
        while g:
            gp = C.c_void_p(g)
            G = Global()
            G.name = self.name(g)
            G.const = bool(L.IsGlobalConstant(gp))
            G.size = self.type(L.GlobalGetValueType(gp)).size
            L.GetInitializer.restype = C.c_void_p
            i = L.GetInitializer(gp)
            G.init = self.const(i) if i else None
            G.decl = bool(L.IsDeclaration(gp))
            G.internal = L.GetLinkage(gp) in (8, 9)
            G.threadlocal = bool(L.IsThreadLocal(gp))
            m.globals[G.name] = G
            g = L.GetNextGlobal(gp)
        f = L.GetFirstFunction(self.mod)
        while f:
            fp = C.c_void_p(f)
            F = Function()
            F.module = m
            F.name = self.name(f)
            F.decl = bool(L.IsDeclaration(fp))
            F.internal = L.GetLinkage(fp) in (8, 9)
            ft = C.c_void_p(L.GlobalGetValueType(fp))
            F.ret = self.type(L.GetReturnType(ft))
            F.varargs = bool(L.IsFunctionVarArg(ft))
            F.args = []
            F.argtys = []
            F.blocks = []
            F._loops = None
            F.file = None
            F.line = 0
            m.functions[F.name] = F
            self.ids = {}
            for i in range(L.CountParams(fp)):
                a = L.GetParam(fp, i)
                self.ids[a] = "a%d" % i
                F.args.append("a%d" % i)
                F.argtys.append(self.type(L.TypeOf(C.c_void_p(a))))
            if not F.decl:
                self.func(fp, F)
            f = L.GetNextFunction(fp)

    def func(self, fp, F):
        L.GetFirstBasicBlock.restype = C.c_void_p
        b = L.GetFirstBasicBlock(fp)
        bid = {}
        raw = []
        n = 0
        while b:
            B = Block()
            B.id = len(raw)
            B.idx = B.id
            B.func = F
            B.instrs = []
            B.preds = []
            B.succs = []
            bid[L.BasicBlockAsValue(C.c_void_p(b))] = B
            bid[b] = B
            i = L.GetFirstInstruction(C.c_void_p(b))
            lst = []
            while i:
                if not self.skip(i):
                    self.ids[i] = "v%d" % n
                    n += 1
                    lst.append(i)
                i = L.GetNextInstruction(C.c_void_p(i))
            raw.append((B, lst))
            F.blocks.append(B)
            b = L.GetNextBasicBlock(C.c_void_p(b))
        for B, lst in raw:
            for i in lst:
                ins = self.instr(i, bid)
                ins.block = B
                ins.idx = len(B.instrs)
                B.instrs.append(ins)
                if F.file is None and ins.file:
                    F.file, F.line = ins.file, ins.line
            B.succs = B.instrs[-1].succ or []
        for B in F.blocks:
            for s in B.succs:
                if B.id not in s.preds:
                    s.preds.append(B.id)

    def skip(self, i):
        ip = C.c_void_p(i)
        if OPC.get(L.GetInstructionOpcode(ip)) != "call":
            return False
        f = L.GetCalledValue(ip)
        L.IsAFunction.restype = C.c_void_p
        return bool(f and L.IsAFunction(C.c_void_p(f)) and
                    self.name(f).startswith(("llvm.dbg.", "llvm.lifetime", "llvm.assume", "llvm.experimental")))

    def instr(self, i, bid):
        ip = C.c_void_p(i)
        I = Instr()
        I.id = self.ids[i]
        opc = L.GetInstructionOpcode(ip)
        I.op = OPC.get(opc, "op%d" % opc)
        I.ty = self.type(L.TypeOf(ip))
        n = L.GetNumOperands(ip)
        raw = [L.GetOperand(ip, k) for k in range(n)]
        I.line = L.GetDebugLocLine(ip)
        I.col = L.GetDebugLocColumn(ip)
        ln = C.c_uint()
        p = L.GetDebugLocFilename(ip, C.byref(ln))
        I.file = C.string_at(p, ln.value).decode() if p and ln.value else None
        if I.file and not os.path.isabs(I.file):
            p = L.GetDebugLocDirectory(ip, C.byref(ln))
            if p and ln.value:
                I.file = os.path.join(C.string_at(p, ln.value).decode(), I.file)
        I.pred = None
        I.succ = None
        I.inc = None
        I.gep = None
        I.callee = None
        I.extra = None
        I.nsw = False
        I.ops = []
        if I.op == "br":
            ns = L.GetNumSuccessors(ip)
            I.succ = [bid[L.GetSuccessor(ip, k)] for k in range(ns)]
            if ns == 2:
                I.ops = [self.operand(raw[0])]
        elif I.op == "switch":
            I.ops = [self.operand(raw[0])]
            ns = L.GetNumSuccessors(ip)
            I.succ = [bid[L.GetSuccessor(ip, k)] for k in range(ns)]
            # operands: cond, default, (val, dest)*
            I.extra = [self.const(raw[2 + 2 * k])[2] for k in range(ns - 1)]
        elif I.op == "phi":
            I.inc = []
            for k in range(L.CountIncoming(ip)):
                v = L.GetIncomingValue(ip, k)
                b = L.GetIncomingBlock(ip, k)
                I.inc.append((bid[b].id, self.operand(v)))
        elif I.op == "call":
            cv = L.GetCalledValue(ip)
            I.callee = self.operand(cv)
            na = L.GetNumArgOperands(ip)
            I.ops = [self.operand(raw[k]) for k in range(na)]
            I.extra = [self.type(L.TypeOf(C.c_void_p(raw[k]))) for k in range(na)]
        elif I.op == "gep":
            I.ops = [self.operand(raw[0])]
            I.gep = self.gep(ip, raw, False)
        elif I.op == "alloca":
            I.ops = [self.operand(raw[0])]
            I.extra = self.type(L.GetAllocatedType(ip))
        elif I.op == "icmp":
            I.pred = ICMP[L.GetICmpPredicate(ip)]
            I.ops = [self.operand(r) for r in raw]
            I.extra = self.type(L.TypeOf(C.c_void_p(raw[0])))
        elif I.op == "fcmp":
            I.pred = FCMP[L.GetFCmpPredicate(ip)]
            I.ops = [self.operand(r) for r in raw]
            I.extra = self.type(L.TypeOf(C.c_void_p(raw[0])))
        elif I.op == "extractvalue" or I.op == "insertvalue":
            I.ops = [self.operand(r) for r in raw]
            k = L.GetNumIndices(ip)
            idx = C.cast(L.GetIndices(ip), C.POINTER(C.c_uint))
            I.extra = [idx[j] for j in range(k)]
        else:
            I.ops = [self.operand(r) for r in raw]
            I.extra = [self.type(L.TypeOf(C.c_void_p(r))) for r in raw]
            if I.op in ("add", "sub", "mul", "shl"):
                I.nsw = bool(L.GetNSW(ip))
            elif I.op == "atomicrmw":
                I.pred = {0: "xchg", 1: "add", 2: "sub", 3: "and", 5: "or", 6: "xor"}.get(L.GetAtomicRMWBinOp(ip))
        return I


def load(path):
    return Loader(path).m


def init_bytes(init, size):
    """Flatten a constant initializer -> list of (offset, size, operand)."""
    out = []

    def rec(c, off, ty=None):
        k = c[0]
        if k == "agg":
            ty = c[1]
            for i, e in enumerate(c[2]):
                o = off + (ty.offsets[i] if ty.kind == "struct" else i * ty.elem.size)
                et = ty.fields[i] if ty.kind == "struct" else ty.elem
                rec(e, o, et)
        elif k == "zero":
            out.append((off, c[1].size, ("zero",)))
        elif k == "i":
            out.append((off, (c[1] + 7) // 8, c))
        elif k == "undef":
            pass
        else:
            out.append((off, ty.size if ty is not None else 8, c))
    if init is not None:
        rec(init, 0)
    return out


# ---------------------------------------------------------------- CFG helpers

class Loop:
    __slots__ = ("header", "blocks", "latches", "parent", "depth")


def loops(F):
    """Natural loops by dominators. Returns {header block id: Loop}; None entries never occur.
    Irreducible graphs raise ValueError."""
    if F._loops is not None:
        return F._loops
    blocks = F.blocks
    n = len(blocks)
    # reachable + reverse postorder
    seen = set()
    order = []

    def dfs(b):
        stack = [(b, iter(b.succs))]
        seen.add(b.id)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(x.id)
                stack.pop()
    dfs(blocks[0])
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]
    res = {}
    for b in rpo:
        for s in blocks[b].succs:
            if pos[s.id] <= pos[b]:
                if not dom(s.id, b):
                    raise ValueError("irreducible control flow in " + F.name)
                lp = res.get(s.id)
                if lp is None:
                    lp = res[s.id] = Loop()
                    lp.header = s.id
                    lp.blocks = {s.id}
                    lp.latches = []
                lp.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in lp.blocks:
                        lp.blocks.add(x)
                        work.extend(p for p in blocks[x].preds if p in pos)
    F._loops = res
    return res
