"""LLVM bitcode -> Python objects, through the LLVM C API (ctypes)."""
import ctypes as C, re, subprocess
from .build import AnalysisBroken, llvm_tool

_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1", "libLLVM-18.so.1", "libLLVM.so.18.1"):
        try:
            L = C.CDLL(p)
            break
        except OSError:
            continue
    else:
        raise AnalysisBroken("libLLVM-18 not found")
    vp, ui, cp, ci = C.c_void_p, C.c_uint, C.c_char_p, C.c_int

    def f(name, res, *args):
        fn = getattr(L, name)
        fn.restype = res
        fn.argtypes = list(args)
    f("LLVMContextCreate", vp)
    f("LLVMCreateMemoryBufferWithContentsOfFile", ci, cp, C.POINTER(vp), C.POINTER(cp))
    f("LLVMParseBitcodeInContext2", ci, vp, vp, C.POINTER(vp))
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
              "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMGetFirstParam", "LLVMGetNextParam",
              "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMTypeOf", "LLVMGetCalledValue", "LLVMGetInitializer",
              "LLVMGetElementType", "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGlobalGetValueType",
              "LLVMGetModuleDataLayout", "LLVMGetSwitchDefaultDest", "LLVMGetCondition", "LLVMGetReturnType",
              "LLVMGetBasicBlockTerminator", "LLVMGetCalledFunctionType"):
        f(n, vp, vp)
    f("LLVMGetModuleDataLayout", vp, vp)
    f("LLVMGetValueName2", cp, vp, C.POINTER(C.c_size_t))
    f("LLVMGetInstructionOpcode", ci, vp)
    f("LLVMGetNumOperands", ci, vp)
    f("LLVMGetOperand", vp, vp, ui)
    f("LLVMGetValueKind", ci, vp)
    f("LLVMGetTypeKind", ci, vp)
    f("LLVMGetIntTypeWidth", ui, vp)
    f("LLVMGetStructName", cp, vp)
    f("LLVMCountStructElementTypes", ui, vp)
    f("LLVMStructGetTypeAtIndex", vp, vp, ui)
    f("LLVMGetArrayLength2", C.c_uint64, vp)
    f("LLVMGetArrayLength", ui, vp)
    f("LLVMABISizeOfType", C.c_uint64, vp, vp)
    f("LLVMOffsetOfElement", C.c_uint64, vp, vp, ui)
    f("LLVMTypeIsSized", ci, vp)
    f("LLVMConstIntGetSExtValue", C.c_longlong, vp)
    f("LLVMConstIntGetZExtValue", C.c_ulonglong, vp)
    f("LLVMGetICmpPredicate", ci, vp)
    f("LLVMGetNumSuccessors", ui, vp)
    f("LLVMGetSuccessor", vp, vp, ui)
    f("LLVMCountIncoming", ui, vp)
    f("LLVMGetIncomingValue", vp, vp, ui)
    f("LLVMGetIncomingBlock", vp, vp, ui)
    f("LLVMIsDeclaration", ci, vp)
    f("LLVMGetLinkage", ci, vp)
    f("LLVMGetDebugLocLine", ui, vp)
    f("LLVMGetDebugLocFilename", C.c_void_p, vp, C.POINTER(ui))
    f("LLVMIsConditional", ci, vp)
    f("LLVMValueAsBasicBlock", vp, vp)
    f("LLVMIsFunctionVarArg", ci, vp)
    f("LLVMGetEnumAttributeKindForName", ui, cp, C.c_size_t)
    f("LLVMGetEnumAttributeAtIndex", vp, vp, ui, ui)
    f("LLVMGetCallSiteEnumAttribute", vp, vp, ui, ui)
    f("LLVMGetAsString", C.c_void_p, vp, C.POINTER(C.c_size_t))
    f("LLVMIsConstantString", ci, vp)
    f("LLVMGetConstOpcode", ci, vp)
    f("LLVMPrintValueToString", C.c_void_p, vp)
    f("LLVMPrintTypeToString", C.c_void_p, vp)
    f("LLVMGetVolatile", ci, vp)
    f("LLVMGetAggregateElement", vp, vp, ui)
    f("LLVMIsGlobalConstant", ci, vp)
    f("LLVMIsNull", ci, vp)
    f("LLVMGetNumIndices", ui, vp)
    f("LLVMGetIndices", C.POINTER(ui), vp)
    _L = L
    return L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 49: "va_arg", 53: "extractvalue", 54: "insertvalue", 66: "fneg", 68: "freeze",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 50: "extractelement", 51: "insertelement", 52: "shufflevector"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
# LLVMValueKind (18)
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_GVAR, VK_CEXPR = 0, 1, 5, 6, 8, 10
VK_NAMES = {0: "arg", 1: "bb", 5: "func", 6: "alias", 8: "gvar", 10: "cexpr"}


class Value:
    __slots__ = ("kind", "ty", "name")


class Const:
    """kind: int null undef str(not used) other"""
    __slots__ = ("kind", "v", "bits")

    def __init__(self, kind, v=None, bits=0):
        self.kind, self.v, self.bits = kind, v, bits

    def __repr__(self):
        return "%s" % (self.v,) if self.kind == "int" else self.kind


class Arg:
    __slots__ = ("idx", "name", "fn", "ty")
    kind = "arg"

    def __init__(self, idx, name, fn, ty):
        self.idx, self.name, self.fn, self.ty = idx, name, fn, ty

    def __repr__(self):
        return "%%%s" % (self.name or "arg%d" % self.idx)


class GVar:
    __slots__ = ("name", "size", "string", "ptr", "const", "sname", "_init", "typ", "mod")
    kind = "gvar"

    def __repr__(self):
        return "@" + self.name + ("=%r" % self.string if self.string is not None else "")


class CGep:
    """constant address: global + byte offset"""
    __slots__ = ("base", "off", "path")
    kind = "cgep"

    def __init__(self, base, off, path):
        self.base, self.off, self.path = base, off, path

    def __repr__(self):
        return "%r+%d" % (self.base, self.off)


class Inst:
    __slots__ = ("op", "ops", "block", "idx", "line", "file", "ty", "pred", "callee", "size", "sname", "off",
                 "var", "incoming", "succs", "cases", "default", "name", "uid", "fn", "count", "bits", "indices", "path",
                 "asize")
    kind = "inst"

    def loc(self):
        return "%s:%d" % (self.file or "?", self.line or 0)

    def __repr__(self):
        return "%%%d:%s" % (self.uid, self.op)


class Block:
    __slots__ = ("id", "insts", "succs", "preds", "fn", "name")

    def term(self):
        return self.insts[-1]

    def __repr__(self):
        return "bb%d" % self.id


class Function:
    def __init__(self, name):
        self.name = name
        self.blocks = []
        self.args = []
        self.decl = False
        self.internal = False
        self.noreturn = False
        self.vararg = False
        self.file = None
        self.line = 0
        self.kind = "func"
        self.ret_ty = None

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def calls(self):
        for i in self.insts():
            if i.op == "call":
                yield i

    def loc(self):
        return "%s:%d" % (self.file or "?", self.line or 0)

    def __repr__(self):
        return "@" + self.name


class Type:
    __slots__ = ("kind", "bits", "sname", "size", "elem", "n", "fields", "offs", "ptr")
    # kind: int ptr struct array void float func other

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.bits
        if self.kind == "struct":
            return "%" + (self.sname or "anon")
        if self.kind == "array":
            return "[%d x %r]" % (self.n, self.elem)
        return self.kind


class Module:
    def __init__(self, path, root=None):
        L = self.L = _lib()
        ctx = L.LLVMContextCreate()
        buf, err = C.c_void_p(), C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise AnalysisBroken("cannot read " + path)
        m = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(m)):
            raise AnalysisBroken("cannot parse " + path)
        self.m = m.value
        self.dl = L.LLVMGetModuleDataLayout(self.m)
        self._types = {}
        self._consts = {}
        self.functions = {}
        self.globals = {}
        self._map = {}
        self.root = (root or "").rstrip("/")
        self._nr = L.LLVMGetEnumAttributeKindForName(b"noreturn", 8)
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            self._global(g)
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.m)
        fl = []
        while f:
            fn = Function(self._name(f))
            fn.ptr = f
            fn.mod = self
            self._map[f] = fn
            self.functions[fn.name] = fn
            fl.append(f)
            f = L.LLVMGetNextFunction(f)
        for f in fl:
            self._function(f)
        self._struct_members(path)
        self._addr_taken()

    # -- helpers
    def _name(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s.decode() if s else ""

    def type(self, t):
        ty = self._types.get(t)
        if ty is not None:
            return ty
        L = self.L
        ty = Type()
        ty.ptr = t
        ty.sname = None
        ty.bits = 0
        ty.n = 0
        ty.elem = None
        ty.fields = ty.offs = None
        self._types[t] = ty
        k = L.LLVMGetTypeKind(t)
        ty.size = 0
        if k == 0:
            ty.kind = "void"
        elif k == 8:
            ty.kind = "int"
            ty.bits = L.LLVMGetIntTypeWidth(t)
        elif k == 9:
            ty.kind = "func"
        elif k == 10:
            ty.kind = "struct"
            s = L.LLVMGetStructName(t)
            ty.sname = s.decode() if s else None
            if ty.sname and ty.sname.startswith("struct."):
                ty.sname = ty.sname[7:]
            if ty.sname:
                # the same named struct may get a suffix when modules are linked
                ty.sname = re.sub(r"^(?!anon)(\w+)\.\d+$", r"\1", ty.sname)
            n = L.LLVMCountStructElementTypes(t)
            ty.fields = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            if L.LLVMTypeIsSized(t):
                ty.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
        elif k == 11:
            ty.kind = "array"
            ty.n = L.LLVMGetArrayLength(t)
            ty.elem = self.type(L.LLVMGetElementType(t))
        elif k == 12:
            ty.kind = "ptr"
        elif k in (1, 2, 3, 4, 5, 6):
            ty.kind = "float"
        else:
            ty.kind = "other"
        if ty.kind not in ("void", "func", "other") and L.LLVMTypeIsSized(t):
            ty.size = L.LLVMABISizeOfType(self.dl, t)
        return ty

    def _global(self, g):
        L = self.L
        gv = GVar()
        gv.mod = self
        gv.name = self._name(g)
        gv.typ = self.type(L.LLVMGlobalGetValueType(g))
        gv.size = gv.typ.size
        gv.sname = gv.typ.sname
        gv.const = bool(L.LLVMIsGlobalConstant(g))
        gv.string = None
        gv.ptr = g
        gv._init = None if L.LLVMIsDeclaration(g) else L.LLVMGetInitializer(g)
        if gv._init and gv.typ.kind == "array" and gv.typ.elem.kind == "int" and gv.typ.elem.bits == 8:
            if L.LLVMIsNull(gv._init):
                gv.string = ""
            elif L.LLVMGetValueKind(gv._init) == 16 and L.LLVMIsConstantString(gv._init):
                n = C.c_size_t()
                p = L.LLVMGetAsString(gv._init, C.byref(n))
                gv.string = C.string_at(p, n.value).split(b"\0")[0].decode("latin1")
        self._map[g] = gv
        self.globals[gv.name] = gv

    def init_elem(self, gv, *idx):
        """element of a global initializer as Python value (Const/GVar/Function) or None"""
        v = gv._init
        for i in idx:
            if not v:
                return None
            v = self.L.LLVMGetAggregateElement(v, i)
        return self.value(v) if v else None

    def value(self, v):
        r = self._map.get(v)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetValueKind(v)
        r = None
        t = self.type(L.LLVMTypeOf(v))
        if t.kind == "int" and k not in (VK_ARG, VK_CEXPR) and not (20 <= k <= 99):
            pass
        s = None
        if k == 10:  # constant expr
            opc = OPC.get(L.LLVMGetConstOpcode(v), "?")
            if opc == "gep":
                base = self.value(L.LLVMGetOperand(v, 0))
                off, pathv = self._const_gep(v)
                if isinstance(base, CGep):
                    r = CGep(base.base, base.off + off, None)
                elif off is not None:
                    r = CGep(base, off, pathv)
            elif opc in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
                r = self.value(L.LLVMGetOperand(v, 0))
            if r is None:
                r = Const("other")
        else:
            p = L.LLVMPrintValueToString(v) if k not in (13, 16, 17, 18) else None
            # ConstantInt kind is 18 (LLVMConstantIntValueKind) in LLVM 18; detect by trial
            if t.kind == "int":
                txt = C.string_at(L.LLVMPrintValueToString(v)).decode()
                last = txt.split()[-1]
                if re.match(r"^-?\d+$", last):
                    r = Const("int", L.LLVMConstIntGetSExtValue(v) if t.bits <= 64 else 0, t.bits)
                elif last in ("true", "false"):
                    r = Const("int", 1 if last == "true" else 0, 1)
                else:
                    r = Const("undef" if last in ("undef", "poison") else "other", None, t.bits)
            elif t.kind == "ptr":
                txt = C.string_at(L.LLVMPrintValueToString(v)).decode()
                last = txt.split()[-1]
                r = Const("null" if last == "null" else "undef" if last in ("undef", "poison") else "other")
            else:
                txt = C.string_at(L.LLVMPrintValueToString(v)).decode()
                r = Const("zero" if "zeroinitializer" in txt else "undef" if txt.split()[-1] in ("undef", "poison") else "other")
        self._map[v] = r
        return r

    def _const_gep(self, v):
        L = self.L
        ty = self.type(L.LLVMGetGEPSourceElementType(v))
        off = 0
        path = []
        for i in range(1, L.LLVMGetNumOperands(v)):
            o = self.value(L.LLVMGetOperand(v, i))
            if not isinstance(o, Const) or o.kind != "int":
                return None, None
            if i == 1:
                off += o.v * ty.size
            elif ty.kind == "struct":
                path.append((ty.sname, ty.offs[o.v]))
                off += ty.offs[o.v]
                ty = ty.fields[o.v]
            elif ty.kind == "array":
                ty = ty.elem
                off += o.v * ty.size
            else:
                return None, None
        return off, path

    def _loc(self, v):
        n = C.c_uint()
        p = self.L.LLVMGetDebugLocFilename(v, C.byref(n))
        f = C.string_at(p, n.value).decode() if p else None
        return f, self.L.LLVMGetDebugLocLine(v)

    def _function(self, f):
        L = self.L
        fn = self._map[f]
        fn.decl = bool(L.LLVMIsDeclaration(f))
        fn.internal = L.LLVMGetLinkage(f) in (8, 9)
        fn.noreturn = bool(L.LLVMGetEnumAttributeAtIndex(f, C.c_uint(0xFFFFFFFF).value, self._nr))
        fty = L.LLVMGlobalGetValueType(f)
        fn.vararg = bool(L.LLVMIsFunctionVarArg(fty))
        fn.ret_ty = self.type(L.LLVMGetReturnType(fty))
        a = L.LLVMGetFirstParam(f)
        i = 0
        while a:
            arg = Arg(i, self._name(a), fn, self.type(L.LLVMTypeOf(a)))
            self._map[a] = arg
            fn.args.append(arg)
            a = L.LLVMGetNextParam(a)
            i += 1
        if fn.decl:
            return
        fn.file, fn.line = self._loc(f)
        if fn.file and "/" in fn.file:
            fn.file = fn.file.rsplit("/", 1)[1]
        raw = []
        b = L.LLVMGetFirstBasicBlock(f)
        uid = 0
        while b:
            blk = Block()
            blk.id = len(fn.blocks)
            blk.fn = fn
            blk.insts, blk.preds, blk.succs = [], [], []
            self._map[b] = blk
            fn.blocks.append(blk)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ins = Inst()
                ins.uid = uid
                uid += 1
                ins.block = blk
                ins.fn = fn
                raw.append((i, ins))
                self._map[i] = ins
                blk.insts.append(ins)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        drop = []
        for i, ins in raw:
            ins.op = OPC.get(L.LLVMGetInstructionOpcode(i), "?%d" % L.LLVMGetInstructionOpcode(i))
            fl, ins.line = self._loc(i)
            ins.file = fl.rsplit("/", 1)[-1] if fl else fn.file
            ins.ty = self.type(L.LLVMTypeOf(i))
            ins.pred = ins.callee = ins.sname = ins.var = ins.incoming = ins.succs = ins.cases = ins.default = None
            ins.off = ins.size = ins.path = ins.indices = ins.asize = None
            ins.name = self._name(i)
            nops = L.LLVMGetNumOperands(i)
            op = ins.op
            if op == "br":
                n = L.LLVMGetNumSuccessors(i)
                ins.succs = [self._map[L.LLVMGetSuccessor(i, k)] for k in range(n)]
                ins.ops = [self.value(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
            elif op == "switch":
                n = L.LLVMGetNumSuccessors(i)
                ins.succs = [self._map[L.LLVMGetSuccessor(i, k)] for k in range(n)]
                ins.default = ins.succs[0]
                ins.ops = [self.value(L.LLVMGetOperand(i, 0))]
                ins.cases = []
                for k in range(1, n):
                    ins.cases.append((self.value(L.LLVMGetOperand(i, 2 * k)).v, ins.succs[k]))
            elif op == "phi":
                ins.incoming = [(self.value(L.LLVMGetIncomingValue(i, k)), self._map[L.LLVMGetIncomingBlock(i, k)])
                                for k in range(L.LLVMCountIncoming(i))]
                ins.ops = [v for v, _ in ins.incoming]
            elif op == "call":
                cv = L.LLVMGetCalledValue(i)
                kcv = self.value(cv) if cv in self._map or L.LLVMGetValueKind(cv) != 9 else None
                ins.callee = kcv
                if isinstance(kcv, Function) and (kcv.name.startswith("llvm.dbg.") or kcv.name.startswith("llvm.lifetime")):
                    drop.append(ins)
                    ins.ops = []
                    continue
                ins.ops = [self.value(L.LLVMGetOperand(i, k)) for k in range(nops - 1)]
            else:
                ins.ops = [self.value(L.LLVMGetOperand(i, k)) for k in range(nops)]
                if op == "icmp":
                    ins.pred = PRED[L.LLVMGetICmpPredicate(i)]
                elif op == "alloca":
                    at = self.type(L.LLVMGetAllocatedType(i))
                    ins.sname = at.sname
                    c = ins.ops[0]
                    ins.asize = at
                    ins.size = at.size * c.v if isinstance(c, Const) and c.kind == "int" else None
                elif op == "gep":
                    self._gep(i, ins)
                elif op in ("extractvalue", "insertvalue"):
                    ins.indices = [L.LLVMGetIndices(i)[k] for k in range(L.LLVMGetNumIndices(i))]
        for blk in fn.blocks:
            blk.insts = [x for x in blk.insts if x not in drop] if drop else blk.insts
            t = blk.insts[-1]
            if t.succs:
                for s in t.succs:
                    if s not in blk.succs:
                        blk.succs.append(s)
                        s.preds.append(blk)
            last = 0
            for x in blk.insts:
                if not x.line:
                    x.line = last
                last = x.line or last

    def _gep(self, i, ins):
        """ins.ops[0] base; ins.off constant byte offset or None; ins.var [(value, scale)];
        ins.path [(struct name, field byte offset)]"""
        L = self.L
        ty = self.type(L.LLVMGetGEPSourceElementType(i))
        ins.sname = ty.sname
        off = 0
        var = []
        path = []
        for k, o in enumerate(ins.ops[1:], 1):
            c = o.v if isinstance(o, Const) and o.kind == "int" else None
            if k == 1:
                if c is None:
                    var.append((o, ty.size))
                else:
                    off += c * ty.size
            elif ty.kind == "struct":
                path.append((ty.sname, ty.offs[c]))
                off += ty.offs[c]
                ty = ty.fields[c]
            elif ty.kind == "array":
                ty = ty.elem
                if c is None:
                    var.append((o, ty.size))
                else:
                    off += c * ty.size
        ins.off = off
        ins.var = var
        ins.path = path
        ins.size = ty.size
        ins.asize = ty

    # -- debug info: struct name -> {offset: (member, type name or None)}
    def _struct_members(self, path):
        txt = subprocess.run([llvm_tool("llvm-dis"), path, "-o", "-"], stdout=subprocess.PIPE, check=True).stdout.decode("latin1")
        md = {}
        for m in re.finditer(r"(?m)^(!\d+) = (?:distinct )?(!.*)$", txt):
            md[m.group(1)] = m.group(2)
        self.structs = {}

        def attr(s, k):
            m = re.search(r"[(, ]%s: ([^,)]+)" % k, s)
            return m.group(1) if m else None

        def base_type(ref):
            for _ in range(8):
                s = md.get(ref)
                if not s:
                    return None
                if s.startswith("!DICompositeType"):
                    return ref
                if s.startswith("!DIDerivedType") and ("typedef" in s or "const" in s):
                    ref = attr(s, "baseType")
                    continue
                return None

        def collect(ref, base, out, prefix):
            s = md[ref]
            el = attr(s, "elements")
            if not el or el not in md:
                return
            for e in re.findall(r"!\d+", md[el]):
                ms = md.get(e, "")
                if "DW_TAG_member" not in ms:
                    continue
                nm = (attr(ms, "name") or '""').strip('"')
                o = int(attr(ms, "offset") or 0) // 8
                bt = base_type(attr(ms, "baseType"))
                nested = None
                if bt and "DW_TAG_structure_type" in md[bt]:
                    n2 = attr(md[bt], "name")
                    if n2:
                        nested = n2.strip('"')
                        out.setdefault(base + o, (prefix + nm, nested))
                        continue
                    collect(bt, base + o, out, prefix + nm + ".")
                    continue
                out.setdefault(base + o, (prefix + nm, None))
        for ref, s in md.items():
            if s.startswith("!DICompositeType") and "DW_TAG_structure_type" in s:
                n = attr(s, "name")
                if n:
                    n = n.strip('"')
                    if n in self.structs and self.structs[n]:
                        continue
                    out = {}
                    collect(ref, 0, out, "")
                    self.structs[n] = out

    def field(self, sname, off):
        """canonical 'struct.member' of a byte offset, descending into named nested structs"""
        if sname is None:
            return None
        for _ in range(6):
            mem = self.structs.get(sname)
            if not mem:
                return "%s+%d" % (sname, off)
            best = None
            for o in mem:
                if o <= off and (best is None or o > best):
                    best = o
            if best is None:
                return "%s+%d" % (sname, off)
            nm, nested = mem[best]
            if nested and nested in self.structs and self.structs[nested]:
                sname, off = nested, off - best
                continue
            if off == best:
                return "%s.%s" % (sname, nm)
            return "%s.%s+%d" % (sname, nm, off - best)
        return None

    def _addr_taken(self):
        self.address_taken = set()
        for fn in self.functions.values():
            for i in fn.insts():
                for o in i.ops:
                    if isinstance(o, Function):
                        self.address_taken.add(o.name)
        # globals' initializers
        for gv in self.globals.values():
            if gv._init and gv.typ.kind in ("struct", "array") and gv.string is None:
                self._scan_init(gv._init, 0)

    def init_values(self, gv):
        """leaves of a global's initializer"""
        out, L = [], self.L

        def walk(v, t, d):
            if not v or d > 5:
                return
            if t.kind == "struct":
                for k in range(len(t.fields)):
                    walk(L.LLVMGetAggregateElement(v, k), t.fields[k], d + 1)
            elif t.kind == "array" and not (t.elem.kind == "int" and t.elem.bits == 8):
                for k in range(min(t.n, 4096)):
                    walk(L.LLVMGetAggregateElement(v, k), t.elem, d + 1)
            elif t.kind in ("ptr", "int"):
                out.append(self.value(v))
        if gv._init:
            walk(gv._init, gv.typ, 0)
        return out

    def _scan_init(self, v, d):
        if d > 3 or not v:
            return
        L = self.L
        r = self._map.get(v)
        if isinstance(r, Function):
            self.address_taken.add(r.name)
            return
        n = L.LLVMGetNumOperands(v) if L.LLVMGetValueKind(v) not in (0, 1) else 0
        for k in range(n):
            self._scan_init(L.LLVMGetOperand(v, k), d + 1)

    def defined(self):
        return [f for f in self.functions.values() if not f.decl]

    def fn(self, name):
        f = self.functions.get(name)
        if f is None or f.decl:
            raise AnalysisBroken("anchor function '%s' not found in the current tree" % name)
        return f
