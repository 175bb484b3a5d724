"""Facts about the whole program that rules share: field names, effects, call graph, functions that never return."""
import os
from .ir import Inst, Arg, Const, GVar, CGep, Function
from .build import AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))


def _api():
    with open(os.path.join(HERE, "api.txt")) as f:
        return set(l.strip() for l in f if l.strip() and not l.startswith("#"))


class Model:
    # wrappers whose result is a fresh non-null object (this is what P21 decides)
    ALLOCS = {"xmalloc", "xcalloc", "xstrdup", "pool_alloc", "pool_calloc", "pool_create", "pool_create_empty",
              "pool_create_preallocated", "xstr_create", "xstr_create_empty", "map_create", "map_create_str", "spawn_create",
              "ulist_create", "pool_printf"}
    EXT_NORETURN = {"exit", "_exit", "abort", "__assert_fail", "_Exit", "quick_exit"}

    def __init__(self, m):
        self.m = m
        self.api = _api()
        self._pf = {}
        self._mod = {}
        self._callers = None
        self.array_fields = frozenset(
            m.field(t.sname, o) for t in m._types.values() if t.kind == "struct" and t.sname in m.structs and t.offs
            for k, o in enumerate(t.offs) if t.fields[k].kind == "array")
        self._field_fns()
        self._noret()

    # --- pointers -> field names
    def struct_ref(self, o, depth=0):
        if depth > 12:
            return None
        if isinstance(o, CGep):
            g = o.base
            if isinstance(g, GVar) and g.typ.sname:
                return (g.typ.sname, o.off)
            return None
        if isinstance(o, Inst) and o.op == "gep":
            if not o.path:
                return None
            first = o.path[0][0]
            off = sum(x[1] for x in o.path)
            if first and not first.startswith("anon") and first in self.m.structs:
                return (first, off)
            b = self.struct_ref(o.ops[0], depth + 1)
            if b:
                return (b[0], b[1] + off)
            if isinstance(o.ops[0], GVar) and o.ops[0].typ.sname:
                return (o.ops[0].typ.sname, off)
            return None
        if isinstance(o, GVar) and o.typ.sname:
            return (o.typ.sname, 0)
        if isinstance(o, Inst) and o.op in ("bitcast",):
            return self.struct_ref(o.ops[0], depth + 1)
        return None

    def ptr_field(self, o):
        try:
            return self._pf[o]
        except KeyError:
            pass
        except TypeError:
            return None
        r = self.struct_ref(o)
        f = self.m.field(*r) if r else None
        self._pf[o] = f
        return f

    # --- functions stored into a struct field
    def _field_fns(self):
        self.field_fns = {}
        m = self.m
        for fn in m.defined():
            for i in fn.insts():
                if i.op == "store" and isinstance(i.ops[0], Function):
                    f = self.ptr_field(i.ops[1])
                    if f:
                        self.field_fns.setdefault(f, {}).setdefault(i.ops[0].name, []).append(i)
                elif i.op == "store" and isinstance(i.ops[0], Inst) and i.ops[0].op in ("select", "phi"):
                    f = self.ptr_field(i.ops[1])
                    for o in i.ops[0].ops:
                        if isinstance(o, Function) and f:
                            self.field_fns.setdefault(f, {}).setdefault(o.name, []).append(i)
        # functions that reach a field through a parameter (setter functions)
        param_fields = {}
        for fn in m.defined():
            for i in fn.insts():
                if i.op == "store":
                    vals = [i.ops[0]]
                    if isinstance(i.ops[0], Inst) and i.ops[0].op in ("select", "phi"):
                        vals = list(i.ops[0].ops)
                    f = None
                    for v in vals:
                        if isinstance(v, Arg) and v.ty.kind == "ptr":
                            f = f or self.ptr_field(i.ops[1])
                            if f:
                                param_fields.setdefault((fn.name, v.idx), set()).add(f)
        ch = True
        while ch:
            ch = False
            for fn in m.defined():
                for i in fn.insts():
                    if i.op != "call" or not isinstance(i.callee, Function):
                        continue
                    for k, v in enumerate(i.ops):
                        fs = param_fields.get((i.callee.name, k))
                        if not fs:
                            continue
                        if isinstance(v, Function):
                            for f in fs:
                                self.field_fns.setdefault(f, {}).setdefault(v.name, []).append(i)
                        elif isinstance(v, Arg):
                            cur = param_fields.setdefault((fn.name, v.idx), set())
                            if not fs <= cur:
                                cur |= fs
                                ch = True
        # compound initialisers copied from constant templates
        for fn in m.defined():
            for i in fn.insts():
                if i.op == "call" and isinstance(i.callee, Function) and i.callee.name.startswith("llvm.memcpy"):
                    src = i.ops[1]
                    if isinstance(src, GVar) and src._init and src.typ.kind == "struct" and src.typ.offs:
                        dst = i.ops[0]
                        sn = dst.sname if isinstance(dst, Inst) and dst.op == "alloca" else None
                        for k, off in enumerate(src.typ.offs):
                            v = m.init_elem(src, k)
                            if isinstance(v, Function) and sn:
                                f = m.field(sn, off)
                                self.field_fns.setdefault(f, {}).setdefault(v.name, []).append(i)

    def callbacks(self, field):
        return self.field_fns.get(field, {})

    # --- never-returning functions
    def _noret(self):
        self._nr = set(self.EXT_NORETURN)
        for f in self.m.functions.values():
            if f.noreturn:
                self._nr.add(f.name)
        ch = True
        while ch:
            ch = False
            for f in self.m.defined():
                if f.name in self._nr:
                    continue
                # reachable ret?
                seen, stack, ret = set(), [f.blocks[0]], False
                while stack and not ret:
                    b = stack.pop()
                    if b in seen:
                        continue
                    seen.add(b)
                    dead = False
                    for i in b.insts:
                        if i.op == "call" and isinstance(i.callee, Function) and i.callee.name in self._nr:
                            dead = True
                            break
                        if i.op == "ret":
                            ret = True
                    if not dead:
                        stack.extend(b.succs)
                if not ret:
                    # functions with an infinite loop only are not counted: require at least one noreturn call
                    if any(i.op == "call" and isinstance(i.callee, Function) and i.callee.name in self._nr for i in f.insts()):
                        self._nr.add(f.name)
                        ch = True

    def base(self, name):
        """name without the suffix the linker gives to copies of header functions"""
        a, _, b = name.rpartition(".")
        return a if a and b.isdigit() else name

    def is_alloc(self, name):
        return name in self.ALLOCS or self.base(name) in self.ALLOCS

    def noreturn(self, name):
        return name in self._nr

    # --- inlining policy: private helpers, and functions that did not exist as public API on the reference tree
    def should_inline(self, fn):
        return fn.internal or fn.name not in self.api

    # --- call graph
    def callees(self, fn):
        out = set()
        for i in fn.insts():
            if i.op == "call":
                out |= self.targets(i)
        return out

    def targets(self, i):
        if isinstance(i.callee, Function):
            return {i.callee.name}
        f = self.icall_field(i)
        if f and f in self.field_fns:
            return set(self.field_fns[f])
        return set(self.m.address_taken)

    def icall_field(self, i):
        c = i.callee
        if isinstance(c, Inst) and c.op == "load":
            return self.ptr_field(c.ops[0])
        return None

    def reach(self, roots, stop=()):
        seen, st = set(), list(roots)
        while st:
            n = st.pop()
            if n in seen or n in stop:
                continue
            seen.add(n)
            f = self.m.functions.get(n)
            if f is None or f.decl:
                continue
            for i in f.calls():
                st.extend(self.targets(i) - seen)
        return seen

    def callers(self, name):
        if self._callers is None:
            self._callers = {}
            for f in self.m.defined():
                for i in f.calls():
                    for t in self.targets(i):
                        self._callers.setdefault(t, []).append(i)
        return self._callers.get(name, [])

    def direct_calls(self, name):
        return [i for f in self.m.defined() for i in f.calls() if isinstance(i.callee, Function) and i.callee.name == name]

    # --- effects
    def root(self, o, d=0):
        """where a pointer value comes from inside its function"""
        while isinstance(o, Inst) and o.op in ("gep", "bitcast") and d < 20:
            o = o.ops[0]
            d += 1
        return o

    def _local_mod(self, fn):
        from .absint import PURE
        fields, globs, raw, calls = set(), set(), False, set()
        for i in fn.insts():
            if i.op == "store":
                r = self.root(i.ops[1])
                if isinstance(r, Inst) and r.op == "alloca":
                    continue
                f = self.ptr_field(i.ops[1])
                if f:
                    fields.add(f)
                elif isinstance(r, GVar):
                    globs.add(r.name)
                else:
                    raw = True
            elif i.op == "call":
                for t in self.targets(i):
                    tf = self.m.functions.get(t)
                    if tf is None or tf.decl:
                        if t in PURE or t.startswith("llvm.va"):
                            continue
                        if t.startswith("llvm.mem"):
                            r = self.root(i.ops[0])
                            if isinstance(r, Inst) and r.op == "alloca":
                                continue
                            # whole-struct writes: all fields of the pointee struct
                            raw = True
                            sz = i.ops[2]
                            fields |= self._struct_write(i)
                            continue
                        for o in i.ops:
                            r = self.root(o)
                            if getattr(o, "ty", None) is not None and o.ty.kind == "ptr" or isinstance(o, (GVar, CGep)):
                                if isinstance(r, Inst) and r.op == "alloca":
                                    continue
                                if isinstance(r, GVar) and (r.const or r.name.startswith(".str")):
                                    continue
                                raw = True
                    else:
                        calls.add(t)
        return fields, raw, globs, calls

    def _struct_write(self, i):
        """fields overwritten by a memcpy/memset of a whole struct (by size)"""
        n = i.ops[2].v if isinstance(i.ops[2], Const) and i.ops[2].kind == "int" else None
        out = set()
        if n is None:
            return out
        src = i.ops[1] if len(i.ops) > 1 else None
        name = None
        for o in (i.ops[0], src):
            if isinstance(o, Inst) and o.op == "alloca" and o.sname:
                name = o.sname
            elif isinstance(o, Inst) and o.op == "gep" and o.asize is not None and o.asize.kind == "struct":
                name = name or o.asize.sname
        if name is None:
            # by size: every struct of that size
            for t in self.m._types.values():
                if t.kind == "struct" and t.sname and t.size == n and t.sname in self.m.structs:
                    out |= self._all_fields(t.sname)
        elif name in self.m.structs:
            out |= self._all_fields(name)
        return out

    def _all_fields(self, s):
        out = set()
        for off, (nm, nested) in self.m.structs.get(s, {}).items():
            if nested:
                out |= self._all_fields(nested)
            out.add(self.m.field(s, off))
        return out

    def modset(self, name):
        if not self._mod:
            loc = {f.name: self._local_mod(f) for f in self.m.defined()}
            tot = {n: (set(v[0]), v[1], set(v[2])) for n, v in loc.items()}
            ch = True
            while ch:
                ch = False
                for n, v in loc.items():
                    f, r, g = tot[n]
                    nf, nr, ng = set(f), r, set(g)
                    for c in v[3]:
                        if c in tot and c not in self._nr:
                            cf, cr, cg = tot[c]
                            nf |= cf
                            nr = nr or cr
                            ng |= cg
                    if len(nf) != len(f) or nr != r or len(ng) != len(g):
                        tot[n] = (nf, nr, ng)
                        ch = True
            self._mod = tot
        return self._mod.get(name)
