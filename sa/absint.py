"""Path-sensitive dataflow over the LLVM IR of autark (property simulation in the style of ESP).

An abstract state is: a call string, an environment of SSA values, a cell-based memory, a set of facts about
symbols (intervals, excluded constants, pairwise orderings) and the state `q` of the property automaton that a
rule runs along.  States that agree are merged; a block visited with too many different states is widened, so the
analysis terminates and covers every path of the function, loops included.  No solver and no execution is used.
Static helpers (and any function that is not a known public function) are analysed in the context of their caller,
so moving code into a helper or back does not change what a rule sees.
"""
from .ir import Inst, Arg, Const, GVar, CGep, Function
from .build import AnalysisBroken

NULL = ("i", 0)
TOP = ("u",)
INF = None

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
ORD = {"eq": frozenset("="), "ne": frozenset("<>"), "slt": frozenset("<"), "sle": frozenset("<="),
       "sgt": frozenset(">"), "sge": frozenset(">="), "ult": frozenset("<"), "ule": frozenset("<="),
       "ugt": frozenset(">"), "uge": frozenset(">=")}

# libc functions that neither write through their arguments nor keep them
PURE = {"strcmp", "strncmp", "strlen", "strnlen", "strchr", "strrchr", "strstr", "memcmp", "strcasecmp", "strspn", "strcspn",
        "access", "stat", "fprintf", "printf", "puts", "fputs", "vfprintf", "unlink", "rename", "chdir", "open",
        "fopen", "close", "fclose", "isspace", "__ctype_b_loc", "getenv", "setenv", "unsetenv", "__errno_location",
        "fseek", "ftell", "feof", "ferror", "fflush", "fputc", "putc", "fwrite", "write", "free", "strtok",
        "symlink", "chmod", "fchmod", "mkdir", "rmdir", "_exit", "exit", "fork", "dup2", "perror", "kill",
        "strdup", "strndup", "strcat", "fileno", "execve", "utimensat", "futimens", "isatty", "llvm.va_start", "llvm.va_end"}
PURE -= {"stat", "strcat"}
ERRNO_KEEP = {"strtol", "strtoll", "strtoul", "strtod", "strtoull", "readdir", "getenv", "strlen", "strcmp"}


class Frame:
    __slots__ = ("fn", "cs", "env", "call", "ctx")

    def __init__(self, fn, cs, env, call, ctx):
        self.fn, self.cs, self.env, self.call, self.ctx = fn, cs, env, call, ctx

    def copy(self):
        return Frame(self.fn, self.cs, dict(self.env), self.call, self.ctx)


class State:
    __slots__ = ("frames", "mem", "facts", "rel", "q", "esc", "trace", "fields")

    def __init__(self):
        self.frames = []
        self.mem = {}      # (obj, off) -> value
        self.fields = {}   # (obj, off) -> canonical field name
        self.facts = {}    # sym -> (lo, hi, excluded)
        self.rel = {}      # (symA, symB) -> frozenset of < = >
        self.q = None
        self.esc = frozenset()
        self.trace = None

    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].copy()]
        s.mem = dict(self.mem)
        s.fields = self.fields.copy()
        s.facts = dict(self.facts)
        s.rel = dict(self.rel)
        s.q = self.q
        s.esc = self.esc
        s.trace = self.trace
        return s

    @property
    def env(self):
        return self.frames[-1].env

    @property
    def ctx(self):
        return self.frames[-1].ctx

    def lines(self, limit=14):
        out, t = [], self.trace
        while t is not None:
            if not out or out[-1] != t[0]:
                out.append(t[0])
            t = t[1]
        out.reverse()
        return out[-limit:]


def _syms_in(v, out):
    if not isinstance(v, tuple) or not v:
        return
    k = v[0]
    if k == "s":
        out.add(v[1])
        if isinstance(v[1], tuple) and v[1] and v[1][0] in ("e", "T"):
            for x in v[1][2:]:
                _syms_in(x, out)
    elif k == "p":
        o = v[1]
        if o[0] == "o":
            _syms_in(("s", o[1]), out)
        _syms_in(v[2], out)
    elif k in ("c", "a", "not", "L", "S"):
        for x in v[1:]:
            if isinstance(x, tuple):
                _syms_in(x, out)


_sym_cache = {}


def syms(v):
    r = _sym_cache.get(v)
    if r is None:
        o = set()
        _syms_in(v, o)
        r = frozenset(o)
        if len(_sym_cache) > 400000:
            _sym_cache.clear()
        _sym_cache[v] = r
    return r


class Limit(AnalysisBroken):
    pass


class Engine:
    """Subclass (or pass hooks) to write a rule."""
    max_states = 30
    max_shapes = 60
    max_steps = 400000
    max_depth = 7
    rec_limit = 1          # activations of one function on a path
    widen_cursor = True    # a pointer advanced round a loop loses its offset

    def __init__(self, mod, model=None):
        self.m = mod
        self.model = model
        self.steps = 0
        self.live = {}
        self.cycle = {}
        self.hooks_ret = None
        self.covered = set()
        self.visited_blocks = set()
        self.no_inline = set()
        self.force_inline = set()
        self.known = {}
        self.merges = 0
        self._reach = {}
        self.array_fields = model.array_fields if model else frozenset()

    # ---- hooks -------------------------------------------------------------------------------------------
    def on_call(self, st, inst, name, args):
        """return None for default treatment, or list of (value, state)"""
        return None

    ctx0 = ()      # distinguishes what successive runs create

    def allocator(self, name):
        """not followed: its result is a new object"""
        return bool(self.model) and self.model.is_alloc(name)

    def on_icall(self, st, inst, field, args):
        return None

    def on_return(self, st, inst, val):
        pass

    def follow_stop(self, fn):
        """a function that never returns is followed to the call that ends the process"""
        return False

    def on_stop(self, st, inst, name, args):
        """path ends in a function that does not return"""

    def on_branch(self, st, inst, cond, truth):
        """state st has just assumed cond == truth; may return False to drop the path"""
        return True

    def on_store(self, st, inst, ptr, val, field):
        pass

    def on_load(self, st, inst, ptr, val, field):
        return None

    def on_enter(self, st, fn, args):
        pass

    def on_leave(self, st, fn, val):
        pass

    def inline(self, fn, inst, st):
        return self.model.should_inline(fn) if self.model else fn.internal

    def merge_key(self, q):
        return q

    # ---- liveness ----------------------------------------------------------------------------------------
    def liveness(self, fn):
        r = self.live.get(fn.name)
        if r is not None:
            return r
        use, deff = {}, {}
        for b in fn.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op == "phi":
                    d.add(i)
                    continue
                for o in i.ops:
                    if isinstance(o, Inst) and o not in d:
                        u.add(o)
                    elif isinstance(o, Arg):
                        u.add(o)
                if i.op == "call" and isinstance(i.callee, (Inst, Arg)) and i.callee not in d:
                    u.add(i.callee)
                if i.op == "gep":
                    for v, _ in i.var:
                        if isinstance(v, (Inst, Arg)) and v not in d:
                            u.add(v)
                d.add(i)
            use[b], deff[b] = u, d
        livein = {b: set() for b in fn.blocks}
        liveout = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                o = set()
                for s in b.succs:
                    o |= livein[s]
                    for i in s.insts:
                        if i.op != "phi":
                            break
                        for v, pb in i.incoming:
                            if pb is b and isinstance(v, (Inst, Arg)):
                                o.add(v)
                n = use[b] | (o - deff[b])
                if o != liveout[b] or n != livein[b]:
                    liveout[b], livein[b] = o, n
                    ch = True
        # keep allocas (addresses) out: they are constants of the frame
        self.live[fn.name] = livein
        return livein

    def on_cycle(self, blk):
        r = self.cycle.get(blk)
        if r is None:
            seen, todo = set(), list(blk.succs)
            while todo:
                b = todo.pop()
                if b not in seen:
                    seen.add(b)
                    todo.extend(b.succs)
            r = self.cycle[blk] = blk in seen
        return r

    # ---- symbols -----------------------------------------------------------------------------------------
    def fresh(self, st, inst, tag=0, lo=INF, hi=INF, ne=frozenset()):
        sid = (st.ctx, inst.fn.name, inst.uid, tag)
        self.kill(st, sid)
        if lo is not INF or hi is not INF or ne:
            st.facts[sid] = (lo, hi, ne)
        return ("s", sid)

    def kill(self, st, sid):
        """symbol is being redefined: forget everything that mentions its old value"""
        hit = False
        for f in st.frames:
            for k, v in list(f.env.items()):
                if sid in syms(v):
                    f.env[k] = TOP
                    hit = True
        for k, v in list(st.mem.items()):
            if sid in syms(v):
                del st.mem[k]
                st.fields.pop(k, None)
            elif k[0][0] == "o" and sid in syms(("s", k[0][1])):
                del st.mem[k]
                st.fields.pop(k, None)
        for k in list(st.facts):
            if k == sid or (isinstance(k, tuple) and k and k[0] == "e" and sid in syms(("s", k))):
                del st.facts[k]
        for k in list(st.rel):
            if sid in k or any(isinstance(x, tuple) and x and x[0] == "e" and sid in syms(("s", x)) for x in k):
                del st.rel[k]
        self.on_kill(st, sid)

    def on_kill(self, st, sid):
        pass

    # ---- evaluation --------------------------------------------------------------------------------------
    def val(self, st, o):
        if isinstance(o, Inst):
            if o.op == "alloca":
                return ("p", ("al", st.ctx, o.fn.name, o.uid), 0)
            return st.env.get(o, TOP)
        if isinstance(o, Arg):
            return st.env.get(o, TOP)
        if isinstance(o, Const):
            if o.kind == "int":
                return ("i", o.v)
            if o.kind in ("null", "zero"):
                return NULL
            return TOP
        if isinstance(o, GVar):
            return ("p", ("g", o.name), 0)
        if isinstance(o, CGep):
            if isinstance(o.base, GVar):
                return ("p", ("g", o.base.name), o.off)
            return TOP
        if isinstance(o, Function):
            return ("fn", o.name)
        return TOP

    def string(self, v):
        """constant string a pointer value designates, or None"""
        if v and v[0] == "p" and v[1][0] == "g" and isinstance(v[2], int):
            g = self.m.globals.get(v[1][1])
            if g and g.string is not None and (g.const or g.name.startswith(".str")):
                return g.string[v[2]:] if v[2] <= len(g.string) else None
        return None

    def obj_of(self, v):
        """(object, offset) a pointer value refers to, or None"""
        if v[0] == "p":
            return v[1], v[2]
        if v[0] == "s":
            return ("o", v[1]), 0
        return None

    def add_off(self, v, off):
        if v[0] == "p":
            return ("p", v[1], v[2] + off if isinstance(v[2], int) and off is not None else None)
        if v[0] == "s":
            if off == 0:
                return v
            return ("p", ("o", v[1]), off)
        return TOP

    def fact(self, st, sid):
        return st.facts.get(sid, (INF, INF, frozenset()))

    def interval(self, st, v):
        if v[0] == "i":
            return v[1], v[1]
        if v[0] == "s":
            f = self.fact(st, v[1])
            return f[0], f[1]
        if v[0] == "a":
            f = self.fact(st, v[1][1])
            return (f[0] + v[2] if f[0] is not None else None, f[1] + v[2] if f[1] is not None else None)
        if v[0] in ("c", "not"):
            return 0, 1
        return None, None

    def nonzero(self, st, v):
        """True / False / None: is v known to be != 0"""
        k = v[0]
        if k == "i":
            return v[1] != 0
        if k in ("p", "fn"):
            if k == "p" and v[1][0] == "o":
                # field address of a symbolic pointer: treated as non-null when offset is non zero
                if v[2] == 0:
                    return self.nonzero(st, ("s", v[1][1]))
                return True
            return True
        if k == "s":
            lo, hi, ne = self.fact(st, v[1])
            if lo == 0 and hi == 0:
                return False
            if 0 in ne or (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
            return None
        if k == "c":
            return self.decide(st, v[1], v[2], v[3])
        if k == "not":
            r = self.nonzero(st, v[1])
            return None if r is None else not r
        if k == "a":
            lo, hi = self.interval(st, v)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
            return None
        return None

    def decide(self, st, pred, a, b):
        """truth of comparison or None"""
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if pred[0] == "u" and pred not in ("ueq",):
                x &= (1 << 64) - 1
                y &= (1 << 64) - 1
            return {"eq": x == y, "ne": x != y}.get(pred) if pred in ("eq", "ne") else \
                {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        if a == b and a != TOP:
            return "=" in ORD[pred]
        if b == NULL and pred in ("eq", "ne"):
            nz = self.nonzero(st, a)
            if nz is not None:
                return nz if pred == "ne" else not nz
        if a == NULL and pred in ("eq", "ne"):
            nz = self.nonzero(st, b)
            if nz is not None:
                return nz if pred == "ne" else not nz
        if a[0] == "p" and b[0] == "p" and a[1] == b[1] and pred not in ("eq", "ne") and isinstance(a[2], int) and isinstance(b[2], int):
            return {"lt": a[2] < b[2], "le": a[2] <= b[2], "gt": a[2] > b[2], "ge": a[2] >= b[2]}[pred[1:]]
        if a[0] == "p" and b[0] == "p" and pred in ("eq", "ne"):
            if a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                return (a[2] == b[2]) if pred == "eq" else (a[2] != b[2])
            if a[1] != b[1] and a[1][0] in ("al", "g", "h") and b[1][0] in ("al", "g", "h"):
                return pred == "ne"
        if a[0] == "fn" and b[0] == "fn" and pred in ("eq", "ne"):
            return (a[1] == b[1]) == (pred == "eq")
        la, ha = self.interval(st, a)
        lb, hb = self.interval(st, b)
        poss = set("<=>")
        if ha is not None and lb is not None:
            if ha < lb:
                poss &= {"<"}
            elif ha <= lb:
                poss &= {"<", "="}
        if la is not None and hb is not None:
            if la > hb:
                poss &= {">"}
            elif la >= hb:
                poss &= {">", "="}
        if pred[0] == "u":
            # unsigned comparison: only trust signed reasoning for non-negative operands
            if not (la is not None and la >= 0 and lb is not None and lb >= 0):
                poss = set("<=>")
                if b[0] == "i" and b[1] == 0 and pred in ("ugt", "ule"):
                    nz = self.nonzero(st, a)
                    if nz is not None:
                        return nz if pred == "ugt" else not nz
        if b[0] == "i" and a[0] == "s" and b[1] in self.fact(st, a[1])[2]:
            poss.discard("=")
        if a[0] == "s" and b[0] == "s":
            r = st.rel.get((a[1], b[1]))
            if r is not None:
                poss &= set(r)
        if a[0] == "a" and b[0] == "a" and a[1] == b[1]:
            poss = {"<" if a[2] < b[2] else ">" if a[2] > b[2] else "="}
        o = ORD[pred]
        if poss <= o:
            return True
        if not (poss & o):
            return False
        return None

    def assume(self, st, v, truth):
        """refine st (in place) by v being non-zero (truth) or zero; False if contradictory"""
        r = self.nonzero(st, v)
        if r is not None:
            return r == truth
        k = v[0]
        if k == "not":
            return self.assume(st, v[1], not truth)
        if k == "c":
            return self.assume_cmp(st, v[1] if truth else NEG[v[1]], v[2], v[3])
        if k == "s":
            return self.assume_cmp(st, "ne" if truth else "eq", v, NULL)
        if k == "p" and v[1][0] == "o" and v[2] == 0:
            return self.assume_cmp(st, "ne" if truth else "eq", ("s", v[1][1]), NULL)
        if k == "a":
            return self.assume_cmp(st, "ne" if truth else "eq", v, NULL)
        return True

    def assume_cmp(self, st, pred, a, b):
        d = self.decide(st, pred, a, b)
        if d is not None:
            return d
        if a[0] == "i" or (a[0] != "s" and b[0] == "s"):
            a, b, pred = b, a, SWAP[pred]
        if a[0] in ("c", "not") and b[0] == "i":
            if pred == "eq":
                return self.assume(st, a, b[1] != 0)
            if pred == "ne" and b[1] in (0, 1):
                return self.assume(st, a, b[1] == 0)
            return True
        if a[0] == "p" and a[1][0] == "o" and a[2] == 0:
            a = ("s", a[1][1])
        if a[0] == "a" and b[0] == "i":
            if pred[0] == "u":
                return True
            a, b = a[1], ("i", b[1] - a[2])
        if a[0] == "s" and b[0] == "i":
            c = b[1]
            lo, hi, ne = self.fact(st, a[1])
            if pred == "eq":
                lo = hi = c
            elif pred == "ne":
                if c == lo:
                    lo = c + 1
                elif c == hi:
                    hi = c - 1
                elif len(ne) < 24:
                    ne = ne | {c}
            elif pred in ("slt", "sle") or (pred in ("ult", "ule") and (lo is not None and lo >= 0)):
                h = c - 1 if pred[1:] == "lt" else c
                hi = h if hi is None else min(hi, h)
            elif pred in ("sgt", "sge") or (pred in ("ugt", "uge") and (lo is not None and lo >= 0)):
                h = c + 1 if pred[1:] == "gt" else c
                lo = h if lo is None else max(lo, h)
            elif pred in ("ult", "ule") and c >= 0:
                h = c - 1 if pred == "ult" else c
                lo = 0 if lo is None else max(lo, 0)
                hi = h if hi is None else min(hi, h)
            elif pred == "ugt" and c == 0:
                ne = ne | {0}
            elif pred == "uge" and c == 1:
                ne = ne | {0}
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            ne = frozenset(x for x in ne if (lo is None or x >= lo) and (hi is None or x <= hi))
            st.facts[a[1]] = (lo, hi, ne)
            self.on_fact(st, a[1])
            return True
        if a[0] == "s" and b[0] == "s":
            o = ORD[pred]
            r = st.rel.get((a[1], b[1]), frozenset("<=>")) & o
            if not r:
                return False
            st.rel[(a[1], b[1])] = r
            st.rel[(b[1], a[1])] = frozenset({"<": ">", ">": "<", "=": "="}[x] for x in r)
            # propagate nullness over equality
            if r == frozenset("="):
                fa, fb = self.fact(st, a[1]), self.fact(st, b[1])
                lo = fa[0] if fb[0] is None else fb[0] if fa[0] is None else max(fa[0], fb[0])
                hi = fa[1] if fb[1] is None else fb[1] if fa[1] is None else min(fa[1], fb[1])
                if lo is not None and hi is not None and lo > hi:
                    return False
                st.facts[a[1]] = st.facts[b[1]] = (lo, hi, fa[2] | fb[2])
            else:
                # interval refinement  a <(=) b
                fa, fb = self.fact(st, a[1]), self.fact(st, b[1])
                if pred in ("slt", "sle") and fb[1] is not None:
                    h = fb[1] - (1 if pred == "slt" else 0)
                    if fa[1] is None or fa[1] > h:
                        st.facts[a[1]] = (fa[0], h, fa[2])
                if pred in ("sgt", "sge") and fb[0] is not None:
                    h = fb[0] + (1 if pred == "sgt" else 0)
                    if fa[0] is None or fa[0] < h:
                        st.facts[a[1]] = (h, fa[1], fa[2])
        return True

    def on_fact(self, st, sid):
        pass

    # ---- memory ------------------------------------------------------------------------------------------
    def field_of(self, inst_ptr):
        """canonical field name of a pointer operand, from its gep chain"""
        return self.model.ptr_field(inst_ptr) if self.model else None

    def load(self, st, inst, ptrop):
        pv = self.val(st, ptrop)
        field = self.field_of(ptrop)
        r = self.on_load(st, inst, pv, None, field)
        if r is not None:
            return r
        ob = self.obj_of(pv)
        if ob is None or not isinstance(ob[1], int):
            return self.typed_fresh(st, inst)
        obj, off = ob
        key = (obj, off)
        v = st.mem.get(key)
        if v is not None:
            return v
        if obj[0] == "g":
            g = self.m.globals.get(obj[1])
            if g is not None and g.const and g.string is not None and inst.ty.kind == "int" and inst.ty.bits == 8:
                s = g.string
                if off < len(s):
                    c = ord(s[off])
                    return ("i", c if c < 128 else c - 256)
                if off == len(s):
                    return NULL
            if g is not None and g.const and g._init and g.typ.kind in ("struct", "array"):
                r = self.const_init(g, off, inst)
                if r is not None:
                    return r
        if obj[0] == "z":
            return NULL
        if ("zero", obj) in st.mem:
            return NULL if st.mem[("zero", obj)] == ("i", 1) else ("i", -1)
        if obj == ("errno",):
            v = self.fresh(st, inst, 0, ne=frozenset([0]) if st.mem.get(("errno_nz", 0), ("i", 1)) == ("i", 1) else frozenset())
        else:
            v = self.typed_fresh(st, inst)
        if v != TOP and not (v[0] == "s" and obj[0] == "o" and v[1] in syms(("s", obj[1]))):
            st.mem[key] = v
            if field:
                st.fields[key] = field
        return v

    def const_init(self, g, off, inst):
        t = g.typ
        idx = []
        o = off
        for _ in range(4):
            if t.kind == "struct" and t.offs:
                k = max(i for i, x in enumerate(t.offs) if x <= o)
                idx.append(k)
                o -= t.offs[k]
                t = t.fields[k]
            elif t.kind == "array" and t.elem.size:
                k = o // t.elem.size
                if k >= t.n:
                    return None
                idx.append(k)
                o -= k * t.elem.size
                t = t.elem
            else:
                break
        if o != 0:
            return None
        v = self.m.init_elem(g, *idx)
        if v is None:
            return None
        r = self.val(None, v) if not isinstance(v, (Inst, Arg)) else None
        return r

    def typed_fresh(self, st, inst, tag=0):
        if inst.ty.kind == "int":
            if inst.ty.bits == 1:
                return self.fresh(st, inst, tag, 0, 1)
            if inst.ty.bits == 8:
                return self.fresh(st, inst, tag, -128, 127)
            return self.fresh(st, inst, tag)
        return self.fresh(st, inst, tag)

    def store(self, st, inst, ptrop, v):
        pv = self.val(st, ptrop)
        field = self.field_of(ptrop)
        self.on_store(st, inst, pv, v, field)
        if v[0] == "p" and v[1][0] == "al":
            st.esc = st.esc | {v[1]}
        self.write(st, pv, v, field)

    def write(self, st, pv, v, field):
        ob = self.obj_of(pv)
        if ob is None:
            # unknown target: kill cells of that field everywhere, or everything reachable
            self.clobber_fields(st, {field} if field else None)
            return
        obj, off = ob
        # possible aliases
        if obj[0] in ("o",):
            for k in list(st.mem):
                if k[0] == obj and k[1] == off:
                    continue
                if k[0][0] == "o" or k[0] in st.esc or k[0][0] == "g" or k[0][0] == "h":
                    f2 = st.fields.get(k)
                    if field and f2:
                        if f2 == field and k[0] != obj:
                            del st.mem[k]
                            st.fields.pop(k, None)
                    elif field is None and f2 is None and k[0] != obj:
                        del st.mem[k]
        elif obj[0] in ("g", "h"):
            for k in list(st.mem):
                if k[0][0] == "o":
                    f2 = st.fields.get(k)
                    if (field and f2 == field) or (field is None and f2 is None):
                        del st.mem[k]
                        st.fields.pop(k, None)
        if not isinstance(off, int):
            for k in list(st.mem):
                if k[0] == obj:
                    f2 = st.fields.get(k)
                    # an element store stays inside its array: named scalar members keep their value
                    if f2 is None or f2 == field or f2 in self.array_fields:
                        del st.mem[k]
                        st.fields.pop(k, None)
            st.mem.pop(("zero", obj), None)
            return
        if v == TOP:
            st.mem.pop((obj, off), None)
            st.mem.pop(("zero", obj), None)
            return
        st.mem[(obj, off)] = v
        if field:
            st.fields[(obj, off)] = field
        else:
            st.fields.pop((obj, off), None)

    def clobber_fields(self, st, fields):
        """fields None: everything that is not a private alloca"""
        for k in list(st.mem):
            o = k[0]
            if o == "zero":
                continue
            if fields is None:
                if o[0] == "al" and o not in st.esc:
                    continue
                del st.mem[k]
                st.fields.pop(k, None)
            elif st.fields.get(k) in fields:
                del st.mem[k]
                st.fields.pop(k, None)
        for k in list(st.mem):
            if k[0] == "zero" and k[1][0] != "al" and k[1][0] != "h":
                del st.mem[k]

    def clobber_obj(self, st, obj, lo=None, hi=None):
        for k in list(st.mem):
            if k[0] == obj and (lo is None or (isinstance(k[1], int) and lo <= k[1] < hi)):
                del st.mem[k]
                st.fields.pop(k, None)
        st.mem.pop(("zero", obj), None)

    def opaque_effects(self, st, inst, name, args):
        fn = self.m.functions.get(name) if name else None
        ext = fn is None or fn.decl
        st.mem.pop((("errno",), 0), None)
        if name == "__errno_location":
            return
        if name in ERRNO_KEEP:
            st.mem[("errno_nz", 0)] = ("i", 0)
        else:
            st.mem.pop(("errno_nz", 0), None)
        if ext and name is not None:
            if name in PURE or name.startswith("llvm.va_"):
                return
            if name.startswith("llvm.memset"):
                self._memset(st, args)
                return
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self._memcpy(st, args)
                return
            for a in args:
                ob = self.obj_of(a)
                if ob:
                    self.clobber_obj(st, ob[0])
            return
        eff = self.model.modset(name) if self.model else None
        if eff is None:
            for a in args:
                ob = self.obj_of(a)
                if ob and a[0] == "p":
                    self.clobber_obj(st, ob[0])
                    if ob[0][0] == "al":
                        st.esc = st.esc | {ob[0]}
            self.clobber_fields(st, None)
            return
        fields, raw, globs = eff
        for a in args:
            ob = self.obj_of(a)
            if ob and a[0] == "p":
                o = ob[0]
                for k in list(st.mem):
                    if k[0] == o:
                        f2 = st.fields.get(k)
                        if (f2 is None and raw) or f2 in fields:
                            del st.mem[k]
                            st.fields.pop(k, None)
                if raw or fields:
                    if ("zero", o) in st.mem:
                        del st.mem[("zero", o)]
                if o[0] == "al":
                    st.esc = st.esc | {o}
        for k in list(st.mem):
            o = k[0]
            if o == "zero":
                continue
            f2 = st.fields.get(k)
            if f2 is not None:
                if f2 in fields and (o[0] != "al" or o in st.esc):
                    del st.mem[k]
                    st.fields.pop(k, None)
            elif o[0] == "g":
                if raw or o[1] in globs:
                    del st.mem[k]
            elif raw and (o[0] != "al" or o in st.esc) and o not in (("errno",),) and o != "errno_nz":
                del st.mem[k]

    def _memset(self, st, args):
        ob = self.obj_of(args[0])
        if ob and isinstance(ob[1], int) and ob[1] > 0 and args[2][0] == "i" and args[2][1] <= 512:
            # part of a larger object
            zero = st.mem.get(("zero", ob[0]))
            self.clobber_obj(st, ob[0], ob[1], ob[1] + args[2][1])
            if args[1] == NULL:
                if zero is not None:
                    st.mem[("zero", ob[0])] = zero
                if zero != ("i", 1):
                    for o in range(ob[1], ob[1] + args[2][1], 4):
                        st.mem[(ob[0], o)] = NULL
            return
        if ob:
            self.clobber_obj(st, ob[0])
            if args[1] == NULL and ob[1] == 0:
                st.mem[("zero", ob[0])] = ("i", 1)
            elif args[1] in (("i", -1), ("i", 255)) and ob[1] == 0:
                st.mem[("zero", ob[0])] = ("i", -1)

    def _memcpy(self, st, args):
        d, s = self.obj_of(args[0]), self.obj_of(args[1])
        n = args[2][1] if args[2][0] == "i" else None
        if not d:
            return
        if n is None or not isinstance(d[1], int):
            self.clobber_obj(st, d[0])
            return
        for k in list(st.mem):
            if k[0] == d[0] and isinstance(k[1], int) and d[1] <= k[1] < d[1] + n:
                del st.mem[k]
                st.fields.pop(k, None)
        st.mem.pop(("zero", d[0]), None)
        if s and isinstance(s[1], int):
            if s[0][0] == "g":
                g = self.m.globals.get(s[0][1])
                if g is not None and g.const and g._init and g.typ.kind == "struct" and g.typ.offs:
                    # template of a compound initialiser
                    for i, o in enumerate(g.typ.offs):
                        if g.typ.fields[i].kind in ("int", "ptr"):
                            v = self.m.init_elem(g, i)
                            if v is not None and not isinstance(v, Inst):
                                st.mem[(d[0], d[1] + o)] = self.val(None, v) if not isinstance(v, (Inst, Arg)) else TOP
                    return
                if g is not None and g.const and g._init and g.typ.kind == "array" and g.typ.elem.kind == "int" and g.typ.n <= 64:
                    sz = g.typ.elem.size
                    for i in range(g.typ.n):
                        v = self.m.init_elem(g, i)
                        if isinstance(v, Const) and s[1] <= i * sz < s[1] + n:
                            st.mem[(d[0], d[1] + i * sz - s[1])] = self.val(None, v)
                    return
            if st.mem.get(("zero", s[0])) == ("i", 1) and n <= 512:
                for o in range(d[1], d[1] + n, 4):
                    st.mem[(d[0], o)] = NULL
            for k, v in list(st.mem.items()):
                if k[0] == s[0] and isinstance(k[1], int) and s[1] <= k[1] < s[1] + n:
                    st.mem[(d[0], d[1] + k[1] - s[1])] = v
                    if k in st.fields:
                        st.fields[(d[0], d[1] + k[1] - s[1])] = st.fields[k]

    # ---- instruction semantics -----------------------------------------------------------------------------
    def expr(self, st, op, a, b, ty):
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            try:
                r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y,
                     "shl": x << y if 0 <= y < 64 else 0,
                     "lshr": ((x & ((1 << (ty.bits or 64)) - 1)) >> y) if 0 <= y < 64 else 0,
                     "ashr": x >> y if 0 <= y < 64 else 0}.get(op)
                if r is None and y:
                    r = {"sdiv": int(x / y), "udiv": x // y, "srem": x - int(x / y) * y, "urem": x % y}.get(op)
                if r is not None:
                    bits = ty.bits or 64
                    if bits > 1:
                        r &= (1 << bits) - 1
                        if r >> (bits - 1):
                            r -= 1 << bits
                    return ("i", r)
            except Exception:
                return TOP
        if op == "xor" and b == ("i", 1) or op == "xor" and b == ("i", -1) and ty.bits == 1:
            if a[0] in ("c", "not"):
                return a[1] if a[0] == "not" else ("c", NEG[a[1]], a[2], a[3])
            if ty.bits == 1:
                return ("not", a)
        if op in ("add", "sub") and b[0] == "i":
            k = b[1] if op == "add" else -b[1]
            if a[0] == "s":
                return ("a", a, k) if k else a
            if a[0] == "a":
                n = a[2] + k
                return ("a", a[1], n) if n else a[1]
        if op == "and":
            if b == NULL or a == NULL:
                return NULL
            if ty.bits == 1:
                na, nb = self.nonzero(st, a), self.nonzero(st, b)
                if na is False or nb is False:
                    return NULL
                if na is True:
                    return b
                if nb is True:
                    return a
        if op == "or":
            if b == NULL:
                return a
            if a == NULL:
                return b
            if self.nonzero(st, a) or self.nonzero(st, b):
                if ty.bits == 1:
                    return ("i", 1)
        if op == "or" and b[0] == "i" and b[1] != 0 and a[0] == "s" and ty.bits > 1:
            sid = ("e", op, a, b)
            st.facts.setdefault(sid, (INF, INF, frozenset([0])))
            return ("s", sid)
        if op == "sub" and a[0] == "p" and b[0] == "p" and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return ("i", a[2] - b[2])
        if a == TOP or b == TOP:
            return TOP
        sid = ("e", op, a, b)
        if len(repr(sid)) > 400:
            return TOP
        if op == "and" and b[0] == "i" and b[1] > 0:
            if sid not in st.facts:
                # (x | m) & n  and  known bits of flag words
                if a[0] == "s" and a[1][0] == "e" and a[1][1] == "or" and a[1][3][0] == "i":
                    if (a[1][3][1] & b[1]) == b[1]:
                        return b
                    if (a[1][3][1] & b[1]) == 0:
                        return self.expr(st, "and", a[1][2], b, ty)
                if a[0] == "s" and a[1][0] == "e" and a[1][1] == "and" and a[1][3][0] == "i":
                    if (a[1][3][1] & b[1]) == 0:
                        return NULL
                    if (a[1][3][1] & b[1]) == b[1]:
                        return self.expr(st, "and", a[1][2], b, ty)
                st.facts[sid] = (0, b[1], frozenset())
        return ("s", sid)

    def reaches(self, a, b):
        """is b reachable from a (so that an edge b -> a closes a loop)"""
        key = (a.fn.name, a.id)
        r = self._reach.get(key)
        if r is None:
            r, stack = set(), [a]
            while stack:
                x = stack.pop()
                for y in x.succs:
                    if y.id not in r:
                        r.add(y.id)
                        stack.append(y)
            self._reach[key] = r
        return b.id in r

    def block_entry(self, st, b, prev):
        """evaluate phis"""
        new = {}
        for i in b.insts:
            if i.op != "phi":
                break
            v = TOP
            for val, pb in i.incoming:
                if pb is prev:
                    v = self.val(st, val)
                    if v[0] == "p" and isinstance(v[2], int) and isinstance(val, Inst) and val.op == "gep" and \
                            self.widen_cursor and self.reaches(b, prev):
                        v = ("p", v[1], None)    # cursor advanced around a loop
                    break
            new[i] = v
        return new

    def run(self, fn, args=None, q=None, mem=None, setup=None, facts=None):
        """explore all paths of fn; args: list of values or None"""
        st = State()
        fr = Frame(fn, (), {}, None, self.ctx0)
        st.frames = [fr]
        for a in fn.args:
            v = args[a.idx] if args and a.idx < len(args) and args[a.idx] is not None else ("s", ("arg", fn.name, a.idx))
            fr.env[a] = v
        st.q = q
        if mem:
            st.mem.update(mem)
        if facts:
            st.facts.update(facts)
        if setup:
            setup(st)
        self.seen = {}
        self.accum = {}
        self.work = []
        self.on_enter(st, fn, [fr.env[a] for a in fn.args])
        self.push(st, fn.blocks[0], None)
        while self.work:
            st, b, idx = self.work.pop()
            self.exec_block(st, b, idx)
        return self

    # state bookkeeping
    def push(self, st, b, prev):
        if prev is not None:
            new = self.block_entry(st, b, prev)
            st.env.update(new)
        live = self.liveness(b.fn)[b]
        env = st.env
        keep = {}
        for k, v in env.items():
            if k in live or (isinstance(k, Inst) and k.op == "phi" and k.block is b):
                keep[k] = v
        st.frames[-1].env = keep
        l = b.insts[0]
        # `trace` keeps line numbers of the path for diagnostics
        ln = next((i.line for i in b.insts if i.line), None)
        if ln:
            st.trace = ("%s:%d" % (l.file, ln), st.trace)
        key = (st.ctx, b.fn.name, b.id)
        self.visited_blocks.add((b.fn.name, b.id))
        if len(b.preds) <= 1 and prev is not None and len(prev.succs) == 1:
            self.work.append((st, b, 0))
            return
        self.gc(st)
        h = self.hash_state(st)
        seen = self.seen.setdefault(key, {})
        mk = self.merge_key(st.q)
        if len(seen) < self.max_shapes:
            mk = (mk, frozenset(k for k, v in st.mem.items() if v == NULL and st.fields.get(k) not in self.array_fields),
                  frozenset(k for f in st.frames for k, v in f.env.items() if v == NULL))
        g = seen.setdefault(mk, set())
        if h in g:
            return
        if len(g) >= self.max_states:
            acc = self.accum.setdefault(key, {})
            old = acc.get(mk)
            if old is None:
                acc[mk] = (st.copy_full(), 1)
                g.add(h)
                self.work.append((st, b, 0))
                return
            j, changed = self.join(old[0], st, b, old[1])
            self.merges += 1
            if not changed:
                return
            acc[mk] = (j, old[1] + 1)
            st = j.copy_full()
            self.work.append((st, b, 0))
            return
        g.add(h)
        self.work.append((st, b, 0))

    def gc(self, st):
        used = set()
        for f in st.frames:
            for v in f.env.values():
                used |= syms(v)
        ch = True
        for k, v in st.mem.items():
            used |= syms(v)
            if k[0][0] == "o":
                used |= syms(("s", k[0][1]))
        used |= self.q_syms(st.q)
        for k in list(st.facts):
            if k not in used and not (isinstance(k, tuple) and k[0] == "e" and syms(("s", k)) - {k} and (syms(("s", k)) - {k}) <= used):
                if not isinstance(k, str) and not (isinstance(k, tuple) and k[0] == "arg"):
                    del st.facts[k]
        for k in list(st.rel):
            if not all(x in used or isinstance(x, str) for x in k):
                del st.rel[k]

    def q_syms(self, q):
        return frozenset()

    def hash_state(self, st):
        return hash((tuple((f.ctx, frozenset(f.env.items())) for f in st.frames), frozenset(st.mem.items()),
                     frozenset(st.facts.items()), frozenset(st.rel.items()), st.q))

    def join(self, a, b, blk, n):
        """join b into a (same call string, same merge key)"""
        changed = False
        r = a.copy_full()
        fid = [0]
        if n <= 24 and not self.on_cycle(blk):
            n = 0       # widening is needed on cycles only

        def jv(x, y, key):
            nonlocal changed
            if x == y:
                return x
            if x[0] == "p" and y[0] == "p" and x[1] == y[1]:
                if x[2] is None:
                    return x
                changed = True
                return ("p", x[1], None)
            sid = ("j", blk.fn.name, blk.id, key)
            la, ha = self.interval(a, x)
            lb, hb = self.interval(b, y)
            if x == ("s", sid):
                # previously joined: is y inside?
                lo, hi, ne = self.fact(a, sid)
                ok = (lo is None or (lb is not None and lb >= lo)) and (hi is None or (hb is not None and hb <= hi))
                nzok = (0 not in ne) or self.nonzero(b, y)
                if ok and nzok:
                    return x
            changed = True
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            if n > 3:
                if lo is not None and (la is None or lo < la):
                    lo = 0 if lo >= 0 else None
                if hi is not None and (ha is None or hi > ha):
                    hi = None
            if n > 12:
                lo = 0 if (lo is not None and lo >= 0) else None
                hi = None
            nz = self.nonzero(a, x) and self.nonzero(b, y)
            newfacts[sid] = (lo, hi, frozenset([0]) if nz else frozenset())
            return ("s", sid)
        newfacts = {}
        for i, f in enumerate(r.frames):
            fb = b.frames[i]
            for k in list(f.env):
                if k in fb.env:
                    f.env[k] = jv(f.env[k], fb.env[k], (i, k.fn.name if isinstance(k, Inst) else "", k.uid if isinstance(k, Inst) else -1 - k.idx))
                else:
                    del f.env[k]
                    changed = True
        for k in list(r.mem):
            if k in b.mem:
                if r.mem[k] != b.mem[k]:
                    r.mem[k] = jv(r.mem[k], b.mem[k], ("m", k))
            else:
                del r.mem[k]
                r.fields.pop(k, None)
                changed = True
        for k in list(r.facts):
            if k in newfacts:
                continue
            fa, fb2 = r.facts[k], b.facts.get(k)
            if isinstance(k, tuple) and k and k[0] == "j" and k[1] == blk.fn.name and k[2] == blk.id and fb2 is None:
                continue
            if fb2 is None:
                del r.facts[k]
                changed = True
            elif fb2 != fa:
                lo = None if fa[0] is None or fb2[0] is None else min(fa[0], fb2[0])
                hi = None if fa[1] is None or fb2[1] is None else max(fa[1], fb2[1])
                if n > 3:
                    lo = lo if lo == fa[0] else (0 if lo is not None and lo >= 0 else None)
                    hi = hi if hi == fa[1] else None
                ne = frozenset(x for x in fa[2] | fb2[2]
                               if (x in fa[2] or (fa[0] is not None and x < fa[0]) or (fa[1] is not None and x > fa[1])) and
                               (x in fb2[2] or (fb2[0] is not None and x < fb2[0]) or (fb2[1] is not None and x > fb2[1])))
                nf = (lo, hi, ne)
                if nf != fa:
                    r.facts[k] = nf
                    changed = True
        r.facts.update(newfacts)
        for k in list(r.rel):
            o = b.rel.get(k)
            if o is None:
                del r.rel[k]
                changed = True
            elif o != r.rel[k]:
                u = o | r.rel[k]
                if u != r.rel[k]:
                    r.rel[k] = u
                    changed = True
        if not b.esc <= r.esc:
            r.esc = r.esc | b.esc
            changed = True
        nq = self.join_q(a.q, b.q)
        if nq != r.q:
            r.q = nq
            changed = True
        r.trace = b.trace
        return r, changed

    def join_q(self, a, b):
        return b if a == b else a

    def exec_block(self, st, b, idx):
        insts = b.insts
        n = len(insts)
        while idx < n:
            i = insts[idx]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit("analysis budget exceeded in %s (entry budget %d)" % (b.fn.name, self.max_steps))
            op = i.op
            if op == "phi":
                idx += 1
                continue
            if op == "call":
                outs = self.call(st, i, b, idx)
                if outs is None:      # entered callee or path ended
                    return
                if len(outs) == 1:
                    v, st = outs[0]
                    st.env[i] = v
                    idx += 1
                    continue
                for v, s2 in outs:
                    s2.env[i] = v
                    self.work.append((s2, b, idx + 1))
                return
            if op == "br":
                if not i.ops:
                    self.push(st, i.succs[0], b)
                    return
                c = self.val(st, i.ops[0])
                r = self.nonzero(st, c)
                if r is not None:
                    if self.on_branch(st, i, c, r) is not False:
                        self.push(st, i.succs[0 if r else 1], b)
                    return
                s2 = st.copy()
                if self.assume(s2, c, False) and self.on_branch(s2, i, c, False) is not False:
                    self.push(s2, i.succs[1], b)
                if self.assume(st, c, True) and self.on_branch(st, i, c, True) is not False:
                    self.push(st, i.succs[0], b)
                return
            if op == "switch":
                c = self.val(st, i.ops[0])
                if c[0] == "i":
                    t = i.default
                    for k, s in i.cases:
                        if k == c[1]:
                            t = s
                    self.push(st, t, b)
                    return
                for k, s in i.cases:
                    s2 = st.copy()
                    cc = ("c", "eq", c, ("i", k))
                    if self.assume(s2, cc, True) and self.on_branch(s2, i, cc, True) is not False:
                        self.push(s2, s, b)
                ok = True
                for k, s in i.cases:
                    if not self.assume(st, ("c", "eq", c, ("i", k)), False):
                        ok = False
                        break
                if ok:
                    self.push(st, i.default, b)
                return
            if op == "ret":
                v = self.val(st, i.ops[0]) if i.ops else TOP
                self.ret(st, i, v)
                return
            if op == "unreachable":
                return
            st.env[i] = self.simple(st, i)
            if st.env[i] is None:    # fork
                del st.env[i]
                c = self.val(st, i.ops[0])
                s2 = st.copy()
                if self.assume(s2, c, False):
                    s2.env[i] = self.val(s2, i.ops[2])
                    self.work.append((s2, b, idx + 1))
                if not self.assume(st, c, True):
                    return
                st.env[i] = self.val(st, i.ops[1])
            idx += 1

    def simple(self, st, i):
        op = i.op
        if op == "load":
            return self.load(st, i, i.ops[0])
        if op == "store":
            self.store(st, i, i.ops[1], self.val(st, i.ops[0]))
            return TOP
        if op == "gep":
            base = self.val(st, i.ops[0])
            off = i.off
            for v, sc in i.var:
                x = self.val(st, v)
                if x[0] == "i":
                    off = off + x[1] * sc if off is not None else None
                else:
                    off = None
            if off is None:
                if base[0] == "p":
                    return ("p", base[1], None)
                if base[0] == "s":
                    return ("p", ("o", base[1]), None)
                return TOP
            return self.add_off(base, off)
        if op == "icmp":
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            r = self.decide(st, i.pred, a, b)
            if r is not None:
                return ("i", 1 if r else 0)
            if a == TOP or b == TOP:
                return self.fresh(st, i, 0, 0, 1)
            # comparing a boolean expression with 0/1
            if b[0] == "i" and i.pred in ("eq", "ne") and a[0] in ("c", "not"):
                pos = (b[1] != 0) == (i.pred == "eq")
                if pos:
                    return a
                return ("c", NEG[a[1]], a[2], a[3]) if a[0] == "c" else a[1]
            return ("c", i.pred, a, b)
        if op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            v = self.val(st, i.ops[0])
            if op == "zext" and v[0] == "i" and v[1] < 0:
                o = i.ops[0]
                bits = o.ty.bits if isinstance(o, (Inst, Arg)) else 0
                return ("i", v[1] & ((1 << bits) - 1)) if bits else TOP
            if op == "zext" and v[0] == "s":
                lo, hi, ne = self.fact(st, v[1])
                o = i.ops[0]
                if (lo is None or lo < 0) and isinstance(o, (Inst, Arg)) and o.ty.bits == 8:
                    sid = ("e", "zext8", v)
                    st.facts.setdefault(sid, (0, 255, frozenset([0]) if 0 in ne else frozenset()))
                    return ("s", sid)
            return v
        if op == "trunc":
            v = self.val(st, i.ops[0])
            if v[0] == "i":
                bits = i.ty.bits
                r = v[1] & ((1 << bits) - 1)
                if bits > 1 and r >> (bits - 1):
                    r -= 1 << bits
                return ("i", r)
            if v[0] in ("c", "not"):
                return v
            if v[0] == "s":
                lo, hi, ne = self.fact(st, v[1])
                if i.ty.bits == 1:
                    return ("c", "ne", v, NULL)
                b = i.ty.bits
                if lo is not None and hi is not None and lo >= -(1 << (b - 1)) and hi < (1 << (b - 1)):
                    return v
                if b >= 32:
                    return v   # lengths and counters: documented assumption, no 32-bit overflow
                sid = ("e", "trunc%d" % b, v)
                if b == 8:
                    st.facts.setdefault(sid, (-128, 127, frozenset()))
                return ("s", sid)
            return TOP if v[0] == "u" else (v if i.ty.bits >= 32 else TOP)
        if op == "select":
            c = self.val(st, i.ops[0])
            r = self.nonzero(st, c)
            if r is not None:
                return self.val(st, i.ops[1 if r else 2])
            return None
        if op == "alloca":
            return ("p", ("al", st.ctx, i.fn.name, i.uid), 0)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            return self.expr(st, op, self.val(st, i.ops[0]), self.val(st, i.ops[1]), i.ty)
        if op == "extractvalue":
            v = self.val(st, i.ops[0])
            if v[0] == "S" and len(i.indices) == 1 and i.indices[0] + 1 < len(v) and v[i.indices[0] + 1] != TOP:
                return v[i.indices[0] + 1]
            return self.fresh(st, i)
        if op == "insertvalue":
            a, v = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            n = len(i.ty.fields) if i.ty.kind == "struct" and i.ty.fields else 0
            if len(i.indices) != 1 or not n:
                return TOP
            fs = list(a[1:]) if a[0] == "S" else [TOP] * n
            fs[i.indices[0]] = v
            return ("S",) + tuple(fs)
        return self.fresh(st, i) if i.ty.kind != "void" else TOP

    def call(self, st, i, b, idx):
        args = [self.val(st, o) for o in i.ops]
        callee = i.callee
        name = None
        if isinstance(callee, Function):
            name = callee.name
        else:
            cv = self.val(st, callee) if callee is not None else TOP
            if cv[0] == "fn":
                name = cv[1]
        if name is None:
            field = self.field_of(callee.ops[0]) if isinstance(callee, Inst) and callee.op == "load" else None
            outs = self.on_icall(st, i, field, args)
            if outs is not None:
                return outs if outs else None
            self.opaque_effects(st, i, None, args)
            return [(self.ret_value(st, i), st)]
        outs = self.on_call(st, i, name, args)
        if outs is not None:
            return outs if outs else None
        fn = self.m.functions.get(name)
        if self.model and self.model.noreturn(name) and not self.follow_stop(fn):
            self.on_stop(st, i, name, args)
            return None
        if fn is not None and not fn.decl:
            depth = len(st.frames)
            rec = sum(1 for f in st.frames if f.fn is fn) >= self.rec_limit
            if depth <= self.max_depth and not rec and not self.allocator(name) and self.inline(fn, i, st):
                ctx = st.ctx + (i.uid,)
                nf = Frame(fn, (), {}, (i, b, idx), ctx)
                for a in fn.args:
                    nf.env[a] = args[a.idx] if a.idx < len(args) else TOP
                st.frames = st.frames + [nf]
                # forget cells of a previous activation in the same context
                for k in list(st.mem) if self.has_locals(fn) else ():
                    if k[0][0] == "al" and k[0][1] == ctx or (k[0] == "zero" and k[1][0] == "al" and k[1][1] == ctx):
                        del st.mem[k]
                        st.fields.pop(k, None)
                self.on_enter(st, fn, args)
                self.push(st, fn.blocks[0], None)
                return None
        return self.default_call(st, i, name, args)

    def default_call(self, st, i, name, args):
        if self.model and self.model.is_alloc(name):
            obj = ("h", st.ctx, i.fn.name, i.uid)
            self.clobber_obj(st, obj)
            if name.split(".")[0] in ("xcalloc", "pool_calloc"):
                st.mem[("zero", obj)] = ("i", 1)
            return [(("p", obj, 0), st)]
        if name == "__errno_location":
            return [(("p", ("errno",), 0), st)]
        self.opaque_effects(st, i, name, args)
        return [(self.ret_value(st, i), st)]

    _locals = {}

    def has_locals(self, fn):
        k = id(fn)
        if k not in self._locals:
            self._locals[k] = (fn, any(i.op == "alloca" for b in fn.blocks for i in b.insts))
        return self._locals[k][1]

    def ret_value(self, st, i):
        if i.ty.kind == "void":
            return TOP
        return self.typed_fresh(st, i)

    def ret(self, st, inst, v):
        fr = st.frames[-1]
        self.on_leave(st, fr.fn, v)
        if len(st.frames) == 1:
            self.on_return(st, inst, v)
            return
        ci, b, idx = fr.call
        if v[0] == "p" and v[1][0] == "al" and v[1][1] == fr.ctx:
            v = TOP
        st.frames = st.frames[:-1]
        st.frames[-1] = st.frames[-1].copy()
        for k in list(st.mem) if self.has_locals(fr.fn) else ():
            if k[0][0] == "al" and k[0][1] == fr.ctx:
                del st.mem[k]
                st.fields.pop(k, None)
            elif k[0] == "zero" and k[1][0] == "al" and k[1][1] == fr.ctx:
                del st.mem[k]
        st.env[ci] = v
        self.work.append((st, b, idx + 1))


def _copy_full(self):
    s = self.copy()
    s.frames = [f.copy() for f in self.frames]
    return s


State.copy_full = _copy_full
