"""Abstract interpretation of the actions of a rule on a small abstract syntax tree.

The tree (kinds, key words, children) and the shape of lists are fixed by a scenario; all texts that come from values, variables,
files and paths stay symbolic, and every outcome of the outside world (does a file exist, does a command succeed, is a record
outdated, ...) is split into all its cases.  The actions are followed through the real code from the binding of the node through
its callbacks, whatever private functions they are spread over.  What is observed is the sequence of calls of the public
operations (dependency records, commands, products, variables), kept as the automaton state q."""
import posixpath
from .lib import *
from .lib import _ci


def T(tag, *args):
    """symbolic non-null text"""
    return ("s", ("T", tag) + args)


def H(name):
    """a distinct known object"""
    return ("p", ("h", name), 0)


NODE_VALUE, NODE_SCRIPT, NODE_BAG = 1, 0x100, 0x200


class N:
    """node of the abstract tree"""
    def __init__(self, kind, value, *children, val=None, unit=None, **cells):
        self.kind, self.value, self.children, self.val, self.unit, self.cells = kind, value, list(children), val, unit, cells
        self.id = None
        self.parent = None

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    @property
    def ptr(self):
        return H(self.id)

    def __repr__(self):
        return "%s(%s)" % (self.kind, self.value)


def V(text, **kw):
    return N("value", text, **kw)


def bag(word, *children, **kw):
    return N("bag", word, *children, **kw)


_KINDS = {}


def kind_type(ctx, word):
    """type value of a directive, as the parser action gives it"""
    k = (id(ctx), word)
    if k not in _KINDS:
        from rules.p20 import classify, classifier
        c = _KINDS.get((id(ctx), None))
        if c is None:
            c = classifier(ctx)
            if not c:
                raise AnalysisBroken("no parser action that classifies rule keywords was found")
            _KINDS[(id(ctx), None)] = c
        r = classify(ctx, c[0], word)
        if not r or len(r) != 1 or next(iter(r))[0][0] != "i":
            raise AnalysisBroken("kind of '%s' is not constant" % word)
        _KINDS[k] = next(iter(r))
    return _KINDS[k]


class Scen(Rule):
    max_states = 150
    max_shapes = 0
    max_depth = 60
    max_steps = 3000000
    rec_limit = 6
    widen_cursor = False
    # public functions followed instead of being modelled
    inl = frozenset()
    once = frozenset()          # event kinds kept only once

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.final = []
        self.stops = []
        self.values = {}        # node id -> value or list of values (None for NULL)
        self.recs = ()          # entries of the previous record: (type, flags, resource, alias, serial, outdated)
        self.unknown = set()
        self.tree = None

    # ---- engine behaviour
    def inline(self, fn, inst, st):
        if fn.name in self.inl or self.model.base(fn.name) in self.inl:
            return True
        return Rule.inline(self, fn, inst, st)

    def fact(self, st, sid):
        f = st.facts.get(sid)
        if f is not None:
            return f
        if isinstance(sid, tuple) and sid and sid[0] == "T":
            if sid[1] in ("len", "pid"):
                return (1, None, frozenset())
            return (None, None, frozenset([0]))
        return (None, None, frozenset())

    def decide(self, st, pred, a, b):
        if a[0] == "s" and b[0] == "s" and a != b and isinstance(a[1], tuple) and isinstance(b[1], tuple) and \
                a[1][:2] == ("T", "pid") and b[1][:2] == ("T", "pid"):
            return pred == "ne"
        if pred in ("eq", "ne"):
            # a real object is not at the address -1 used as a mark
            for x, y in ((a, b), (b, a)):
                if y == ("i", -1) and (x[0] == "p" and x[1][0] in ("g", "h", "al") or self.is_text(x)):
                    return pred == "ne"
        return super().decide(st, pred, a, b)

    def is_text(self, v):
        return v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "T"

    def write(self, st, pv, v, field):
        ob = self.obj_of(pv)
        if ob is None:
            return
        if ob[0][0] == "o" and isinstance(ob[0][1], tuple) and ob[0][1][0] == "T":
            return
        g = self.ghost(st, ob[0])
        if g is not None and isinstance(ob[1], int) and v[0] == "i" and 0 <= ob[1] <= len(g):
            raw = (g + "\0")[:ob[1]] + chr(v[1] & 255) + (g + "\0")[ob[1] + 1:]
            st.mem[(("T", ob[0], 0), 0)] = self.const(raw)
            return
        super().write(st, pv, v, field)

    def ghost(self, st, obj):
        """known bytes of a buffer"""
        t = st.mem.get((("T", obj, 0), 0))
        return None if t is None else self.raw(t)

    def raw(self, v):
        """bytes of a constant text made by const()"""
        if v[0] == "p" and v[1][0] == "g" and isinstance(v[1][1], str) and v[1][1].startswith(".sa.t:"):
            return v[1][1][6:][v[2]:] if isinstance(v[2], int) else None
        return self.string(v)

    GHOST = ("L", "T", "X", "F", "D", "W", "C", "M")

    def clobber_fields(self, st, fields):
        keep = {k: v for k, v in st.mem.items() if k[0][0] in self.GHOST}
        super().clobber_fields(st, fields)
        st.mem.update(keep)

    def opaque_effects(self, st, inst, name, args):
        keep = {k: v for k, v in st.mem.items() if k[0][0] in self.GHOST}
        super().opaque_effects(st, inst, name, args)
        st.mem.update(keep)

    def on_leave(self, st, fn, val):
        if not self.has_locals(fn):
            return
        c = st.ctx
        for k in [k for k in st.mem if k[0][0] in self.GHOST and len(k[0]) > 1 and isinstance(k[0][1], tuple) and k[0][1][:1] == ("al",) and k[0][1][1] == c]:
            del st.mem[k]

    def count_up(self, st, what):
        k = (("C", what), 0)
        v = st.mem.get(k, NULL)
        n = v[1] if v[0] == "i" else 0
        st.mem[k] = ("i", n + 1)
        return n

    def default_call(self, st, i, name, args):
        if self.model.is_alloc(name):
            n = self.count_up(st, (i.fn.name, i.uid))
            obj = ("h", "new", i.fn.name, i.uid, n)
            if self.model.base(name) in ("xcalloc", "pool_calloc"):
                st.mem[("zero", obj)] = ("i", 1)
            return [(("p", obj, 0), st)]
        if self.m.functions.get(name) is not None and not name.startswith("llvm.") and name != "__errno_location":
            self.unknown.add(name)
        return super().default_call(st, i, name, args)

    def on_load(self, st, inst, ptr, val, field):
        ob = self.obj_of(ptr)
        if ob is None:
            return None
        o = ob[0]
        if o[0] == "o" and isinstance(o[1], tuple) and o[1][:1] == ("T",):
            if inst.ty.kind == "int" and inst.ty.bits == 8 and ob[1] == 0:
                t = ("s", o[1])
                if self.items(t) is not None:
                    return ("i", 1)
                sid = ("T", "byte0", t)
                st.facts.setdefault(sid, (-128, 127, frozenset([0, 1])))
                return ("s", sid)
            return self.fresh(st, inst, 0)
        g = st.mem.get((("T", o, 0), 0))
        if g is not None and inst.ty.kind == "int" and inst.ty.bits == 8 and (o, ob[1]) not in st.mem:
            s = self.raw(g)
            if ob[1] == 0 and s is None:
                return self.on_load(st, inst, g, val, field) if self.is_text(g) else None
            if s is not None and isinstance(ob[1], int):
                return ("i", (ord(s[ob[1]]) if ob[1] < len(s) else 0))
        return None

    def on_icall(self, st, inst, field, args):
        self.unknown.add("call through " + str(field))
        return [(self.ret_value(st, inst), st)]

    def on_return(self, st, inst, val):
        self.final.append((st.copy_full(), val))

    def on_stop(self, st, inst, name, args):
        self.stops.append((st.copy_full(), name, args, inst))

    # ---- events
    def ev(self, st, *e):
        if e[0] in self.once and e in st.q:
            return
        st.q = st.q + (e,)

    def q_syms(self, q):
        out = set()
        for e in q or ():
            for x in e:
                if isinstance(x, tuple):
                    out |= syms(x)
        return out

    # ---- texts
    def const(self, text):
        return const_text(self.ctx, "t:" + text, text)

    def text(self, st, v):
        """canonical text a pointer designates"""
        if v is None or v == NULL:
            return NULL
        s = self.string(v)
        if s is not None:
            return self.const(s)
        if v[0] == "p":
            if isinstance(v[2], int):
                g = self.ghost(st, v[1])
                if g is not None:
                    return self.const(g[v[2]:].split("\0")[0])
                t = st.mem.get((("T", v[1], v[2]), 0))
                if t is not None:
                    return t
                if v[1][0] == "o" and isinstance(v[1][1], tuple) and v[1][1][:1] == ("T",):
                    return T("at", ("s", v[1][1]), v[2])
        return v

    def set_text(self, st, buf, t):
        ob = self.obj_of(buf)
        if ob is None or not isinstance(ob[1], int):
            return
        self.clobber_obj(st, ob[0]) if ob[1] == 0 else None
        st.mem[(("T", ob[0], ob[1]), 0)] = t

    def parts(self, v):
        s = self.string(v)
        if s is not None:
            return (s,)
        if self.is_text(v) and v[1][1] == "cat":
            return v[1][2:]
        return (v,)

    def cat(self, *ps):
        out = []
        for p in ps:
            for x in ((p,) if isinstance(p, str) else self.parts(p)):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != "":
                    out.append(x)
        if not out:
            return self.const("")
        if len(out) == 1:
            return self.const(out[0]) if isinstance(out[0], str) else out[0]
        return T("cat", *out)

    def fmt(self, st, f, args):
        s = self.string(f)
        if s is None:
            return T("fmt", f, *args)
        out, i, k = [], 0, 0
        import re
        for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+|\.\*)?(?:hh|h|ll|l|z|j|t)?[a-zA-Z])", s):
            out.append(s[i:m.start()])
            i = m.end()
            if m.group(1) == "%":
                out.append("%")
                continue
            a = args[k] if k < len(args) else TOP
            k += 1
            c = m.group(1)[-1]
            if c == "s":
                out.append(self.text(st, a))
            elif c == "c" and a[0] == "i":
                out.append(chr(a[1] & 255))
            elif a[0] == "i":
                out.append(str(a[1]))
            else:
                out.append(T("num", a))
        out.append(s[i:])
        return self.cat(*out)

    def items(self, t):
        """items of a symbolic list text"""
        if self.is_text(t) and t[1][1] == "list":
            return [x for x in t[1][2:]]
        return None

    # ---- lists
    def lst(self, st, p):
        ob = self.obj_of(p)
        return None if ob is None else (("L", ob[0], ob[1]), 0)

    def lget(self, st, p):
        k = self.lst(st, p)
        v = st.mem.get(k) if k else None
        return list(v[1:]) if v else []

    def lset(self, st, p, els):
        k = self.lst(st, p)
        if k is None:
            return
        st.mem[k] = ("L",) + tuple(els)
        self.set_cell(st, p, "ulist", "num", ("i", len(els)))

    def elem(self, st, e):
        """value stored in a pointer-sized element"""
        return st.mem.get((e[1], 0))

    def new_elem(self, st, lp, src):
        k = self.lst(st, lp)
        n = self.count_up(st, k)
        obj = ("h", "el", k, n)
        ob = self.obj_of(src)
        us = self.get_cell(st, lp, "ulist", "usize")
        size = us[1] if us and us[0] == "i" and us[1] else 8
        if ob and isinstance(ob[1], int):
            for kk, v in list(st.mem.items()):
                if kk[0] == ob[0] and isinstance(kk[1], int) and ob[1] <= kk[1] < ob[1] + size:
                    st.mem[(obj, kk[1] - ob[1])] = v
                    if kk in st.fields:
                        st.fields[(obj, kk[1] - ob[1])] = st.fields[kk]
            if self.string(src) is None and ("zero", ob[0]) in st.mem:
                st.mem[("zero", obj)] = st.mem[("zero", ob[0])]
        return ("p", obj, 0)

    def cwd(self, st):
        return st.mem.get((("C", "cwd"), 0), self.const("/prj"))

    def units(self, st):
        """units on the stack of unit contexts"""
        off = self.offset("env", "stack_units")
        return [st.mem.get((e[1], 0)) for e in self.lget(st, ("p", ("g", "g_env"), off))]

    def push_unit(self, st, unit, flags=0):
        lp = ("p", ("g", "g_env"), self.offset("env", "stack_units"))
        self.set_cell(st, lp, "ulist", "usize", ("i", 16))
        tmp = H("TMPCTX")
        self.set_cell(st, tmp, "unit_ctx", "unit", unit)
        self.set_cell(st, tmp, "unit_ctx", "flags", ("i", flags))
        self.lset(st, lp, self.lget(st, lp) + [self.new_elem(st, lp, tmp)])
        for k in [k for k in st.mem if k[0] == tmp[1]]:
            del st.mem[k]

    # ---- tree
    def plant(self, st, root):
        """put the abstract tree into memory"""
        self.tree = root
        k = 0
        for n in root.walk():
            n.id = "N%d" % k
            k += 1
            for c in n.children:
                c.parent = n
        for n in root.walk():
            p = n.ptr
            flags = 0
            if n.kind == "value":
                t = NODE_VALUE
            elif n.kind == "bag":
                t = NODE_BAG
            elif n.kind == "script":
                t = NODE_SCRIPT
            else:
                kt, kf = kind_type(self.ctx, n.kind)
                t, flags = kt[1], kf[1]
            ob = p[1]
            st.mem[("zero", ob)] = ("i", 1)
            cells = {"type": ("i", t), "flags": ("i", flags), "value": self.const(n.value), "name": T("name", n.id), "vfile": self.const(".vf_" + n.id),
                     "child": n.children[0].ptr if n.children else NULL, "next": NULL,
                     "parent": n.parent.ptr if n.parent else NULL, "ctx": H("SCTX"), "unit": NULL, "impl": NULL, "index": ("i", int(n.id[1:])),
                     "lnum": ("i", 1), "flags_owner": NULL}
            if n.parent:
                sib = n.parent.children
                i = sib.index(n)
                if i + 1 < len(sib):
                    cells["next"] = sib[i + 1].ptr
            if n.unit:
                cells["unit"] = H(n.unit)
            for a in ("value_get", "init", "setup", "build", "post_build", "dispose"):
                cells[a] = NULL
            cells.update(n.cells)
            for c, v in cells.items():
                self.set_cell(st, p, "node", c, v)
        for u in sorted({n.unit for n in root.walk() if n.unit} | {"U0"}):
            up = H(u)
            for c, t in self.unit_paths(u).items():
                self.set_cell(st, up, "unit", c, self.const(t))
            self.set_cell(st, up, "unit", "flags", ("i", 2))
            self.set_cell(st, up, "unit", "n", NULL)
        self.set_cell(st, H("SCTX"), "sctx", "root", root.ptr)
        self.set_cell(st, H("SCTX"), "sctx", "products", H("PRODUCTS"))
        if not self.units(st):
            self.push_unit(st, H("U0"))

    def unit_paths(self, u):
        d = "" if u == "U0" else "/" + u.replace("U", "sub")
        rel = (d[1:] + "/" if d else "") + "Autark"
        return {"rel_path": rel, "basename": "Autark", "dir": "/prj" + d, "source_path": "/prj/" + rel,
                "cache_path": "/prj/cache/" + rel, "cache_dir": "/prj/cache" + d}

    def genv(self, st, member, v):
        off = self.offset("env", member)
        st.mem[(("g", "g_env"), off)] = v
        st.fields[(("g", "g_env"), off)] = self.m.field("env", off)

    def base_env(self, st):
        for m, v in (("verbose", NULL), ("max_parallel_jobs", ("i", 2)), ("project.root_dir", self.const("/prj")), ("project.cache_dir", self.const("/prj/cache")),
                     ("install.prefix_dir", self.const("/prefix")), ("install.enabled", ("i", 1)), ("check.log", NULL), ("pool", H("GPOOL")),
                     ("project.cleanup", NULL), ("project.prepared", ("i", 1))):
            try:
                self.genv(st, m, v)
            except AnalysisBroken:
                pass

    # ---- running
    def state(self):
        st = State()
        st.q = ()
        self.base_env(st)
        return st

    def call_fn(self, st, name, args):
        """all final (state, value) pairs of calling a function in st"""
        fn = self.m.fn(name)
        self.final = []
        s0 = st.copy_full() if st.frames else st

        def setup(s):
            s.mem.update(s0.mem)
            s.fields.update(s0.fields)
            s.facts.update(s0.facts)
            s.rel.update(s0.rel)
            s.q = s0.q
            s.esc = s0.esc
            s.trace = s0.trace
        self.run(fn, args, q=s0.q, setup=setup)
        out = self.final
        self.final = []
        res, seen = [], set()
        for s, v in out:
            s.frames[-1].env = {}
            k = self.hash_state(s), v
            if k not in seen:
                seen.add(k)
                res.append((s, v))
        return res

    def chain(self, states, name, args):
        out = []
        for s in states:
            out += [x for x, _ in self.call_fn(s, name, args)]
        return out

    def action(self, states, node, member):
        """run a callback stored in a node, in all states that have it"""
        out = []
        for s in states:
            v = self.get_cell(s, node.ptr, "node", member)
            if v is None or v == NULL:
                out.append(s)
            elif v[0] == "fn":
                out += [x for x, _ in self.call_fn(s, v[1], [node.ptr])]
            else:
                raise AnalysisBroken("callback %s of %s is not a known function" % (member, node))
        return out


# ---- models -------------------------------------------------------------------------------------------------------------
def noop(v=TOP):
    def h(self, st, inst, args):
        return [(v if inst.ty.kind != "void" else TOP, st)]
    return h


def m_same(k):
    def h(self, st, inst, args):
        return [(self.text(st, args[k]), st)]
    return h


def m_ndup(self, st, inst, args):
    t = self.text(st, args[1])
    n = _ci(self, st, args[2])
    s = self.string(t)
    if s is not None and n is not None:
        t = self.const(s[:n])
    return [(t, st)]


def m_pool_printf(self, st, inst, args):
    return [(self.fmt(st, args[1], args[2:]), st)]


def m_snprintf(self, st, inst, args):
    self.set_text(st, args[0], self.fmt(st, args[2], args[3:]))
    return [(self.fresh(st, inst, 0, 0, None), st)]


def norm(self, st, t, cwd):
    """text as an absolute path seen from cwd"""
    a, c = self.string(t), self.string(cwd)
    if a is not None and (a.startswith("/") or c is not None):
        return self.const(posixpath.normpath(posixpath.join(c or "/", a)))
    if self.is_text(t):
        if t[1][1] in ("norm", "source_path", "dir", "cache_dir", "cache_path", "root_dir", "cache_root", "prefix_dir"):
            return t
        if t[1][1] == "rel" and t[1][3] == cwd:
            return norm(self, st, t[1][2], cwd)
        if t[1][1] == "cat" and isinstance(t[1][2], str) and t[1][2].startswith("/"):
            return T("norm", t)
        if t[1][1] == "cat" and self.is_text(t[1][2]) and t[1][2][1][1] in ("norm", "prefix_dir"):
            return T("norm", t)
    return T("norm", t, cwd)


def m_norm(c, b):
    """c: index of the working directory argument or None, b: index of the buffer or None"""
    def h(self, st, inst, args):
        cwd = self.cwd(st) if c is None or args[c] == NULL else self.text(st, args[c])
        t = norm(self, st, self.text(st, args[0]), cwd)
        if b is None or args[b] == NULL:
            return [(t, st)]
        self.set_text(st, args[b], t)
        return [(args[b], st)]
    return h


def new_text(self, st, inst, t):
    """a text in a buffer of its own that may be edited"""
    s = self.string(t)
    if s is None:
        return t
    n = self.count_up(st, (inst.fn.name, inst.uid))
    obj = ("h", "new", inst.fn.name, inst.uid, n)
    st.mem[(("T", obj, 0), 0)] = t
    return ("p", obj, 0)


def m_rel(k):
    """k: number of arguments before (from, to)"""
    def h(self, st, inst, args):
        a, b = self.text(st, args[k]), self.text(st, args[k + 1])
        cwd = self.text(st, args[2]) if len(args) > 2 and args[2] != NULL else self.cwd(st)
        a, b = norm(self, st, a, cwd), norm(self, st, b, cwd)
        sa, sb = self.string(a), self.string(b)
        if sa is not None and sb is not None:
            return [(new_text(self, st, inst, self.const(posixpath.relpath(sb, sa))), st)]
        return [(T("rel", b, a), st)]
    return h


def m_un(tag):
    def h(self, st, inst, args):
        s = self.string(self.text(st, args[0]))
        if s is not None:
            return [(self.const(posixpath.basename(s) if tag == "base" else posixpath.dirname(s) or "."), st)]
        return [(T(tag, self.text(st, args[0])), st)]
    return h


def m_bool(kind):
    def h(self, st, inst, args):
        t = self.text(st, args[0])
        if kind == "abs" and self.string(t) is not None:
            return [(("i", int(self.string(t).startswith("/"))), st)]
        r = self.outcome(st, kind, t) if hasattr(self, "outcome") else None
        if r is not None:
            self.ev(st, "is", kind, t, int(r))
            return [(("i", int(r)), st)]
        for e in st.q:
            if e[0] == "is" and e[1] == kind and e[2] == t:
                return [(("i", e[3]), st)]
        s2 = st.copy()
        self.ev(st, "is", kind, t, 1)
        self.ev(s2, "is", kind, t, 0)
        return [(("i", 1), st), (NULL, s2)]
    return h


def m_prefix(self, st, inst, args):
    c = self.text(st, args[2]) if len(args) > 2 else self.cwd(st)
    a, b = norm(self, st, self.text(st, args[0]), c), norm(self, st, self.text(st, args[1]), c)
    sa, sb = self.string(a), self.string(b)
    if sa is not None and sb is not None:
        if sb == sa or sb.startswith(sa.rstrip("/") + "/"):
            return [(self.const(sb[len(sa):]), st)]
        return [(NULL, st)]
    s2 = st.copy()
    return [(T("pfx", self.text(st, args[1])), st), (NULL, s2)]


def m_len(self, st, inst, args):
    t = self.text(st, args[0])
    s = self.string(t)
    if s is not None:
        return [(("i", len(s)), st)]
    return [(("s", ("T", "len", t)), st)]


def m_cmp(self, st, inst, args):
    a, b = self.text(st, args[0]), self.text(st, args[1])
    sa, sb = self.string(a), self.string(b)
    if sa is not None and sb is not None:
        return [(("i", 0 if sa == sb else 1), st)]
    if a == b:
        return [(NULL, st)]
    r = self.compare(st, a, b) if hasattr(self, "compare") else None
    if r is not None:
        return [(("i", int(not r)), st)]
    return [(self.fresh(st, inst), st)]


def m_find_char(f, rev):
    def h(self, st, inst, args):
        t = self.text(st, args[0])
        s, c = self.string(t), _ci(self, st, args[1])
        if s is not None and c is not None:
            k = (s + "\0").rfind(chr(c & 255)) if rev else (s + "\0").find(chr(c & 255))
            return [(NULL if k < 0 else self.add_off(args[0] if args[0][0] == "p" else t, k), st)]
        if t == NULL or not self.is_text(t):
            return None
        hit = T("at", t, c if c is not None else -1)
        if rev:
            return [(hit, st)]
        return [(hit, st), (NULL, st.copy())]
    return h


def m_copy_text(dst, src):
    def h(self, st, inst, args):
        self.set_text(st, args[dst], self.text(st, args[src]))
        return [(args[dst], st)]
    return h


def m_copy_n(self, st, inst, args):
    t = self.text(st, args[1])
    s, n = self.string(t), _ci(self, st, args[2])
    if s is not None and n is not None:
        t = self.const(s[:n])
    self.set_text(st, args[0], t)
    return [(args[0], st)]


def m_memcpy(self, st, inst, args):
    t = self.text(st, args[1])
    if self.is_text(t) or (self.string(t) is not None and args[1][1][0] == "h"):
        self.set_text(st, args[0], t)
        return [(TOP, st)]
    return None


# lists
def l_init(self, st, inst, args):
    if self.obj_of(args[0]):
        if len(args) > 2 and args[2][0] == "i":
            self.set_cell(st, args[0], "ulist", "usize", args[2])
        self.lset(st, args[0], [])
    return [(TOP, st)]


def l_create(self, st, inst, args):
    n = self.count_up(st, (inst.fn.name, inst.uid))
    p = ("p", ("h", "new", inst.fn.name, inst.uid, n), 0)
    self.set_cell(st, p, "ulist", "usize", args[1])
    self.lset(st, p, [])
    return [(p, st)]


def l_clear(self, st, inst, args):
    if self.obj_of(args[0]):
        self.lset(st, args[0], [])
    return [(TOP, st)]


def l_push(self, st, inst, args):
    self.lset(st, args[0], self.lget(st, args[0]) + [self.new_elem(st, args[0], args[1])])
    return [(TOP, st)]


def l_unshift(self, st, inst, args):
    self.lset(st, args[0], [self.new_elem(st, args[0], args[1])] + self.lget(st, args[0]))
    return [(TOP, st)]


def l_get(self, st, inst, args):
    els = self.lget(st, args[0])
    i = _ci(self, st, args[1])
    if i is None:
        return [(e, st.copy()) for e in els] or [(NULL, st)]
    i &= 0xffffffff
    return [(els[i] if i < len(els) else NULL, st)]


def l_peek(self, st, inst, args):
    els = self.lget(st, args[0])
    return [(els[-1] if els else NULL, st)]


def l_remove(self, st, inst, args):
    els = self.lget(st, args[0])
    i = _ci(self, st, args[1])
    if i is not None and 0 <= i < len(els):
        del els[i]
        self.lset(st, args[0], els)
    return [(TOP, st)]


def l_pop(k):
    def h(self, st, inst, args):
        els = self.lget(st, args[0])
        if els:
            del els[k]
        self.lset(st, args[0], els)
        return [(TOP, st)]
    return h


def l_set(self, st, inst, args):
    els = self.lget(st, args[0])
    i = _ci(self, st, args[1])
    if i is not None and 0 <= i < len(els):
        els[i] = self.new_elem(st, args[0], args[2])
        self.lset(st, args[0], els)
    return [(TOP, st)]


def l_insert(self, st, inst, args):
    els = self.lget(st, args[0])
    i = _ci(self, st, args[1])
    if i is not None and 0 <= i <= len(els):
        els.insert(i, self.new_elem(st, args[0], args[2]))
        self.lset(st, args[0], els)
    return [(TOP, st)]


def l_to_vlist(self, st, inst, args):
    return [(T("list", *[self.elem(st, e) or TOP for e in self.lget(st, args[0])]), st)]


# value lists
def v_is(self, st, inst, args):
    v = args[0]
    nz = self.nonzero(st, v)
    if nz is False:
        return [(NULL, st)]
    t = self.text(st, v)
    if self.items(t) is not None:
        return [(("i", 1), st)]
    s = self.string(t)
    if s is not None:
        return [(("i", int(s[:1] == "\1")), st)]
    if self.is_text(t):
        return [(NULL, st)]
    return None


def v_init(self, st, inst, args):
    ob = self.obj_of(args[1])
    its = self.items(self.text(st, args[0]))
    if its is None:
        its = [self.text(st, args[0])]
    if ob:
        st.mem[(("W", ob[0], ob[1]), 0)] = ("L", NULL) + tuple(its)
    return [(TOP, st)]


def v_next(self, st, inst, args):
    ob = self.obj_of(args[0])
    k = (("W", ob[0], ob[1]), 0) if ob else None
    w = st.mem.get(k)
    if w is None:
        return None
    i = w[1][1]
    if i >= len(w) - 2:
        return [(NULL, st)]
    st.mem[k] = ("L", ("i", i + 1)) + w[2:]
    it = w[2 + i]
    self.set_cell(st, args[0], "vlist_iter", "item", it)
    s = self.string(it)
    self.set_cell(st, args[0], "vlist_iter", "len", ("i", len(s)) if s is not None else ("s", ("T", "len", it)))
    return [(("i", 1), st)]


# dynamic strings
def xk(self, st, p):
    ob = self.obj_of(p)
    return (("X", ob[0]), 0) if ob else None


def x_create(self, st, inst, args):
    n = self.count_up(st, (inst.fn.name, inst.uid))
    p = ("p", ("h", "new", inst.fn.name, inst.uid, n), 0)
    st.mem[xk(self, st, p)] = self.const("")
    return [(p, st)]


def x_add(f):
    def h(self, st, inst, args):
        k = xk(self, st, args[0])
        if k:
            st.mem[k] = self.cat(st.mem.get(k, T("x?")), f(self, st, args))
        return [(NULL if inst.ty.kind != "void" else TOP, st)]
    return h


def _xcat2(self, st, a):
    t = self.text(st, a[1])
    n = _ci(self, st, a[2])
    s = self.string(t)
    if s is not None and n is not None:
        return self.const(s[:n])
    return t


def x_ptr(self, st, inst, args):
    k = xk(self, st, args[0])
    return [(st.mem.get(k, T("x?")), st)]


def x_size(self, st, inst, args):
    t = st.mem.get(xk(self, st, args[0]), T("x?"))
    s = self.string(t)
    return [(("i", len(s)) if s is not None else ("s", ("T", "len", t)), st)]


def x_clear(self, st, inst, args):
    k = xk(self, st, args[0])
    if k:
        st.mem[k] = self.const("")
    return [(args[0], st)]


def m_split(self, st, inst, args):
    k = xk(self, st, args[1])
    if k and self.nonzero(st, args[0]) is not False:
        st.mem[k] = self.cat(st.mem.get(k, T("x?")), T("split", self.text(st, args[0])))
    return [(TOP, st)]


# dependency records
def d_open(self, st, inst, args):
    path, mode = self.text(st, args[0]), _ci(self, st, args[1])
    ob = self.obj_of(args[2])
    if mode is not None and mode & 2:
        out = []
        s2 = st.copy()
        self.ev(s2, "noread", path)
        out.append((("i", 2), s2))
        self.ev(st, "read", path)
        if ob:
            st.mem[(("D", ob[0], ob[1]), 0)] = NULL
            self.set_cell(st, args[2], "deps", "file", H("RFILE"))
        out.append((NULL, st))
        return self.pick_open(st, s2, out)
    s2 = st.copy()
    self.ev(s2, "openfail", path)
    self.ev(st, "open", path, mode if mode is not None else -1)
    if ob:
        self.set_cell(st, args[2], "deps", "file", H("WFILE"))
        self.set_cell(st, args[2], "deps", "num_registered", NULL)
        self.set_cell(st, args[2], "deps", "error", NULL)
    return [(NULL, st), (("i", 2), s2)]


def d_next(self, st, inst, args):
    ob = self.obj_of(args[0])
    k = (("D", ob[0], ob[1]), 0)
    v = st.mem.get(k, NULL)
    i = v[1] if v[0] == "i" else 0
    if i >= len(self.recs):
        return [(NULL, st)]
    r = self.recs[i]
    st.mem[k] = ("i", i + 1)
    for c, x in zip(("type", "flags", "resource", "alias", "serial"), r[:5]):
        self.set_cell(st, args[0], "deps", c, x)
    return [(("i", 1), st)]


def d_outdated(self, st, inst, args):
    ob = self.obj_of(args[1])
    v = st.mem.get((("D", ob[0], ob[1]), 0), NULL)
    r = self.recs[v[1] - 1]
    self.ev(st, "judged", ("i", v[1] - 1))
    return [(("i", int(r[5])), st)]


def d_add(self, st, inst, args):
    self.ev(st, "add", args[1], args[2], self.text(st, args[3]), NULL, args[4])
    return [(NULL, st)]


def d_add2(typ, swap):
    def h(self, st, inst, args):
        a, b = self.text(st, args[2]), self.text(st, args[3])
        self.ev(st, "add", ("i", typ), args[1], b if swap else a, a if swap else b, NULL)
        return [(NULL, st)]
    return h


def d_close(self, st, inst, args):
    f = self.get_cell(st, args[0], "deps", "file")
    self.set_cell(st, args[0], "deps", "file", NULL)
    if f == H("RFILE"):
        return [(NULL, st)]
    s2 = st.copy()
    self.ev(st, "close")
    self.ev(s2, "closefail")
    return [(NULL, st), (("i", 5), s2)]


# commands
def s_create(self, st, inst, args):
    n = self.count_up(st, "spawn")
    p = H("SPAWN%d" % n)
    self.ev(st, "cmd", p, self.text(st, args[0]))
    st.mem[(("M", p[1]), 0)] = args[1]
    return [(p, st)]


def s_arg(self, st, inst, args):
    self.ev(st, "arg", args[0], self.text(st, args[1]))
    return [(self.text(st, args[1]), st)]


def s_nowait(self, st, inst, args):
    self.ev(st, "nowait", args[0])
    return [(TOP, st)]


def s_do(self, st, inst, args):
    s2 = st.copy()
    self.ev(st, "run", args[0])
    self.ev(s2, "runfail", args[0])
    return [(NULL, st), (("i", 7), s2)]


def s_code(self, st, inst, args):
    bad = ("s", ("T", "code", args[0]))
    for e in st.q:
        if e[0] in ("exit0", "exit1") and e[1] == args[0]:
            if e[0] == "exit0":
                return [(NULL, st)]
            st.facts.setdefault(bad[1], (-1, 255, frozenset([0])))
            return [(bad, st)]
    s2 = st.copy()
    self.ev(st, "exit0", args[0])
    self.ev(s2, "exit1", args[0])
    s2.facts[bad[1]] = (-1, 255, frozenset([0]))
    return [(NULL, st), (bad, s2)]


def s_pid(self, st, inst, args):
    return [(("s", ("T", "pid", args[0])), st)]


def s_user(self, st, inst, args):
    return [(st.mem.get((("M", args[0][1]), 0), TOP), st)]


# nodes, units, variables
def n_value(self, st, inst, args):
    n = args[0]
    if self.nonzero(st, n) is False:
        return [(NULL, st)]
    self.ev(st, "value", n)
    nid = n[1][1] if n[0] == "p" and n[1][0] == "h" else None
    if nid in self.values:
        v = self.values[nid]
        vs = v if isinstance(v, list) else [v]
        out = []
        for k, x in enumerate(vs):
            s = st if k == len(vs) - 1 else st.copy()
            if callable(x):
                x = x(self, s)
            out.append((NULL if x is None else x, s))
        return out
    if nid is not None:
        t = self.get_cell(st, n, "node", "type")
        if t == ("i", NODE_VALUE):
            return [(self.get_cell(st, n, "node", "value"), st)]
        return [(T("val", nid), st)]
    return [(TOP, st)]


def n_event(kind, k=0):
    def h(self, st, inst, args):
        self.ev(st, kind, *[self.text(st, a) for a in args[k:]])
        return [(NULL if inst.ty.kind != "void" else TOP, st)]
    return h


def n_phase(kind, flag):
    def h(self, st, inst, args):
        n = args[0]
        if self.nonzero(st, n) is not False and n[0] == "p":
            f = self.get_cell(st, n, "node", "flags")
            if f is None or f[0] != "i" or not f[1] & flag:
                self.ev(st, kind, n)
                if f is not None and f[0] == "i":
                    self.set_cell(st, n, "node", "flags", ("i", f[1] | flag))
        else:
            self.ev(st, kind, n)
        return [(TOP, st)]
    return h


def e_get(self, st, inst, args):
    k = self.text(st, args[1])
    self.ev(st, "getvar", k)
    v = T("var", k)
    r = self.outcome(st, "var", k) if hasattr(self, "outcome") else None
    if r is not None:
        return [(v if r else NULL, st)]
    return [(v, st), (NULL, st.copy())]


def u_create(self, st, inst, args):
    n = self.count_up(st, "unit")
    p = H("UC%d" % n)
    st.mem[("zero", p[1])] = ("i", 1)
    for c in ("rel_path", "basename", "dir", "source_path", "cache_path", "cache_dir"):
        self.set_cell(st, p, "unit", c, T(c, p[1][1], self.text(st, args[0])))
    self.set_cell(st, p, "unit", "flags", args[1])
    return [(p, st)]


def u_chdir(self, st, inst, args):
    t = self.text(st, args[0])
    self.ev(st, "cd", t)
    st.mem[(("C", "cwd"), 0)] = t
    return [(NULL, st)]


def u_getcwd(self, st, inst, args):
    self.set_text(st, args[0], self.cwd(st))
    return [(args[0], st)]


def running(st):
    """commands started without waiting that have not been reaped"""
    out = []
    nowait = {e[1] for e in st.q if e[0] == "nowait"}
    for e in st.q:
        if e[0] == "run" and e[1] in nowait:
            out.append(e[1])
        elif e[0] == "reaped" and e[1] in out:
            out.remove(e[1])
    return out


def w_wait(self, st, inst, args):
    out = []
    for s in running(st):
        s2 = st.copy()
        self.ev(s2, "reaped", s)
        ob = self.obj_of(args[0])
        if ob:
            s2.mem[ob] = ("s", ("T", "status", s))
        out.append((("s", ("T", "pid", s)), s2))
    s2 = st.copy()
    self.ev(s2, "waitfail")
    out.append((("i", -1), s2))
    return out


def w_waitpid(self, st, inst, args):
    out = []
    for s in running(st):
        if args[0] == ("i", -1) or args[0] == ("s", ("T", "pid", s)):
            s2 = st.copy()
            self.ev(s2, "reaped", s)
            ob = self.obj_of(args[1])
            if ob:
                s2.mem[ob] = ("s", ("T", "status", s))
            out.append((("s", ("T", "pid", s)), s2))
    s2 = st.copy()
    self.ev(s2, "waitfail")
    out.append((("i", -1), s2))
    return out


def mk(self, st, p):
    ob = self.obj_of(p)
    return (("M", ob[0], ob[1]), 0) if ob else None


def map_put(self, st, inst, args):
    k, t = mk(self, st, args[0]), self.text(st, args[1])
    if args[0] == H("PRODUCTS"):
        self.ev(st, "own", t, args[2])
    v = list(st.mem.get(k, ("L",))[1:]) if k else []
    for i in range(0, len(v), 2):
        if v[i] == t:
            v[i + 1] = args[2]
            break
    else:
        v += [t, args[2]]
    if k:
        st.mem[k] = ("L",) + tuple(v)
    return [(TOP, st)]


def map_get(self, st, inst, args):
    k, t = mk(self, st, args[0]), self.text(st, args[1])
    v = st.mem.get(k, ("L",))[1:] if k else ()
    for i in range(0, len(v), 2):
        if v[i] == t:
            return [(v[i + 1], st)]
    if args[0] == H("PRODUCTS"):
        r = self.product(st, t)
        if r is not None:
            self.ev(st, "prod", t, r)
            return [(r, st)]
        for e in st.q:
            if e[0] == "prod" and e[1] == t:
                return [(e[2], st)]
        s2 = st.copy()
        p = H(("PROD", t))
        self.ev(st, "prod", t, p)
        self.ev(s2, "prod", t, NULL)
        return [(p, st), (NULL, s2)]
    return [(NULL, st)]


def map_remove(self, st, inst, args):
    k, t = mk(self, st, args[0]), self.text(st, args[1])
    v = list(st.mem.get(k, ("L",))[1:]) if k else []
    for i in range(0, len(v), 2):
        if v[i] == t:
            del v[i:i + 2]
            break
    if k:
        st.mem[k] = ("L",) + tuple(v)
    return [(TOP, st)]


def f_rename(self, st, inst, args):
    s2 = st.copy()
    self.ev(st, "rename", self.text(st, args[0]), self.text(st, args[1]))
    self.ev(s2, "renamefail", self.text(s2, args[0]), self.text(s2, args[1]))
    return [(NULL, st), (("i", 9), s2)]


def f_write(self, st, inst, args):
    t = self.text(st, args[0])
    s2 = st.copy()
    self.ev(st, "wbuf", t)
    self.ev(s2, "wbuffail", t)
    return [(NULL, st), (("i", 5), s2)]


def f_access(self, st, inst, args):
    t = self.text(st, args[0])
    r = self.outcome(st, "access", t) if hasattr(self, "outcome") else None
    if r is not None:
        return [(NULL if r else ("i", -1), st)]
    s2 = st.copy()
    return [(NULL, st), (("i", -1), s2)]


def f_open(self, st, inst, args):
    t, mode = self.text(st, args[0]), self.text(st, args[1])
    n = self.count_up(st, "file")
    p = H("FILE%d" % n)
    r = self.outcome(st, "fopen", t) if hasattr(self, "outcome") else None
    if r is not None:
        self.ev(st, *(("fopen", t, mode, p) if r else ("fopenfail", t, mode)))
        return [(p if r else NULL, st)]
    s2 = st.copy()
    self.ev(st, "fopen", t, mode, p)
    self.ev(s2, "fopenfail", t, mode)
    return [(p, st), (NULL, s2)]


def f_gets(self, st, inst, args):
    f = args[2]
    ob = self.obj_of(f)
    k = (("F", ob[0] if ob else None), 0)
    n = st.mem.get(k, NULL)[1]
    ls = self.lines
    if callable(ls):
        ls = ls([self.string(e[1]) for e in st.q if e[0] == "fopen" and e[3] == f][-1])
    if isinstance(ls, (list, tuple)):
        if n >= len(ls):
            return [(NULL, st)]
        st.mem[k] = ("i", n + 1)
        self.set_text(st, args[0], self.const(ls[n] + "\0"))
        return [(args[0], st)]
    if n >= self.lines:
        return [(NULL, st)]
    s2 = st.copy()
    st.mem[k] = ("i", n + 1)
    ob = self.obj_of(args[0])
    if ob:
        self.clobber_obj(st, ob[0])
        for kk in [x for x in st.mem if x[0][0] == "T" and x[0][1] == ob[0]]:
            del st.mem[kk]
        st.mem[(("T", ob[0], 0), 0)] = T("line", f, n)
    return [(args[0], st), (NULL, s2)]


Scen.lines = 1
Scen.product = lambda self, st, t: None
Scen.pick_open = lambda self, ok, fail, out: out

def on_texts(f):
    def h(self, st, inst, args):
        return f(self, st, inst, [self.text(st, a) if a[0] == "p" and self.string(a) is None else a for a in args])
    return h


MODELS = {k: on_texts(f) for k, f in STRINGS.items()}
MODELS.update({
    "strcmp": m_cmp, "strlen": m_len,
})
from .lib import _strchr, _strrchr
MODELS.update({
    "strchr": m_find_char(_strchr, False), "strrchr": m_find_char(_strrchr, True),
    "free": noop(), "pool_destroy": noop(), "xstr_destroy": noop(), "spawn_destroy": noop(), "map_destroy": noop(),
    "node_info": noop(), "node_warn": noop(), "akinfo": noop(), "akwarn": noop(), "_akerror": noop(NULL), "node_error": noop(),
    "_akverbose": noop(), "printf": noop(NULL), "fprintf": noop(NULL), "fputs": noop(("i", 1)), "fclose": noop(NULL), "fflush": noop(NULL),
    "pool_strdup": m_same(1), "xstrdup": m_same(0), "strdup": m_same(0), "pool_strndup": m_ndup,
    "pool_printf": m_pool_printf, "snprintf": m_snprintf,
    "path_normalize": m_norm(None, 1), "path_normalize_cwd": m_norm(1, 2), "path_normalize_pool": m_norm(None, None),
    "path_normalize_cwd_pool": m_norm(1, None),
    "path_relativize": m_rel(0), "path_relativize_cwd": m_rel(0), "path_basename": m_un("base"), "path_dirname": m_un("dirn"),
    "path_real": m_norm(None, 1), "path_real_pool": m_norm(None, None),
    "path_is_exist": m_bool("exist"), "path_is_dir": m_bool("dir"), "path_is_file": m_bool("file"), "path_is_absolute": m_bool("abs"),
    "path_is_prefix_for": m_prefix, "path_mkdirs": noop(NULL), "path_mkdirs_for": noop(NULL),
    "utils_strncpy": m_copy_text(0, 1), "utils_strnncpy": m_copy_n,
    "llvm.memcpy.p0.p0.i64": m_memcpy, "llvm.memmove.p0.p0.i64": m_memcpy,
    "ulist_init": l_init, "ulist_create": l_create, "ulist_destroy_keep": l_clear, "ulist_clear": l_clear, "ulist_reset": l_clear,
    "ulist_push": l_push, "ulist_unshift": l_unshift, "ulist_get": l_get, "ulist_peek": l_peek, "ulist_remove": l_remove,
    "ulist_pop": l_pop(-1), "ulist_shift": l_pop(0), "ulist_set": l_set, "ulist_insert": l_insert, "ulist_to_vlist": l_to_vlist,
    "ulist_destroy": noop(),
    "is_vlist": v_is, "vlist_iter_init": v_init, "vlist_iter_next": v_next,
    "xstr_create": x_create, "xstr_create_empty": x_create, "xstr_cat": x_add(lambda s, st, a: s.const("") if a[1] == NULL else s.text(st, a[1])), "xstr_cat2": x_add(_xcat2),
    "xstr_printf": x_add(lambda s, st, a: s.fmt(st, a[1], a[2:])), "xstr_ptr": x_ptr, "xstr_size": x_size, "xstr_clear": x_clear,
    "xstr_destroy_keep_ptr": x_ptr, "utils_split_values_add": m_split, "__errno_location": lambda self, st, inst, args: None,
    "utils_file_write_buf": f_write,
    "deps_open": d_open, "deps_cur_next": d_next, "deps_cur_is_outdated": d_outdated, "deps_add": d_add, "deps_close": d_close,
    "deps_add_alias": d_add2(97, False), "deps_add_env": d_add2(101, True), "deps_add_sys_env": d_add2(115, True),
    "spawn_create": s_create, "spawn_arg_add": s_arg, "spawn_set_nowait": s_nowait, "spawn_do": s_do, "spawn_exit_code": s_code,
    "spawn_pid": s_pid, "spawn_user_data": s_user, "spawn_env_path_prepend": noop(), "spawn_env_set": noop(), "spawn_set_stdout_handler": noop(),
    "spawn_set_stderr_handler": noop(), "spawn_set_stdin_provider": noop(), "spawn_set_wstatus": n_event("wstatus"),
    "spawn_arg_starts_with": m_bool("argstart"), "spawn_arg_exists": m_bool("argexist"),
    "node_value": n_value, "node_build": n_phase("build", 0x10), "node_setup": n_phase("setup", 4), "node_init": n_phase("init", 2),
    "node_post_build": n_phase("post_build", 0x20), "node_env_get": e_get, "node_env_set": n_event("setvar", 1),
    "node_product_add": n_event("product", 1), "node_product_add_raw": n_event("product", 1),
    "unit_create": u_create, "chdir": u_chdir, "getcwd": u_getcwd, "setenv": n_event("setenv"), "unsetenv": n_event("unsetenv"),
    "wait": w_wait, "waitpid": w_waitpid, "map_get": map_get, "map_put": map_put, "map_put_str": map_put, "map_put_str_no_copy": map_put,
    "map_remove": map_remove,
    "unlink": lambda self, st, inst, args: (self.ev(st, "unlink", self.text(st, args[0])), [(NULL, st)])[1],
    "rename": f_rename, "utils_rename_file": f_rename, "access": f_access, "fopen": f_open, "fgets": f_gets,
})
Scen.handlers = MODELS
