"""Variables: abstract scripts played through the real definition, lookup and evaluation code.  Unit tables, process environment and
expressions are concrete; a leaf expression is a stand-in whose every evaluation is an event and yields a new text."""
from .phases import *
from .scen import N, V, T, bag, m_split, xk


class Vars(Tree):
    max_depth = 4000
    rec_limit = 60
    max_steps = 3000000
    INL = {"node_env_get", "node_env_set", "node_env_set_node", "unit_env_set_val", "unit_env_set_node", "unit_env_get_node", "unit_env_get_raw",
           "unit_env_get", "unit_env_remove", "unit_parent", "unit_root", "unit_peek", "node_find_parent_foreach", "node_find_parent_of_type",
           "node_is_can_be_value"}

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.inl = self.inl | Vars.INL | {f for f in ctx.m.functions if f.startswith("node_") and f.endswith("_setup") and f != "node_setup"}
        self.handlers = {k: v for k, v in self.handlers.items() if k not in self.inl}
        for f in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "strcpy"):
            self.handlers[f] = copy
        self.handlers["utils_split_values_add"] = split
        self.handlers["getenv"] = g_env
        self.handlers["setenv"] = s_env
        self.handlers["unsetenv"] = u_env
        self.os = {}

    def leaf(self, tag, null=False):
        """a stand-in expression; every evaluation is an event"""
        n = N("$", "${", V(tag))
        n.tag = tag
        n.null = null
        n.cells["value_get"] = ("fn", "sa.val.%d" % id(n))
        n.cells["flags"] = ("i", 0x100)
        n.standin = True
        self.byid["%d" % id(n)] = n
        return n

    def on_call(self, st, inst, name, args):
        if name.startswith("sa.val."):
            n = self.byid[name.split(".")[2]]
            if n.null:
                self.ev(st, "eval", n.tag, NULL)
                return [(NULL, st)]
            k = self.count_up(st, "eval:" + n.tag)
            v = self.const("%s#%d" % (n.tag, k))
            self.ev(st, "eval", n.tag, v)
            return [(v, st)]
        return super().on_call(st, inst, name, args)

    def start(self, root, stack=("U0",)):
        st = self.state()
        self.plant(st, root)
        lp = ("p", H("SCTX")[1], self.offset("sctx", "nodes"))
        self.set_cell(st, lp, "ulist", "usize", ("i", 8))
        self.lset(st, lp, [])
        for u in sorted({n.unit for n in root.walk() if n.unit} | {"U0"}):
            self.set_cell(st, H(u), "unit", "env", H("ENV" + u))
        for k, v in self.os.items():
            st.mem[(("V", "env"), k)] = self.const(v)
        return st

    GHOST = Tree.GHOST + ("V",)

    def bind(self, sts, root, skip=()):
        for n in root.walk():
            if n.kind not in ("script", "value", "bag", "include") and not getattr(n, "standin", False) and "init" not in n.cells:
                sts = self.chain(sts, "node_bind", [n.ptr])
        return sts

    def shown(self, st, v):
        t = self.text(st, v) if v is not None else None
        if t is None or t == NULL:
            return None
        r = self.raw(t)
        if r is not None:
            return r
        it = self.items(t)
        if it is not None:
            return "".join("\1" + (self.raw(x) if self.raw(x) is not None else "?") for x in it)
        if self.is_text(t) and t[1][1] == "cat":
            return "".join(x if isinstance(x, str) else (self.shown(st, x) or "?") for x in t[1][2:])
        return "?%s" % (t,)

    def evaluate(self, sts, node):
        """[(state, text or None)]"""
        out = []
        for s in sts:
            for s2, v in self.call_fn(s, "node_value", [node.ptr]):
                out.append((s2, self.shown(s2, v)))
        return out


def copy(self, st, inst, args):
    t = self.text(st, args[1])
    if self.is_text(t) or self.string(t) is not None and (args[1][1][0] == "h" or args[1][1][0] == "g"):
        self.set_text(st, args[0], t)
        return [(args[0], st)]
    return None


def split(self, st, inst, args):
    """constant texts without quotes are split into words, lists are taken as they are"""
    r = self.raw(self.text(st, args[0]))
    k = xk(self, st, args[1])
    if r is None or k is None or any(c in r for c in "'\"\\"):
        return m_split(self, st, inst, args)
    r = r if r.startswith("\1") else "".join("\1" + w for w in r.split())
    if r:
        st.mem[k] = self.cat(st.mem.get(k, self.const("")), r)
    return [(TOP, st)]


def g_env(self, st, inst, args):
    k = self.raw(self.text(st, args[0]))
    if k is None:
        return [(self.fresh(st, inst, "env"), st)]
    return [(st.mem.get((("V", "env"), k), NULL), st)]


def s_env(self, st, inst, args):
    k = self.raw(self.text(st, args[0]))
    if args[2] == NULL and (("V", "env"), k) in st.mem:
        return [(NULL, st)]
    self.ev(st, "setenv", k, self.text(st, args[1]))
    if k is not None:
        st.mem[(("V", "env"), k)] = self.text(st, args[1])
    return [(NULL, st)]


def u_env(self, st, inst, args):
    k = self.raw(self.text(st, args[0]))
    st.mem.pop((("V", "env"), k), None)
    return [(NULL, st)]


def key(how, name="X"):
    """name part of a definition"""
    return V(name) if how == "here" else bag(how, V(name))


def ref(name, *default):
    return N("$", "${", V(name), *default)


def script(unit, *children):
    return N("script", "script", *children, unit=unit)


def nested(*levels):
    """levels: list of children lists, outermost first; every script includes the next one at the place of None (or at the end)"""
    inner = None
    for k in range(len(levels) - 1, -1, -1):
        ch = [c for c in levels[k]]
        if inner is not None:
            inc = N("script", "script", *inner.children, unit=inner.unit)
            if None in ch:
                ch[ch.index(None)] = inc
            else:
                ch.append(inc)
        ch = [c for c in ch if c is not None]
        inner = script("U%d" % k, *ch)
    return inner
