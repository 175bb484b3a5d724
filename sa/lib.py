"""Helpers shared by rules."""
from .absint import Engine, State, TOP, NULL, syms
from .ir import Inst, Arg, Const, GVar, CGep, Function
from .build import AnalysisBroken


def S(name):
    return ("s", name)


class Rule(Engine):
    """Engine with a few repo-wide models and convenience hooks.

    handlers: {callee name: function(self, st, inst, args) -> None | [(value, state)] }"""
    handlers = {}

    def __init__(self, ctx, **kw):
        super().__init__(ctx.m, ctx.model)
        self.ctx = ctx
        self.bad = []
        for k, v in kw.items():
            setattr(self, k, v)

    def on_call(self, st, inst, name, args):
        h = self.handlers.get(name)
        if h is None and name[-1:].isdigit() and "." in name and not name.startswith("llvm."):
            f = self.m.functions.get(name)
            if f is not None and f.file and f.file.endswith(".h"):
                h = self.handlers.get(self.model.base(name))
        if h is not None:
            return h(self, st, inst, args)
        return None

    # -- outcome helpers
    def fork_bool(self, st, inst, on_true=None, on_false=None):
        s2 = st.copy()
        out = []
        if on_true is None or on_true(st) is not False:
            out.append((("i", 1), st))
        if on_false is None or on_false(s2) is not False:
            out.append((("i", 0), s2))
        return out

    def fork_rc(self, st, inst, on_ok=None, on_fail=None):
        s2 = st.copy()
        out = []
        if on_ok is None or on_ok(st) is not False:
            out.append((NULL, st))
        if on_fail is None or on_fail(s2) is not False:
            out.append((self.fresh(s2, inst, "fail", ne=frozenset([0])), s2))
        return out

    def cell(self, st, ptrval, off):
        ob = self.obj_of(self.add_off(ptrval, off))
        return st.mem.get(ob)

    def offset(self, sname, member):
        mem = self.m.structs.get(sname)
        if not mem:
            raise AnalysisBroken("struct %s not found" % sname)
        for o, (n, nested) in mem.items():
            if n == member:
                return o
        raise AnalysisBroken("member %s.%s not found" % (sname, member))

    def set_cell(self, st, ptrval, sname, member, v):
        off = self.offset(sname, member)
        ob = self.obj_of(self.add_off(ptrval, off))
        st.mem[ob] = v
        st.fields[ob] = "%s.%s" % (sname, member)

    def get_cell(self, st, ptrval, sname, member):
        return st.mem.get(self.obj_of(self.add_off(ptrval, self.offset(sname, member))))

    def report(self, rule, subject, detail, st=None, inst=None):
        if any(b[0] == rule and b[1] == subject and b[2] == detail for b in self.bad):
            return
        self.bad.append((rule, subject, detail, inst.loc() if inst is not None else "", st.lines() if st is not None else []))


def m_strcmp(self, st, inst, args):
    """strcmp as a two-way outcome, remembered for the pair of operands"""
    a, b = args[0], args[1]
    sa, sb = self.string(a), self.string(b)
    if sa is not None and sb is not None:
        return [(("i", 0 if sa == sb else 1), st)]
    if a == b and a != TOP:
        return [(NULL, st)]
    return None


def ulist_models():
    """lists: only the element count is tracked"""
    def off(self):
        return self.offset("ulist", "num")

    def init(self, st, inst, args):
        ob = self.obj_of(args[0])
        if ob:
            self.set_cell(st, args[0], "ulist", "num", NULL)
        return [(TOP, st)]

    def push(self, st, inst, args):
        if self.obj_of(args[0]):
            self.set_cell(st, args[0], "ulist", "num", self.fresh(st, inst, "num", 1, None))
        return [(TOP, st)]

    return {"ulist_init": init, "ulist_destroy_keep": init, "ulist_reset": init, "ulist_clear": init,
            "ulist_push": push, "ulist_unshift": push}


def roots_of(ctx, names):
    """functions from which the given callees are reached through private helpers only: the points where an
    analysis of the surrounding code has to start (callbacks, public functions)"""
    m, model = ctx.m, ctx.model
    if isinstance(names, str):
        names = {names}
    out, seen = set(), set()
    work = [i.fn for n in names for i in model.direct_calls(n)]
    while work:
        f = work.pop()
        if f.name in seen:
            continue
        seen.add(f.name)
        callers = [i.fn for i in model.direct_calls(f.name)]
        if not model.should_inline(f) or f.name in m.address_taken or not callers:
            out.add(f.name)
        if model.should_inline(f):
            work.extend(callers)
    return sorted(out)


def finish(ctx, e, rule, subject, fn, detail=""):
    """turn the reports of an engine run into obligations"""
    for r in e.bad:
        ctx.ob(r[0], r[1], False, r[2], r[3], r[4])
    if not e.bad:
        ctx.ob(rule, subject, True, detail, fn.loc() if fn is not None else "")


def own_functions(ctx, root):
    """root and the private helpers that are analysed as part of it (direct calls only)"""
    seen, work = set(), [root]
    while work:
        n = work.pop()
        f = ctx.m.functions.get(n)
        if n in seen or f is None or f.decl or (n != root and not ctx.model.should_inline(f)):
            continue
        seen.add(n)
        for i in f.calls():
            if isinstance(i.callee, Function):
                work.append(i.callee.name)
    return seen


def const_text(ctx, name, text):
    """pointer value to a constant text supplied by an analysis scenario"""
    g = GVar.__new__(GVar)
    g.name, g.string, g.const, g._init, g.typ = ".sa." + name, text, True, None, None
    ctx.m.globals[g.name] = g
    return ("p", ("g", g.name), 0)


def const_strings(ctx, fn):
    """constant texts a function refers to, directly or through constant tables"""
    out, seen = set(), set()

    def add(o, d=0):
        if isinstance(o, CGep):
            o = o.base
        if isinstance(o, GVar):
            if o.name in seen or d > 3:
                return
            seen.add(o.name)
            if o.string is not None:
                out.add(o.string)
            elif o._init and o.const:
                for v in ctx.m.init_values(o):
                    add(v, d + 1)
    for i in fn.insts():
        for o in i.ops:
            add(o)
    return out


def callback_ptrs(fn):
    """functions whose address is taken in fn"""
    out = set()
    for i in fn.insts():
        for o in i.ops:
            if isinstance(o, Function):
                out.add(o.name)
    return out


def _m_const(f):
    def h(self, st, inst, args):
        r = f(self, st, inst, args)
        return None if r is None else [(r, st)]
    return h


def _ci(self, st, v):
    lo, hi = self.interval(st, v)
    return lo if lo is not None and lo == hi else None


def _strncmp(self, st, inst, args):
    a, b, n = self.string(args[0]), self.string(args[1]), _ci(self, st, args[2])
    if a is None or b is None or n is None:
        return NULL if args[0] == args[1] and args[0] != TOP else None
    return ("i", 0 if a[:n] == b[:n] else 1)


def _strlen(self, st, inst, args):
    a = self.string(args[0])
    return None if a is None else ("i", len(a))


def _strchr(self, st, inst, args):
    a, c = self.string(args[0]), _ci(self, st, args[1])
    if a is None or c is None:
        return None
    k = (a + "\0").find(chr(c & 255))
    return NULL if k < 0 else self.add_off(args[0], k)


def _strrchr(self, st, inst, args):
    a, c = self.string(args[0]), _ci(self, st, args[1])
    if a is None or c is None:
        return None
    k = (a + "\0").rfind(chr(c & 255))
    return NULL if k < 0 else self.add_off(args[0], k)


def _strstr(self, st, inst, args):
    a, b = self.string(args[0]), self.string(args[1])
    if b == "":
        return args[0]
    if a is None or b is None:
        return None
    k = a.find(b)
    return NULL if k < 0 else self.add_off(args[0], k)


def _startswith(self, st, inst, args):
    a, b = self.string(args[0]), self.string(args[1])
    return None if a is None or b is None else ("i", int(a.startswith(b)))


def _endswith(self, st, inst, args):
    a, b = self.string(args[0]), self.string(args[1])
    return None if a is None or b is None else ("i", int(a.endswith(b)))


# text functions decided on constant operands
STRINGS = {"strcmp": m_strcmp, "strncmp": _m_const(_strncmp), "strlen": _m_const(_strlen), "strchr": _m_const(_strchr),
           "strrchr": _m_const(_strrchr), "strstr": _m_const(_strstr), "utils_startswith": _m_const(_startswith),
           "utils_endswith": _m_const(_endswith)}
