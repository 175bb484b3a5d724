"""P14: macro calls.  Abstract scripts that define and call macros are played through the real initialisation: argument tables filled to every
boundary, every form of argument index, and macros that call themselves directly or in circles."""
from sa.phases import *
from sa.scen import N, V, T
from sa.par import results
from sa.absint import Limit

TECHNIQUE = "abstract interpretation of LLVM IR over abstract syntax trees with macro definitions and calls: expansion compared with the documented substitution, bounds and recursion limit"
LEVEL_NOTE = ("calls with 0 to 130 arguments around every size constant of the code, argument indexes from -1 past the table and non-numbers, counted and explicit indexes mixed, placeholders nested in other rules; "
              "recursion of cycle length 1 to 3, through nested rules and several call sites; sequences of more calls than the recursion limit. Only plain words as arguments.")


class Macro(Tree):
    max_depth = 4000
    rec_limit = 1000
    max_steps = 2000000

    def __init__(self, ctx):
        super().__init__(ctx)
        self.inl = self.inl | {f for f in ctx.m.functions if f.startswith("node_") and f.endswith("_setup") and f != "node_setup"} | {
            "node_clone_and_register", "call_first_node", "call_macro_node", "macro_register_call", "macro_unregister_call", "node_visit",
            "unit_env_get_node", "unit_env_set_node", "utils_strtol"}
        self.handlers = {k: v for k, v in self.handlers.items() if k not in self.inl}

    def default_call(self, st, i, name, args):
        if self.model.base(name) in ("strtol", "strtoll") and "strtol" not in self.inl:
            return strto(self, st, i, args)
        return super().default_call(st, i, name, args)

    def start(self, root):
        st = self.state()
        self.plant(st, root)
        lp = ("p", H("SCTX")[1], self.offset("sctx", "nodes"))
        self.set_cell(st, lp, "ulist", "usize", ("i", 8))
        self.lset(st, lp, [])
        for n in root.walk():
            tmp = H("TMPN")
            st.mem[(tmp[1], 0)] = n.ptr
            self.lset(st, lp, self.lget(st, lp) + [self.new_elem(st, lp, tmp)])
        for k in [k for k in st.mem if k[0] == H("TMPN")[1]]:
            del st.mem[k]
        for u in sorted({n.unit for n in root.walk() if n.unit} | {"U0"}):
            self.set_cell(st, H(u), "unit", "env", H("ENV" + u))
        return st

    def bind(self, sts, root):
        for n in root.walk():
            if n.kind != "script" and "init" not in n.cells:
                sts = self.chain(sts, "node_bind", [n.ptr])
        return sts


def strto(self, st, i, args):
    s = self.raw(self.text(st, args[0])) if args else None
    if s is None:
        return None
    m = re.match(r"\s*[-+]?\d+", s)
    n = len(m.group(0)) if m else 0
    v = int(m.group(0)) if m else 0
    if len(args) > 1 and args[1] != NULL:
        base = args[0]
        self.write(st, args[1], (base[0], base[1], base[2] + n) if base[0] == "p" and isinstance(base[2], int) else TOP, None)
    big = not -2 ** 63 <= v < 2 ** 63
    ek = (("errno",), 0)
    if big:
        st.mem[ek] = ("i", 34)
        v = 2 ** 63 - 1 if v > 0 else -2 ** 63
    return [(("i", v), st)]


def shape(e, st, p, depth=0):
    """(type, text, children) of the nodes below p"""
    out, seen = [], set()
    c = e.get_cell(st, p, "node", "child")
    while c is not None and c != NULL and depth < 8:
        if c in seen or c[0] != "p" or len(out) > 400:
            return [("broken",)]
        seen.add(c)
        v = e.get_cell(st, c, "node", "value")
        t = e.get_cell(st, c, "node", "type")
        out.append((t, e.raw(e.text(st, v)) if v is not None and v != NULL else None, shape(e, st, c, depth + 1)))
        c = e.get_cell(st, c, "node", "next")
    return out


def short(x):
    if isinstance(x, list):
        s = " ".join(map(short, x))
        return s if len(s) < 90 else s[:60] + " ... " + s[-25:]
    return x[1] + (" {%s}" % short(x[2]) if x[2] else "") if len(x) == 3 and x[1] is not None else "?"


def arg(i=None):
    return N("&", "&", *([V(str(i))] if i is not None else []))


def expand(body, args):
    """texts the body expands to; None when the call has to stop, "any" when it may do either"""
    out = []
    k = 0
    anyhow = False
    for it in body:
        if isinstance(it, str):
            out.append(it)
            continue
        if it[0] == "&":
            if it[1] is None:
                k += 1
                i = k
            else:
                try:
                    i = int(str(it[1]), 10)
                except ValueError:
                    return None
                k = i
            if i < 1 or i > len(args):
                return None
            anyhow = anyhow or i > 63
            out.append(args[i - 1])
    return ("any", out) if anyhow or len(args) > 64 else out


def case_args(ctx, body, args, nest):
    """play one call; the problems found"""
    e = Macro(ctx)
    mk = [V(x) if isinstance(x, str) else arg(x[1]) for x in body]
    inner = N("echo", "echo", *mk)
    inner = N("echo", "echo", V("x"), inner) if nest else inner
    call = N("call", "call", V("M"), *[V(a) for a in args])
    root = N("script", "Autark", N("macro", "macro", V("M"), inner), call, unit="U0")
    st = e.start(root)
    fin = e.chain(e.bind([st], root), "node_init", [root.ptr])
    exp = expand(body, args)
    bad = []
    if isinstance(exp, tuple):
        may_stop, want = True, exp[1]
    else:
        may_stop, want = exp is None, exp
    for s in fin:
        if want is None:
            bad.append(("goes on although an argument is unset or out of range", s))
            continue
        got = shape(e, s, root.ptr)
        tt = e.get_cell(s, inner.ptr, "node", "type")
        w = [(("i", 1), x, []) for x in want]
        w = [(tt, "echo", ([(("i", 1), "x", [])] + [(tt, "echo", w)]) if nest else w)]
        if got != w:
            bad.append(("expands to: %s; expected: %s" % (short(got), short(w)), s))
    if e.stops and not may_stop:
        s, name, a, inst = e.stops[0]
        bad.append(("is stopped (%s at %s) although all arguments are set" % (name, inst.loc()), s))
    if not fin and not e.stops:
        bad.append(("neither expands nor stops with an error", None))
    return bad, len(fin) + len(e.stops)


def bounds():
    big = ["a%d" % i for i in range(1, 131)]
    for k in (0, 1, 2, 3, 62, 63, 64, 65, 66, 130):
        yield "%d arguments, no placeholder" % k, ["w"], big[:k], False
        for i in sorted({-1, 0, 1, k, k + 1, 62, 63, 64, 65, 66, 67, 128}):
            yield "%d arguments, &{%d}" % (k, i), ["p", ("&", i), "q"], big[:k], i % 2
    for i in ("x", "", "99999999999", "4294967297", "18446744073709551617", "-4294967295", "1x", "0x1"):
        yield "2 arguments, &{%s}" % i, [("&", i)], big[:2], False
    for k, n in ((2, 1), (2, 2), (2, 3), (0, 1), (63, 63), (63, 64), (64, 63), (64, 65), (64, 64), (64, 70)):
        yield "%d arguments, %d times &" % (k, n), [("&", None)] * n, big[:k], k == 2
    yield "2 arguments, &{2} & ", [("&", 2), ("&", None)], big[:2], False
    yield "3 arguments, & &{1} & &", [("&", None), ("&", 1), ("&", None), ("&", None)], big[:3], False
    yield "3 arguments, &{2} & &", [("&", 2), ("&", None), ("&", None)], big[:3], True
    yield "63 arguments, &{63} &", [("&", 63), ("&", None)], big[:63], False
    yield "64 arguments, &{63} & & &", [("&", 63), ("&", None), ("&", None), ("&", None)], big[:64], False


def limit(ctx):
    """the configured recursion limit"""
    for f in ("config.h.in", "config.h"):
        p = os.path.join(ctx.repo, f)
        if os.path.exists(p):
            m = re.search(r"MACRO_MAX_RECURSIVE_CALLS\s+(\d+)", open(p).read())
            if m:
                return int(m.group(1))
    return 128


def call(name, *a):
    return N("call", "call", V(name), *[V(x) for x in a])


def macro(name, *body):
    return N("macro", "macro", V(name), *body)


def cycles():
    yield "M calls M", [macro("M", call("M")), call("M")], (1, 1)
    yield "M calls M after other rules", [macro("M", N("echo", "echo", V("x")), call("M")), call("M")], (1, 1)
    yield "M calls M before other rules", [macro("M", call("M"), N("echo", "echo", V("x"))), N("echo", "echo", V("y")), call("M"), N("echo", "echo", V("z"))], (1, 1)
    yield "M calls M twice", [macro("M", call("M"), call("M")), call("M")], (1, 1)
    yield "M passes its argument on to M", [macro("M", N("call", "call", V("M"), arg(1))), call("M", "a")], (1, 1)
    yield "M calls M inside another rule", [macro("M", N("in-sources", "in-sources", call("M"))), call("M")], (1, 2)
    yield "M calls N, N calls M", [macro("M", call("N")), macro("N", call("M")), call("M")], (2, 1)
    yield "M calls N, N calls O, O calls M", [macro("M", call("N")), macro("N", call("O")), macro("O", call("M")), call("O")], (3, 1)
    yield "M calls N twice, N calls M", [macro("M", call("N"), call("N")), macro("N", N("echo", "echo", V("x")), call("M")), call("M")], (2, 1)
    yield "M calls the macro it is given", [macro("M", N("call", "call", arg(1), arg(1))), call("M", "M")], (1, 1)


def start(ctx, items, rec=None):
    e = Macro(ctx)
    if rec:
        e.rec_limit = rec
    root = N("script", "Autark", *items, unit="U0")
    for x in root.walk():
        if x.kind == "echo":
            e.act(x, "init")
    st = e.start(root)
    return e, e.chain(e.bind([st], root), "node_init", [root.ptr])


def registered(e, st):
    return len(e.lget(st, ("p", H("SCTX")[1], e.offset("sctx", "nodes"))))


def one(ctx, item):
    """(rule, subject, ok, detail, location, path)"""
    try:
        return one_(ctx, *item)
    except Limit:
        # everything is constant here: the expansion runs in circles
        return (item[0], item[1][0], False, "the expansion of the call does not end", "", [])


def one_(ctx, kind, x, lim):
    if kind == "arguments":
        label, body, args, nest = x
        bad, k = case_args(ctx, body, args, nest)
        if bad:
            return (kind, label, False, "the call " + bad[0][0], "", bad[0][1].lines() if bad[0][1] is not None else [])
        return (kind, label, True, "%d paths" % k, "", [])
    if kind == "recursion":
        label, items, (cyc, deep) = x
        e, fin = start(ctx, items, (lim + 4) * cyc * deep + 8)
        n0 = sum(1 for i in items for _ in i.walk()) + 1
        if fin or not e.stops:
            return (kind, label, False, "the macro calls end without an error" if fin else "no end is found", "", fin[0].lines() if fin else [])
        for s, name, a, inst in e.stops:
            k = registered(e, s) - n0
            if name == "endless":
                return (kind, label, False, "the recursion goes on after %d nodes were made" % k, inst.loc(), s.lines())
            if k < (lim - 3) * cyc:
                return (kind, label, False, "the call is stopped after only %d nodes were made; the limit is %d nested calls" % (k, lim), inst.loc(), s.lines())
        return (kind, label, True, "stopped by %s" % e.stops[0][1], e.stops[0][3].loc(), [])
    label, items = x
    e, fin = start(ctx, items)
    if fin and not e.stops:
        return (kind, label, True, "%d paths" % len(fin), "", [])
    return (kind, label, False, "stopped by %s" % (e.stops[0][1] if e.stops else "nothing"), e.stops[0][3].loc() if e.stops else "", e.stops[0][0].lines() if e.stops else [])


def straight(lim):
    x = lambda: N("echo", "echo", V("x"))
    yield "one macro called %d times in a row" % (lim + 3), [macro("M", x())] + [call("M") for _ in range(lim + 3)]
    yield "chain of ten macros, called three times", [macro("M%d" % i, *([call("M%d" % (i + 1))] if i < 9 else [x()])) for i in range(10)] + [call("M0") for _ in range(3)]
    yield "a macro called inside another one, %d times" % (lim + 3), [macro("I", x()), macro("M", call("I"))] + [call("M") for _ in range(lim + 3)]


def run(ctx):
    ctx.rule("arguments", "a placeholder is replaced by the argument of that number; an unset or out-of-range argument, or more arguments than the table holds, stops with an error")
    ctx.rule("recursion", "a macro that calls itself directly or indirectly is stopped with an error, at the configured limit")
    ctx.rule("count", "calls that do not nest are not limited")
    lim = limit(ctx)
    slow = ("M calls N twice, N calls M", "M calls N, N calls O, O calls M")
    items = [("recursion", x, lim) for x in cycles() if ctx.tier == "thorough" or x[0] not in slow] + [("count", x, lim) for x in straight(lim)] + [("arguments", x, lim) for x in bounds()]
    n = 0
    for r in results(lambda x: one(ctx, x), items):
        ctx.ob(r[0], r[1], r[2], r[3], loc=r[4], path=r[5])
        n += 1
    ctx.require(n, 120, "macro calls")
