"""P13: conditions.  Trees with if/else whose conditions range over the documented forms are played through the real initialisation; the
children that remain, and the rules that run in later phases, are compared with the documented truth of the condition."""
import itertools
from sa.phases import *
from sa.scen import N, V, bag, T
from sa.par import results
from sa.absint import Limit
from .p14 import Macro, shape, arg

TECHNIQUE = "abstract interpretation of LLVM IR over abstract syntax trees: truth tables of the conditions against the documented semantics, shape of the tree afterwards"
LEVEL_NOTE = ("every documented condition with and without negation; expression values: absent, empty, \"0\", \"1\", words, lists of zero, one and more elements; eq/prefix/contains over all "
              "pairs of a set of texts; and/or with up to three operands in all combinations of truth, negation and form, nested to depth three; if in first, middle and last position, with "
              "empty, single and multiple parts, with and without else, nested in then and else parts, in a row, in foreach bodies and copies made for macro calls. Words as operands of and/or "
              "(not documented) and comparisons of two undefined values are not judged.")


class C:
    """condition: form, operands, negation"""
    def __init__(self, form, *ops, neg=False):
        self.form, self.ops, self.neg = form, list(ops), neg

    def __repr__(self):
        s = "!" if self.neg else ""
        if self.form == "expr":
            return s + "${%s}" % show(self.ops[0])
        return s + "%s{%s}" % (self.form, " ".join(map(repr, self.ops)))

    def truth(self, defined):
        r = self.plain(defined)
        return None if r is None else r != self.neg

    def plain(self, defined):
        f = self.form
        if f == "expr":
            v = self.ops[0]
            if isinstance(v, list):
                return len(v) > 1 or (len(v) == 1 and v[0] not in ("", "0"))
            return v not in (None, "", "0")
        if f == "defined":
            return any(x in defined for x in self.ops)
        if f in ("and", "or"):
            ts = [o.truth(defined) for o in self.ops]
            if not ts:
                return None
            if f == "and":
                return False if False in ts else None if None in ts else True
            return True if True in ts else None if None in ts else False
        a, b = self.ops
        if a is None and b is None:
            return None
        if a is None or b is None:
            return None if "" in (a, b) else False
        return {"eq": a == b, "prefix": a.startswith(b), "contains": b in a}[f]

    def node(self, e, vals):
        k = ("!" if self.neg else "")
        f = self.form
        if f == "expr":
            w = k + "$"
            n = N(w, w, V("X"))
            vals.append((n, self.ops[0]))
            return n
        w = k + f
        if f == "defined":
            return N(w, w, *[V(x) for x in self.ops])
        if f in ("and", "or"):
            return N(w, w, *[o.node(e, vals) for o in self.ops])
        ch = []
        for x in self.ops:
            n = N("$", "$", V("X"))
            vals.append((n, x))
            ch.append(n)
        return N(w, w, *ch)


def show(v):
    return "nothing" if v is None else repr(v)


class If(Tree):
    max_steps = 300000
    defined = ()

    def outcome(self, st, kind, t):
        if kind == "var":
            return self.string(t) in self.defined
        return None

    def on_call(self, st, inst, name, args):
        if name.startswith("sa.val."):
            return [(self.vals[int(name[7:])], st)]
        return super().on_call(st, inst, name, args)


def conv(e, v):
    if v is None:
        return NULL
    if isinstance(v, list):
        return T("list", *[e.const(x) for x in v])
    return e.const(v)


class Case:
    """a tree: items are leaf names, or ("if", C, [then], [else] or None), or (container kind, [items])"""
    def __init__(self, label, items, defined=()):
        self.label, self.items, self.defined = label, items, defined


def build(ctx, case, wrap=None):
    e = If(ctx)
    e.inl = e.inl | {f for f in ctx.m.functions if f.startswith("node_") and f.endswith("_setup") and f != "node_setup"}
    e.defined = case.defined
    e.vals = {}
    leaves, ifs, vals = {}, [], []

    def mk(items):
        out = []
        for it in items:
            if isinstance(it, str):
                n = N("echo", "echo", V(it))
                leaves[it] = n
                out.append(n)
            elif it[0] == "if":
                n = N("if", "if", it[1].node(e, vals), *mk(it[2]))
                ifs.append(n)
                out.append(n)
                if it[3] is not None:
                    out.append(N("else", "else", *mk(it[3])))
            else:
                out.append(N(it[0], it[0], *mk(it[1])))
                if it[0] == "foreach":
                    e.act(out[-1], "init", "setup")
                elif it[0] == "in-sources":
                    e.act(out[-1], "init")
        return out
    root = N("script", "Autark", *mk(case.items), unit="U0")
    for k, (n, v) in enumerate(vals):
        n.cells["value_get"] = ("fn", "sa.val.%d" % k)
        e.vals[k] = conv(e, v)
    for n in leaves.values():
        e.act(n, "init", "setup", "build", "post_build")
    return e, root, leaves, ifs


def expected(items, defined):
    """leaf names that remain, in order; None if a condition is not determined"""
    out = []
    for it in items:
        if isinstance(it, str):
            out.append(it)
        elif it[0] == "if":
            t = it[1].truth(defined)
            if t is None:
                return None
            r = expected(it[2] if t else it[3] or [], defined)
            if r is None:
                return None
            out += r
        else:
            r = expected(it[1], defined)
            if r is None:
                return None
            out += r
    return out


def remaining(e, st, p, names, depth=0):
    """leaf names below a node in the final tree"""
    out, seen = [], set()
    c = e.get_cell(st, p, "node", "child")
    while c is not None and c != NULL and depth < 8:
        if c in seen or c[0] != "p":
            return None
        seen.add(c)
        if c in names:
            out.append(names[c])
        else:
            r = remaining(e, st, c, names, depth + 1)
            if r is None:
                return None
            out += r
        c = e.get_cell(st, c, "node", "next")
    return out


def judge(ctx, case):
    """problems: (rule, text, state)"""
    exp = expected(case.items, case.defined)
    e, root, leaves, ifs = build(ctx, case)
    st = e.state()
    e.plant(st, root)
    sts = [st]
    for n in ifs:
        sts = e.chain(sts, "node_bind", [n.ptr])
    fin = e.chain(sts, "script_build", [H("SCTX")])
    if exp is None:
        return [], len(fin)
    out = []
    names = {n.ptr: k for k, n in leaves.items()}
    for s, name, args, inst in e.stops:
        out.append(("kept", "the build stops (%s)" % name, s))
    for s in fin:
        rem = remaining(e, s, root.ptr, names)
        if rem != exp:
            out.append(("kept", "the rules %s remain in the tree instead of %s" % (rem, exp), s))
        for k, n in leaves.items():
            for ph in PHASES:
                c = sum(1 for x in s.q if x[:3] == ("cb", ph, n.ptr))
                if c and k not in exp:
                    out.append(("removed", "%s of rule %s runs although the condition removes it" % (ph, k), s))
                elif c == 0 and k in exp:
                    out.append(("kept", "%s of rule %s does not run although the condition keeps it" % (ph, k), s))
                elif c > 1:
                    out.append(("kept", "%s of rule %s runs %d times" % (ph, k, c), s))
    if not fin and not e.stops:
        out.append(("kept", "the build does not end", None))
    return out, len(fin)


VALUES = [None, "", "0", "1", "a", "00", "0a", "false", [], [""], ["0"], ["a"], ["00"], ["", ""], ["0", "0"], ["a", ""], ["0", "b"], ["", "", ""]]
TEXTS = [None, "", "a", "ab", "b", "bab", "abc"]


def tables(full):
    """(rule, case)"""
    def one(rule, c, defined=()):
        return (rule, Case("if{%r}" % c, [("if", c, ["then"], ["else"])], defined))
    for neg in (False, True):
        for v in VALUES:
            yield one("expr", C("expr", v, neg=neg))
        for n in (1, 2, 3):
            ns = ["A", "B", "D"][:n]
            for k in range(2 ** n):
                d = tuple(x for i, x in enumerate(ns) if k >> i & 1)
                r, c = one("defined", C("defined", *ns, neg=neg), d)
                c.label += " with %s defined" % (",".join(d) or "none")
                yield r, c
        for op in ("eq", "prefix", "contains"):
            for a in TEXTS:
                for b in TEXTS:
                    yield one(op, C(op, a, b, neg=neg))
    tt, ff = C("expr", "1"), C("expr", "0")
    nt, nf = C("expr", "0", neg=True), C("expr", "x", neg=True)
    deft, deff = C("defined", "A"), C("defined", "Z")
    eqt, eqf = C("eq", "a", "a"), C("eq", "a", "b", neg=False)
    for op in ("and", "or"):
        for neg in (False, True):
            for n in (1, 2, 3):
                for combo in itertools.product((tt, ff, nt, nf) if n < 3 or full else (tt, ff), repeat=n):
                    yield one(op, C(op, *combo, neg=neg))
            for combo in itertools.product((deft, deff, eqt, eqf), repeat=2):
                yield one(op, C(op, *combo, neg=neg), ("A",))
            for inner in ("and", "or"):
                for ineg in (False, True):
                    for a, b, c in itertools.product((tt, ff), repeat=3):
                        yield one("nested", C(op, C(inner, a, b, neg=ineg), c, neg=neg))
                        yield one("nested", C(op, c, C(inner, a, b, neg=ineg), neg=neg))
    for a in (tt, ff):
        for n1, n2, n3 in itertools.product((False, True), repeat=3):
            yield one("nested", C("and", C("or", C("and", a, neg=n1), ff, neg=n2), tt, neg=n3))


def shapes():
    t, f = C("expr", "1"), C("expr", "0")
    for c, cn in ((t, "true"), (f, "false")):
        for pre, post in itertools.product(([], ["p"], ["p", "q"]), ([], ["r"], ["r", "s"])):
            for then in ([], ["a"], ["a", "b"]):
                for els in (None, [], ["c"], ["c", "d"]):
                    yield Case("%s condition, then %d, else %s, %d before, %d after" % (cn, len(then), "none" if els is None else len(els), len(pre), len(post)),
                               pre + [("if", c, then, els)] + post)
    for c1, c2, c3 in itertools.product((t, f), repeat=3):
        k = "".join("tf"[x is f] for x in (c1, c2, c3))
        yield Case("three in a row, " + k, [("if", c1, ["a"], ["b"]), ("if", c2, ["c"], None), ("if", c3, ["d"], ["e"])])
        yield Case("three in a row with rules between, " + k, ["p", ("if", c1, ["a"], None), "q", ("if", c2, ["c"], ["x"]), ("if", c3, [], ["e", "g"]), "r"])
        yield Case("nested in then, " + k, [("if", c1, ["p", ("if", c2, ["a"], ["b"]), "q"], ["c", ("if", c3, ["d"], ["e"])]), "r"])
        yield Case("nested alone, " + k, [("if", c1, [("if", c2, [("if", c3, ["a"], ["b"])], ["c"])], ["d"])])
        yield Case("nested first in else, " + k, ["p", ("if", c1, ["x"], [("if", c2, ["a"], None), ("if", c3, ["b"], ["c"])])])
        yield Case("in a foreach, " + k, ["p", ("foreach", [("if", c1, ["a"], ["b"]), "m", ("if", c2, [("if", c3, ["c"], None)], ["d"])]), "q"])
        yield Case("in in-sources, " + k, [("in-sources", [("if", c1, ["a", ("if", c2, ["c"], ["e"])], ["b"])]), ("if", c3, ["d"], None)])


TEXT = {"expr": "an expression is true exactly when it is a non-empty text other than 0, a list of one such element, or a list of several elements",
        "defined": "'defined' is true exactly when any of its variables is defined", "eq": "'eq' compares both operands for equality",
        "prefix": "'prefix' is true exactly when the second operand is a prefix of the first", "contains": "'contains' is true exactly when the second operand occurs in the first",
        "and": "'and' is true exactly when all operands are true", "or": "'or' is true exactly when any operand is true", "nested": "conditions nest",
        "shape": "the then or the else part takes the place of the rule, all other rules stay where they are, and only kept rules run",
        "macro": "conditions in macro bodies have the same truth as outside, for every call"}


class IfMacro(Macro):
    max_steps = 300000
    """macros with conditions: variables have the given values"""
    vars = {}

    def __init__(self, ctx):
        super().__init__(ctx)
        self.handlers = dict(self.handlers)
        self.handlers["node_env_get"] = IfMacro.var
        self.handlers["node_info"] = IfMacro.nothing

    def var(self, st, inst, args):
        k = self.raw(self.text(st, args[1]))
        v = self.vars.get(k)
        return [(NULL if v is None else self.const(v), st)]

    def nothing(self, st, inst, args):
        return [(TOP, st)]


def in_macros():
    """(condition node maker, truth, call arguments)"""
    X = lambda k: lambda: N(k, k, V("X"))
    two = lambda k, a, b: lambda: N(k, k, *[arg(int(x[1:])) if x.startswith("&") else V(x) for x in (a, b)])
    for neg in ("", "!"):
        f = neg == "!"
        for val in ("1", "0", "", None):
            yield neg + "${X} with X=%s" % val, X(neg + "$"), (val == "1") != f, {"X": val}, []
            yield neg + "defined{X} with X=%s" % val, X(neg + "defined"), (val is not None) != f, {"X": val}, []
        for op, ab, t in (("eq", ("a", "a"), True), ("eq", ("a", "b"), False), ("eq", ("&1", "v"), True), ("eq", ("w", "&1"), False), ("eq", ("&2", "&2"), True), ("prefix", ("abc", "ab"), True),
                          ("prefix", ("abc", "bc"), False), ("prefix", ("vw", "&1"), True), ("contains", ("abc", "bc"), True), ("contains", ("abc", "d"), False), ("contains", ("&2", "&1"), False)):
            yield neg + "%s{%s %s}" % (op, *ab), two(neg + op, *ab), t != f, {}, ["v", "u"]
        for op in ("and", "or"):
            for a, b in itertools.product("10", repeat=2):
                for n2 in ("", "!"):
                    bt = (b == "1") != (n2 == "!")
                    t = (a == "1" and bt) if op == "and" else (a == "1" or bt)
                    yield (neg + "%s{${A} %s${B}} with A=%s B=%s" % (op, n2, a, b),
                           lambda w=neg + op, n2=n2: N(w, w, N("$", "$", V("A")), N(n2 + "$", n2 + "$", V("B"))), t != f, {"A": a, "B": b}, [])


def macro_case(ctx, item, lvl):
    label, mk, truth, vars, args = item
    e = IfMacro(ctx)
    e.vars = vars
    body = [N("if", "if", mk(), N("echo", "echo", V("then"))), N("else", "else", N("echo", "echo", V("else")))]
    items = [N("macro", "macro", V("M"), *body), N("call", "call", V("M"), *[V(a) for a in args])]
    if lvl:
        items = [items[0], N("macro", "macro", V("O"), N("call", "call", V("M"), *[arg(i + 1) for i in range(len(args))])), N("call", "call", V("O"), *[V(a) for a in args])]
    root = N("script", "Autark", *items, unit="U0")
    st = e.start(root)
    fin = e.chain(e.bind([st], root), "node_init", [root.ptr])
    for s, name, a, inst in e.stops:
        return ("the build stops (%s at %s)" % (name, inst.loc()), s.lines(), 0)
    for s in fin:
        got = [x[2][0][1] if len(x) == 3 and x[1] == "echo" and x[2] else "?" for x in shape(e, s, root.ptr)]
        if got != ["then" if truth else "else"]:
            return ("the call leaves %s instead of the %s part" % (got, "then" if truth else "else"), s.lines(), 0)
    return (None if fin else "the call does not end", [], len(fin))


def one(ctx, item):
    """(rule, subject, message or None, path, paths)"""
    kind, x, lvl = item
    try:
        return one_(ctx, kind, x, lvl)
    except Limit:
        # trees are finite and everything is constant: the initialisation runs in circles
        return [(kind, x[0] if kind == "macro" else x.label, "the initialisation does not end", [], 0)]


def one_(ctx, kind, x, lvl):
    if kind == "macro":
        w, path, n = macro_case(ctx, x, lvl)
        return [("macro", x[0] + (", macro called by a macro" if lvl else ""), w, path, n)]
    bad, n = judge(ctx, x)
    out, seen = [], set()
    for k, w, st in bad:
        if w not in seen and len(seen) < 2:
            seen.add(w)
            out.append((kind, x.label, w, st.lines() if st is not None else [], n))
    return out or [(kind, x.label, None, [], n)]


def run(ctx):
    for k, v in TEXT.items():
        ctx.rule(k, v)
    ctx.assume("node_env_get answers whether a variable is defined (P24); the value of an operand is what node_value yields")
    thorough = ctx.tier == "thorough"
    items = [(r, c, 0) for r, c in tables(thorough)] + [("shape", c, 0) for c in shapes()]
    ms = list(in_macros())
    items += [("macro", c, 0) for c in ms] + [("macro", c, 1) for c in (ms if thorough else ms[::3])]
    stat = {}
    for rs in results(lambda x: one(ctx, x), items):
        for rule, subject, w, path, n in rs:
            s = stat.setdefault(rule, [0, 0, 0])
            s[0] += 1
            s[1] += n
            s[2] += w is not None
            if w is not None:
                ctx.ob(rule, subject, False, w, path=path)
    for rule, (n, p, b) in stat.items():
        if not b:
            ctx.ob(rule, "all cases", True, "%d cases, %d paths" % (n, p))
    ctx.count("cases", len(items))
    ctx.require(sum(s[0] for s in stat.values()), 500, "conditions and trees")
