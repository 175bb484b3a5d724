"""P25: values are evaluated as often as documented.  Definitions and expressions over stand-in values are played through the real evaluation code;
every evaluation of a stand-in is an event, and each foreach item must see the values computed for it."""
from sa.vars import *
from sa.par import results
from sa.ruleset import Play, scenarios, play

TECHNIQUE = "abstract interpretation of LLVM IR over abstract syntax trees; evaluation counts and per-item values against a reference evaluator"
LEVEL_NOTE = ("set and let with one, several and spread values, in one to three scripts, used up to four times in every phase; every value expression nested up to three deep in a foreach body, "
              "evaluated for a sequence of items and compared with the value computed for the item alone; commands of a run rule per item.")


# ---- set and let
def case_count(ctx, kind, depth, nvals, spread, uses, phase, null):
    e = Vars(ctx)
    leaves = [e.leaf("L%d" % k, null) for k in range(nvals)]
    args = list(leaves)
    if spread:
        leaves[0].cells["value"] = e.const("..${")
    d = N(kind, kind, V("X"), *args)
    refs = [ref("X") for _ in range(uses)]
    levels = [[d]] + [[] for _ in range(depth - 1)]
    levels[-1] += refs
    root = nested(*levels)
    label = "%s with %d value%s%s%s, used %d times in script %d after %s" % (kind, nvals, "" if nvals == 1 else "s", ", one a list" if spread else "",
                                                                             " that yield nothing" if null else "", uses, depth - 1, phase)
    found = []
    sts = e.chain(e.bind([e.start(root)], root), "node_init", [root.ptr])
    if phase in ("setup", "build"):
        sts = e.chain(sts, "node_setup", [root.ptr])
    if phase == "build":
        sts = e.chain(sts, "node_build", [root.ptr])
    if not sts:
        return label, [(label, "the script is not initialised")], 0
    for s in sts:
        if any(x[0] == "eval" for x in s.q):
            found.append((label, "the value is evaluated before its first use"))
    seen = []
    for k, r in enumerate(refs):
        nxt = []
        for s in sts:
            before = sum(x[0] == "eval" for x in s.q)
            rs = e.evaluate([s], r)
            if not rs:
                found.append((label, "the value cannot be evaluated"))
            for s2, v in rs:
                nxt.append(s2)
                n = sum(x[0] == "eval" for x in s2.q) - before
                want = nvals if kind == "let" or k == 0 else 0
                if n != want:
                    found.append((label, "use %d evaluates %d expressions instead of %d" % (k + 1, n, want)))
                seen.append(v)
        sts = nxt
    if kind == "set" and len(set(seen)) > 1:
        found.append((label, "the uses see different values: %s" % ", ".join(map(str, seen))))
    if kind == "let" and not null and nvals and len(set(seen)) != len(seen):
        found.append((label, "two uses see the same evaluation: %s" % ", ".join(map(str, seen))))
    return label, found, len(refs)


# ---- expressions in foreach
class X:
    """expression: kind and operands"""
    def __init__(self, kind, *ops):
        self.kind, self.ops = kind, ops

    def __str__(self):
        k = self.kind
        if k == "lit":
            return self.ops[0]
        if k == "item":
            return "${item}"
        if k == "item or":
            return "${item %s}" % self.ops[0]
        if k == "var":
            return "${%s%s}" % (self.ops[0], "".join(" %s" % x for x in self.ops[1:]))
        return {"join": "^", "list": "..^", "base": "%", "dir": "C", "src": "SS", "proc": "@", "cache": "@@"}[k] + "{%s}" % " ".join(map(str, self.ops))

    def node(self):
        k, o = self.kind, self.ops
        if k == "lit":
            return V(o[0])
        if k in ("item", "item or"):
            return ref("item", *[x.node() for x in o])
        if k == "var":
            return ref(o[0], *[x.node() for x in o[1:]])
        w = {"join": "^", "list": "..^", "base": "%", "dir": "C", "src": "SS", "proc": "@", "cache": "@@"}[k]
        return N({"..^": "^", "SS": "S"}.get(w, w), w, *[x.node() for x in o])

    def uses_item(self, defs={}):
        return self.kind in ("item", "item or") or self.kind == "var" and defs.get(self.ops[0]) is not None and defs[self.ops[0]].uses_item(defs) or \
            any(x.uses_item(defs) for x in self.ops if isinstance(x, X))

    def has(self, *kinds):
        return self.kind in kinds or any(x.has(*kinds) for x in self.ops if isinstance(x, X))

    def spec(self, item, defs):
        """value for an item; None when a program or path makes it"""
        k = self.kind
        if k == "lit":
            return self.ops[0]
        if k in ("item", "item or"):
            return item
        if k == "var":
            if self.ops[0] in defs:
                return defs[self.ops[0]].spec(item, defs)
            return self.ops[1].spec(item, defs) if len(self.ops) > 1 else ""
        vs = [x.spec(item, defs) for x in self.ops]
        if None in vs or k in ("proc", "cache", "dir", "src"):
            return None
        if k == "join":
            return "".join(vs)
        if k == "list":
            return "".join("\1" + v for v in vs)
        if k == "base":
            v = vs[0]
            return (v[:v.rindex(".")] if "." in v else v) + "".join(vs[1:2])
        return None


ITEMS = ("one.c", "two.c", "one.c")


def tell(e, s, v):
    """a value a path operation or a program made, as text that shows what it was made from"""
    return str(e.text(s, v)) if v is not None else None


def evaluate(ctx, x, defs, items, let, within, reset=False):
    """evaluate x for the items in one run (`reset`: each as the first item of another rule of the body); list per final path of [(value, commands)]"""
    e = Vars(ctx)
    n = x.node()
    fe = N("foreach", "foreach", V("item"), V("one.c"))
    ds = [N("let" if let else "set", "let" if let else "set", V(k), d.node()) for k, d in sorted(defs.items()) if within != "outside"]
    out = [N("let" if let else "set", "let" if let else "set", V(k), d.node()) for k, d in sorted(defs.items()) if within == "outside"]
    body = N("run", "run", bag("exec", V("tool"), n))
    for c in ds + [body]:
        fe.children.append(c)
        c.parent = fe
    root = nested(out + [fe])
    sts = e.chain(e.bind([e.start(root)], root), "node_init", [root.ptr])
    sts = e.chain(sts, "node_setup", [fe.ptr])
    runs = [(s, []) for s in sts]
    for it in items:
        nxt = []
        for s, got in runs:
            p = e.get_cell(s, fe.ptr, "node", "impl")
            if p is None or p == NULL:
                nxt.append((s, got))
                continue
            e.set_cell(s, p, "node_foreach", "value", e.const(it))
            if reset:
                e.set_cell(s, p, "node_foreach", "access_cnt", NULL)
            before = len(s.q)
            for s2, v in e.call_fn(s, "node_value", [n.ptr]):
                cmds = tuple((y[0], e.shown(s2, y[2])) for y in s2.q[before:] if y[0] in ("cmd", "arg"))
                nxt.append((s2, got + [(e.shown(s2, v), tell(e, s2, v), cmds)]))
        runs = nxt
    return [g for _, g in runs]


def case_item(ctx, x, defs, let, within):
    label = "%s%s" % (x, "".join(", %s %s = %s%s" % ("let" if let else "set", k, d, " outside" if within == "outside" else "") for k, d in sorted(defs.items())))
    found = []
    runs = evaluate(ctx, x, defs, ITEMS, let, within) + evaluate(ctx, x, defs, ITEMS, let, within, True)
    if not runs or any(len(g) != len(ITEMS) for g in runs):
        return label, [(label, "the value cannot be evaluated for every item")], 0
    for g in runs:
        for k, it in enumerate(ITEMS):
            want = x.spec(it, defs)
            if want is not None and g[k][0] is not None and not g[k][0].startswith("?") and g[k][0] != want:
                found.append((label, "for item %d (%s) yields '%s' instead of '%s'" % (k + 1, it, g[k][0], want)))
    if x.has("dir", "src", "proc", "cache") or any(d.has("dir", "src", "proc", "cache") for d in defs.values()):
        dep = x.uses_item(defs)
        for k, it in enumerate(ITEMS[:2]):
            alone = evaluate(ctx, x, defs, (it,), let, within)
            if x.has("proc", "cache") or any(d.has("proc", "cache") for d in defs.values()):
                fits = {a[0][2] for a in alone}
                if dep and any(g[k][2] not in fits for g in runs):
                    bad = [g for g in runs if g[k][2] not in fits][0]
                    found.append((label, "for item %d (%s) %s, alone %s" % (k + 1, it, commands(bad[k][2]), " or ".join(map(commands, sorted(fits))))))
            else:
                fits = {a[0][1] for a in alone}
                if any(g[k][1] not in fits for g in runs):
                    found.append((label, "for item %d (%s) yields another value than for this item alone" % (k + 1, it)))
    return label, sorted(set(found)), len(ITEMS)


def commands(c):
    return "runs nothing" if not c else "runs " + " ".join("then " + t if k == "cmd" and i else t for i, (k, t) in enumerate(c))


def exprs(tier):
    L = lambda t: X("lit", t)
    I = X("item")
    base = [I, X("item or", L("d")), X("var", "U", I), X("var", "U", L("d"))]
    w1 = lambda a: [X("join", L("p-"), a), X("join", a, a), X("list", a, L("z")), X("base", a), X("base", a, L(".o")), X("base", L("f.c"), a), X("dir", a), X("src", a), X("proc", L("prog"), a),
                    X("proc", a), X("cache", L("prog"), a), X("proc", L("prog"), L("fixed"), a), X("proc", L("prog"), a, L("fixed")), X("var", "U", a)]
    one = [y for a in base[:3] for y in w1(a)]
    yield from base
    yield from one
    for a in w1(I):
        if a.kind in ("dir", "src"):
            continue
        for y in w1(a):
            yield y
            if tier != "quick" and y.kind not in ("dir", "src"):
                yield from w1(y)


def cases(ctx):
    for kind in ("set", "let"):
        for depth in (1, 2, 3):
            for nvals, spread in ((0, False), (1, False), (1, True), (2, False), (2, True), (3, True)):
                for phase in ("init", "setup", "build"):
                    for null in ((False, True) if nvals == 1 else (False,)):
                        yield case_count, (kind, depth, nvals, spread, 3, phase, null)
    for x in exprs(ctx.tier):
        yield case_item, (x, {}, False, "inside")
    L = lambda t: X("lit", t)
    I = X("item")
    Y = X("var", "Y")
    for let in (False, True):
        for d in (I, X("join", L("p-"), I), X("base", I, L(".o")), X("list", I, L("z")), X("join", X("base", I), L("-q"))):
            for use in (Y, X("join", L("u-"), Y), X("base", Y), X("var", "Y", L("d"))):
                yield case_item, (use, {"Y": d}, let, "inside")
        yield case_item, (X("join", I, Y), {"Y": L("k")}, let, "outside")
        yield case_item, (X("var", "Y", I), {"Y": L("k")}, let, "outside")
        yield case_item, (X("base", I, Y), {"Y": L(".k")}, let, "outside")
        yield case_item, (X("join", Y, I), {"Y": X("join", L("a"), L("b"))}, let, "outside")


# ---- commands per item
class Items(Play):
    def outcome(self, st, kind, t):
        return {"exist": True, "access": True, "argstart": False, "fopen": True, "var": True}.get(kind)

    def product(self, st, t):
        return NULL


def items_of(v):
    out = set()
    if isinstance(v, tuple):
        if v[:2] == ("T", "item"):
            out.add(v[2])
        for x in v:
            out |= items_of(x)
    return out


def case_commands(ctx, label):
    """the commands of a run rule in foreach: once per item, each with the values of its item"""
    sc = [s for s in scenarios(ctx) if s.label == label][0]
    r = play(ctx, sc, Items)
    found = []
    n = 0
    for s in r.finals:
        cmds = {}
        done = []
        for x in s.q:
            if x[0] in ("cmd", "arg") and isinstance(x[1], tuple):
                cmds.setdefault(x[1], []).append(items_of(x[2]))
            elif x[0] == "run":
                done.append(x[1])
        order = []
        for c in done:
            its = [i for i in cmds.get(c, []) if i]
            u = set().union(*its)
            n += 1
            if any(len(i) > 1 for i in its) or len(u) > 1:
                found.append((label, "a command gets values of different items", s.lines()))
            elif not u:
                found.append((label, "a command gets no value of its item", s.lines()))
            order += sorted(u)
        fresh = not any(x[0] == "read" for x in s.q)
        if fresh and order != [0, 1]:
            found.append((label, "the commands run for the items %s instead of 0, 1" % (", ".join(map(str, order)) or "(none)"), s.lines()))
        elif len(order) != len(set(order)):
            found.append((label, "the commands run more than once for an item: %s" % ", ".join(map(str, order)), s.lines()))
    return label, found, n


def run(ctx):
    ctx.rule("count", "a set is evaluated once, at its first use, and keeps its value; a let is evaluated at every use and at no other time")
    ctx.rule("item", "the value of an expression in a foreach body is the one computed for the current item")
    todo = list(cases(ctx))
    n = 0
    for (f, a), (label, found, k) in zip(todo, results(lambda c: c[0](ctx, *c[1]), todo)):
        n += k
        rule = "count" if f is case_count else "item"
        loc = ctx.m.fn("node_set_setup" if f is case_count else "node_find_parent_foreach").loc()
        for l, w in dict.fromkeys(found):
            ctx.ob(rule, label, False, w, loc)
        if not found:
            ctx.ob(rule, label, True, "%d evaluations" % k, loc)
    ctx.rule("commands", "the commands in a foreach body run once for every item, with the values of this item")
    labels = [sc.label for sc in scenarios(ctx) if sc.foreach]
    k = 0
    for label, found, c in results(lambda l: case_commands(ctx, l), labels):
        k += c
        loc = ctx.m.fn("node_run_setup").loc()
        for w, path in {w: p for _, w, p in found}.items():
            ctx.ob("commands", label, False, w, loc, path)
        if not found:
            ctx.ob("commands", label, True, "%d commands" % c, loc)
    ctx.count("commands", k)
    ctx.require(len(labels), 2, "foreach scenarios")
    ctx.count("evaluations", n)
    ctx.require(len(todo), 100, "cases")
