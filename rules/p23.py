"""P23: order and number of rule actions.  Trees of stand-in rules (every kind of container, actions that call into the drivers again) are
played through the real build; the order in which actions start and end is compared with the documented phases."""
import itertools
from sa.phases import *
from sa.scen import N, V
from sa.par import results
from sa.absint import Limit
from .p13 import C, Case, build, expected, shapes

TECHNIQUE = "abstract interpretation of LLVM IR: the real phase drivers over abstract trees with stand-in actions, order and multiplicity of the action events"
LEVEL_NOTE = ("trees of depth up to four with every kind of container rule in every position; actions present in every combination of phases; actions that ask for any other rule of the tree in the same phase "
              "(itself, parts, siblings before and after, rules above, rules of other scripts), for values, in chains and diamonds; if/else trees of P13. Rules added during init by include and call are covered by their drivers only.")

# rules that act before their parts are initialised, as they decide what their parts are
FIRST = {"init": {"if", "include", "foreach", "in-sources", "macro", "call"}, "setup": {"foreach"}}
KINDS = ["bag", "run", "cc", "configure", "install", "set", "let", "check", "echo", "meta", "foreach", "if", "include", "in-sources", "option"]


class Prog:
    """a tree and what its actions do; items: (name, kind, children)"""
    def __init__(self, label, tree, progs=(), skip=(), cyc=False):
        self.label, self.tree, self.progs, self.skip, self.cyc = label, tree, list(progs), set(skip), cyc


def make(ctx, pr):
    e = Tree(ctx)
    nodes = {}

    def mk(t):
        name, kind, ch = t
        unit = None
        if kind == "script" and name != "R":
            unit = "U1"
        n = N(kind, kind if kind != "script" else ("Autark" if name == "R" else "sub1/Autark"), *[mk(c) for c in ch], unit=unit or ("U0" if name == "R" else None))
        nodes[name] = n
        return n
    root = mk(pr.tree)
    d = {}
    for who, ph, calls in pr.progs:
        d.setdefault((who, ph), []).extend(calls)
    for name, n in nodes.items():
        if n.kind == "script":
            continue
        phs = [p for p in PHASES if (name, p) not in pr.skip and (name, "*") not in pr.skip]
        need = n.kind in FIRST["init"]
        if need and "init" not in phs:
            phs.append("init")
        if n.kind == "foreach" and "setup" not in phs:
            phs.append("setup")
        e.act(n, *[p for p in phs if (name, p) not in d])
        e.act(n, **{p: [(f, [nodes[x] for x in a]) for f, a in d[(name, p)]] for p in phs if (name, p) in d})
    return e, root, nodes


def walk(t, up=()):
    yield t, up
    for c in t[2]:
        yield from walk(c, up + (t,))


def judge(ctx, pr):
    e, root, nodes = make(ctx, pr)
    st = e.state()
    e.plant(st, root)
    fin = e.chain([st], "script_build", [H("SCTX")])
    names = {n.ptr: k for k, n in nodes.items()}
    has = {(k, p) for k, n in nodes.items() for p in PHASES if p in n.cells}
    bad = []
    ends = [(s, True) for s in fin] + [(s, False) for s, *_ in e.stops]
    for s, name, a, inst in e.stops:
        if name == "endless":
            bad.append(("once", "the phases never end", s))
        elif not pr.cyc:
            bad.append(("order", "the build stops (%s at %s)" % (name, inst.loc()), s))
    if not ends:
        bad.append(("order", "the build does not end", None))
    for s, complete in ends:
        evs = [(x[0], x[1], names.get(x[2], "?")) for x in s.q if x[0] in ("cb", "end")]
        start, end = {}, {}
        for i, (k, ph, n) in enumerate(evs):
            if k == "cb":
                start.setdefault((n, ph), []).append(i)
            else:
                end.setdefault((n, ph), []).append(i)
        for (n, ph), v in start.items():
            if len(v) > 1:
                bad.append(("once", "%s of %s runs %d times" % (ph, n, len(v)), s))
        if complete:
            for n, ph in sorted(has):
                if (n, ph) not in start:
                    bad.append(("once", "%s of %s does not run" % (ph, n), s))
        early = any(c[0] == "node_value" or not c[0].endswith(ph) for w, ph, cs in pr.progs for c in cs)
        for i, p in enumerate(PHASES):
            for q in PHASES[i + 1:]:
                a = [x for (n, ph), v in start.items() if ph == p for x in v]
                b = [x for (n, ph), v in start.items() if ph == q for x in v]
                if early and q == "setup":
                    continue
                if a and b and max(a) > min(b):
                    bad.append(("order", "%s of %s runs before %s of %s" % (q, evs[min(b)][2], p, evs[max(a)][2]), s))
        for t, up in walk(pr.tree):
            for u in up:
                for ph in PHASES:
                    if (t[0], ph) not in has or (u[0], ph) not in has or (u[0], ph) not in start:
                        continue
                    first = u[1] in FIRST.get(ph, ())
                    if any((w, p) == (u[0], ph) and any(t[0] in c[1] for c in cs) for w, p, cs in pr.progs):
                        continue            # asked for by the rule itself
                    if first and (t[0], ph) in start and start[(t[0], ph)][0] < start[(u[0], ph)][0] and not pr.progs:
                        bad.append(("parts", "%s of %s runs before %s of the %s rule that decides about it" % (ph, t[0], ph, u[1]), s))
                    if not first and ((t[0], ph) not in end or end[(t[0], ph)][0] > start[(u[0], ph)][0]) and not pr.cyc:
                        bad.append(("parts", "%s of %s runs before its part %s is done" % (ph, u[0], t[0]), s))
    return bad, len(ends)


def leaf(n, k="echo"):
    return (n, k, [])


def progs():
    # containers
    for k in KINDS:
        yield Prog("%s alone" % k, ("R", "script", [(k, k, [leaf("a"), leaf("b")])]))
        yield Prog("%s between rules" % k, ("R", "script", [leaf("p"), (k, k, [leaf("a"), ("m", "bag", [leaf("c")]), leaf("b")]), leaf("q")]))
        for k2 in KINDS:
            yield Prog("%s in %s" % (k2, k), ("R", "script", [(k, k, [leaf("a"), (k2, k2 if k2 != k else k, [leaf("c"), leaf("d")]), leaf("b")]) if k2 != k else
                                                              (k, k, [(k + "2", k, [leaf("c")])])]))
    t = ("R", "script", [leaf("a"), ("X", "run", [leaf("b"), ("Y", "bag", [leaf("c")])]), ("S", "script", [leaf("d"), ("Z", "cc", [leaf("e")])]), leaf("f")])
    names = ["a", "X", "b", "Y", "c", "d", "Z", "e", "f"]
    for n in names:
        for ph in PHASES:
            yield Prog("%s without %s" % (n, ph), t, skip=[(n, ph)])
        yield Prog("%s without actions" % n, t, skip=[(n, "*")])
    up = {}
    for x, ups in walk(t):
        up[x[0]] = {u[0] for u in ups}
    for ph in PHASES:
        for a, b in itertools.product(names, repeat=2):
            # asking for oneself or for a rule one is a part of is a cycle
            yield Prog("%s of %s asks for %s of %s" % (ph, a, ph, b), t, [(a, ph, [("node_" + ph, [b])])], cyc=ph in ("build", "post_build") and (b == a or b in up[a]))
    for a, b in itertools.permutations(names, 2):
        yield Prog("init of %s asks for the value of %s" % (a, b), t, [(a, "init", [("node_value", [b])])])
        if a < b:
            yield Prog("setup of %s asks for the value of %s" % (a, b), t, [(a, "setup", [("node_value", [b])])])
            yield Prog("build of %s asks for the value of %s" % (a, b), t, [(a, "build", [("node_value", [b])])])
    flat = ("R", "script", [leaf(x, "run") for x in "abcd"])
    for ph in PHASES:
        f = "node_" + ph
        for o in itertools.permutations("abcd"):
            yield Prog("%s chain %s" % (ph, "".join(o)), flat, [(x, ph, [(f, [y])]) for x, y in zip(o, o[1:])])
        for o in (("a", "b", "c", "d"), ("d", "c", "b", "a"), ("b", "d", "a", "c")):
            yield Prog("%s diamond %s" % (ph, "".join(o)), flat, [(o[0], ph, [(f, [o[1]]), (f, [o[2]])]), (o[1], ph, [(f, [o[3]])]), (o[2], ph, [(f, [o[3]]), (f, [o[1]])])])
            yield Prog("%s cycle %s" % (ph, "".join(o)), flat, [(x, ph, [(f, [y])]) for x, y in zip(o, o[1:] + o[:1])], cyc=True)
            yield Prog("%s asked for twice %s" % (ph, "".join(o)), flat, [(o[0], ph, [(f, [o[1]]), (f, [o[1]])]), (o[2], ph, [(f, [o[1]])])])


def removed(ctx, case):
    exp = expected(case.items, case.defined)
    e, root, leaves, ifs = build(ctx, case)
    st = e.state()
    e.plant(st, root)
    sts = [st]
    for n in ifs:
        sts = e.chain(sts, "node_bind", [n.ptr])
    fin = e.chain(sts, "script_build", [H("SCTX")])
    bad = []
    for s in fin:
        for k, n in leaves.items():
            for ph in PHASES:
                c = sum(1 for x in s.q if x[:3] == ("cb", ph, n.ptr))
                if c and k not in exp:
                    bad.append(("removed", "%s of %s runs although the condition removes it" % (ph, k), s))
                elif c != 1 and k in exp:
                    bad.append(("once", "%s of %s runs %d times" % (ph, k, c), s))
    for s, name, a, inst in e.stops:
        bad.append(("removed", "the build stops (%s at %s)" % (name, inst.loc()), s))
    return bad, len(fin)


def one(ctx, x):
    try:
        bad, n = judge(ctx, x) if isinstance(x, Prog) else removed(ctx, x)
    except Limit:
        bad, n = [("once", "the phases never end", None)], 0
    out, seen = [], set()
    for r, w, s in bad:
        if r not in seen:
            seen.add(r)
            out.append((r, x.label, w, s.lines() if s is not None else []))
    return out, n


TEXT = {"order": "init, setup, build and post-build of the whole tree follow each other", "once": "each action of each rule runs at most once, and exactly once in a build that ends",
        "parts": "the parts of a rule are done before the rule itself (rules that decide about their parts act first)", "removed": "rules removed by a condition run in no phase"}


def run(ctx):
    for k, v in TEXT.items():
        ctx.rule(k, v)
    ctx.assume("actions reach the phase drivers only through node_init, node_setup, node_build, node_post_build and node_value")
    ps = list(progs())
    cs = list(shapes())
    items = ps + (cs if ctx.tier == "thorough" else cs[::3])
    n = 0
    broken = set()
    for x, (bad, k) in zip(items, results(lambda x: one(ctx, x), items)):
        n += k
        for r, label, w, path in bad:
            broken.add(r)
            ctx.ob(r, label, False, w, path=path)
    for r in TEXT:
        if r not in broken:
            ctx.ob(r, "all trees", True, "%d trees, %d runs" % (len(items), n))
    ctx.count("runs of the build", n)
    ctx.require(len(items), 600, "trees")

