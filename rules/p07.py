"""P07: cyclic build dependencies.  Small trees of rules whose actions build each other are played through the build drivers."""
from sa.phases import *
from sa.scen import N, V, bag, T
from rules.p09 import Cons
from rules.p04 import scenarios, play, FILE, NULL

TECHNIQUE = "path-sensitive abstract interpretation of LLVM IR: the build drivers followed over abstract dependency graphs with and without cycles"
LEVEL_NOTE = ("dependency graphs of up to four rules (self, two-, three- and four-cycles, cycles entered from outside, cycles through a parent or a nested rule, cycles behind "
              "a finished rule; chains, diamonds, repeated and nested requests) for the build and the post-build drivers and for every kind of rule with a "
              "build action; plus rules which consume their own product. Larger graphs are not enumerated: the drivers have no state beyond the per-rule "
              "flags and counter.")

DRIVER = {"build": "node_build", "post_build": "node_post_build"}


def graphs(kind):
    """(label, cyclic, rules as nested dict, edges)"""
    def g(label, cyclic, names, edges, start, nest=None, parts=()):
        return (label, cyclic, names, edges, start, nest or {}, parts)
    out = [
        g("a rule which needs itself", True, "A", {"A": "A"}, "A"),
        g("two rules which need each other", True, "AB", {"A": "B", "B": "A"}, "A"),
        g("three rules in a cycle", True, "ABC", {"A": "B", "B": "C", "C": "A"}, "A"),
        g("four rules in a cycle", True, "ABCD", {"A": "B", "B": "C", "C": "D", "D": "A"}, "A"),
        g("a cycle entered from outside", True, "ABC", {"A": "B", "B": "C", "C": "B"}, "A"),
        g("a cycle behind a finished rule", True, "ABCD", {"A": "DB", "B": "DC", "C": "DA"}, "A"),
        g("a cycle closed by the second request", True, "ABC", {"A": "B", "B": "CA"}, "A"),
        g("a rule nested in the rule it needs", True, "AB", {"B": "A"}, "A", {"B": "A"}),
        g("a cycle through a nested rule", True, "ABC", {"B": "C", "C": "A"}, "A", {"B": "A"}),
        g("the whole script, with a cycle", True, "ABC", {"B": "C", "C": "B"}, None),
        g("a single rule", False, "A", {}, "A"),
        g("a rule requested twice", False, "AB", {"A": "BB"}, "A"),
        g("a chain", False, "ABCD", {"A": "B", "B": "C", "C": "D"}, "A"),
        g("a diamond", False, "ABCD", {"A": "BC", "B": "D", "C": "D"}, "A"),
        g("a rule which needs one of its parts", False, "AB", {"A": "B"}, "A", {"B": "A"}),
        g("parts which need each other in order", False, "ABC", {"B": "C"}, "A", {"B": "A", "C": "A"}),
        g("the whole script", False, "ABCD", {"A": "CD", "B": "DA", "D": "C"}, None),
        g("the whole script, in reverse", False, "ABCD", {"A": "BCD", "B": "CD", "C": "D"}, None),
    ]
    return out


def make(ctx, kind, ph, graph):
    label, cyclic, names, edges, start, nest, parts = graph
    e = Tree(ctx)
    ns = {c: N(kind, c, V("part")) for c in names}
    tops = []
    for c in names:
        if c in nest:
            ns[nest[c]].children = list(ns[nest[c]].children) + [ns[c]]
        else:
            tops.append(ns[c])
    root = N("script", "Autark", *tops, unit="U0")
    for c in names:
        e.act(ns[c], **{ph: [(DRIVER[ph], [ns[x]]) for x in edges.get(c, "")]})
    return e, root, ns, (ns[start] if start else root)


def count(q, what, ph, n):
    return sum(1 for x in q if x[:3] == (what, ph, n.ptr))


def run(ctx):
    ctx.rule("detected", "building a rule which needs itself through any chain stops with the cyclic dependency error and the unfinished rule is not taken for built")
    ctx.rule("not-cyclic", "a project without a cycle is built without an error")
    ctx.rule("once", "a finished rule is not built again")
    ctx.rule("requested", "a rule which consumes its own product asks for it to be built, so the cycle is seen")
    code = enum("AK_ERROR_CYCLIC_BUILD_DEPS")
    kinds = ["run", "cc", "configure", "install", "echo"] if ctx.tier == "quick" else ["run", "cc", "cxx", "configure", "install", "echo", "library", "foreach", "in-sources", "macro"]
    n = 0
    for kind in kinds:
        for ph in ("build", "post_build"):
            for gr in graphs(kind):
                e, root, ns, start = make(ctx, kind, ph, gr)
                fin = play_tree(ctx, e, root, [(DRIVER[ph], start), (DRIVER[ph], start)])
                sub = "%s, %s (%s)" % (ph, gr[0], kind)
                n += 1
                loc = lambda st: st.lines() if st else []
                ends = [s[1] for s in e.stops]
                if gr[1]:
                    bad = None
                    if fin:
                        bad = ("the build ends normally", fin[0])
                    for st, name, args, inst in e.stops:
                        if name == "endless":
                            bad = ("the build recurses without end", st)
                        elif code is not None and not any(a == ("i", code) for a in args):
                            bad = ("the build stops with another error than the one for cycles", st)
                    if not fin and not e.stops:
                        bad = ("the analysis found no end of the build", None)
                    ctx.ob("detected", sub, bad is None, bad[0] if bad else "stops with the cyclic dependency error", path=loc(bad[1]) if bad else [])
                    # the unfinished rules: nothing may have been finished on the cycle before the stop
                    continue
                for st, name, args, inst in e.stops:
                    ctx.ob("not-cyclic", sub, False, "the build is stopped (%s)" % name, inst.loc(), path=loc(st))
                if not e.stops:
                    ctx.ob("not-cyclic", sub, bool(fin), "%d ends" % len(fin))
                bad = None
                for st in fin:
                    for c, x in ns.items():
                        k = count(st.q, "cb", ph, x)
                        if k != 1:
                            bad = ("rule %s is built %d times" % (c, k), st)
                ctx.ob("once", sub, bad is None, bad[0] if bad else "%d rules" % len(ns), path=loc(bad[1]) if bad else [])
    for kind in kinds:
        for gr in graphs(kind):
            if gr[1]:
                continue
            for label, calls in (("build, then post-build", ["node_build", "node_post_build"]),):
                e, root, ns, start = make(ctx, kind, "build", gr)
                for c in gr[2]:
                    e.act(ns[c], build=[("node_build", [ns[x]]) for x in gr[3].get(c, "")], post_build=[("node_post_build", [ns[x]]) for x in gr[3].get(c, "")])
                fin = play_tree(ctx, e, root, [(f, start) for f in calls])
                n += 1
                ctx.ob("not-cyclic", "%s, %s (%s)" % (label, gr[0], kind), bool(fin) and not e.stops, "the build is stopped" if e.stops else "%d ends" % len(fin),
                       path=e.stops[0][0].lines() if e.stops else [])
    ctx.require(n, 100, "dependency graphs played")
    own(ctx)


class Own(Cons):
    def product(self, st, t):
        return self.sc.rule.ptr


Own.handlers = dict(Cons.handlers)


def own(ctx):
    n = 0
    for sc in scenarios(ctx):
        if not sc.consumed or sc.phases[-1] != "build" or "three" in sc.label or (ctx.tier == "quick" and ("two" in sc.label or "included" in sc.label)):
            continue
        names = [x.value for x in sc.consumed if x.kind == "value"] + [s.split("/")[-1] for s in sc.sources]
        r = play(ctx, sc, type("O", (Own,), {"force": True, "names": names}))
        bad = None
        hits = 0
        for st in r.finals:
            asked = [k for k, x in enumerate(st.q) if x[0] == "prod"]
            if not asked:
                continue
            hits += 1
            if not any(x[0] == "build" and x[1] == sc.rule.ptr for x in st.q):
                bad = st
        if not hits:
            continue
        n += 1
        ctx.ob("requested", sc.label, bad is None, "the rule is not asked to be built when it consumes its own product" if bad else "%d paths" % hits, path=bad.lines() if bad else [])
    ctx.require(n, 4, "rules which consume their own product")
