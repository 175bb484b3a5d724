"""P11: working directory and unit context.  (1) trees of stand-in rules in several scripts: where each action runs and what is current after it;
(2) every rule with its real phases: directory and unit stack before and after, directory of every command and every product lookup;
(3) loading of scripts; (4) every function that switches: balanced on each path."""
import itertools
from sa.phases import *
from sa.ruleset import scenarios, ENTRY, Play
from sa import ruleset
from sa.scen import N, V, bag, T, norm
from sa.lib import Rule, roots_of
from sa.par import results
from .p23 import Prog, walk, leaf

TECHNIQUE = "abstract interpretation of LLVM IR: balance (typestate) of directory and unit switches on all paths of every switching function, and directory of every action, command and product lookup over abstract trees"
LEVEL_NOTE = ("all functions that call chdir, unit_push, unit_pop or unit_ch_*; trees with up to three scripts and in-sources, actions that ask for rules of other scripts in every phase; all rules of the "
              "rule scenarios on all their paths including failing commands and files. A failing chdir stops (P29). Functions that set the process up (main, autark_run, autark_build_prepare) leave a context on purpose.")

SETUP = ("main", "autark_run", "autark_build_prepare")
PRIM = ("unit_push", "unit_pop", "unit_ch_dir", "unit_ch_cache_dir", "unit_ch_src_dir")


# ---- (4) balance
class Bal(Rule):
    """q: (units entered, current directory); saved directories are remembered per buffer"""
    max_states = 400
    max_shapes = 0

    def buf(self, v):
        ob = self.obj_of(v)
        return None if ob is None else (("cwdsave", ob[0]), 0)

    def save(self, st, v):
        k = self.buf(v)
        if k:
            st.mem[k] = ("s", "cwd:" + st.q[1])

    def on_call(self, st, inst, name, args):
        d, c, stk = st.q
        if name == "unit_push":
            st.q = (d + 1, "unit", stk + (c,))
            return [] if d > 6 else [(TOP, st)]
        if name == "unit_pop":
            st.q = (d - 1, stk[-1] if stk else "popped", stk[:-1])
            return [(self.ret_value(st, inst), st)] if d > -6 else []
        if name in ("unit_ch_dir", "unit_ch_cache_dir", "unit_ch_src_dir"):
            if self.nonzero(st, args[1]) is not False:
                self.save(st, args[1])
            st.q = (d, "unit", stk)
            return [(TOP, st)]
        if name == "getcwd":
            self.save(st, args[0])
            return [(args[0], st)]
        if name == "chdir":
            k = self.buf(args[0])
            v = st.mem.get(k) if k else None
            s2 = st.copy()
            st.q = (d, v[1][4:] if v else "other", stk)
            return [(NULL, st), (("i", -1), s2)]
        return super().on_call(st, inst, name, args)

    def opaque_effects(self, st, inst, name, args):
        keep = {k: v for k, v in st.mem.items() if isinstance(k[0], tuple) and k[0][0] == "cwdsave"}
        super().opaque_effects(st, inst, name, args)
        st.mem.update(keep)

    def clobber_fields(self, st, fields):
        keep = {k: v for k, v in st.mem.items() if isinstance(k[0], tuple) and k[0][0] == "cwdsave"}
        super().clobber_fields(st, fields)
        st.mem.update(keep)

    def on_return(self, st, inst, val):
        d, c, stk = st.q
        if d:
            self.report(st, inst, "%d unit contexts are %s" % (abs(d), "left open" if d > 0 else "closed that were not entered"))
        elif c != "in":
            self.report(st, inst, "another working directory is current than at the call")

    def report(self, st, inst, w):
        self.found.append((w, inst.loc(), st.lines()))


def balance(ctx):
    n = 0
    for name in roots_of(ctx, set(PRIM) | {"chdir"}):
        fn = ctx.m.functions.get(name)
        if name in SETUP or name in PRIM or fn is None or fn.decl:
            continue
        e = Bal(ctx)
        e.found = []
        e.run(fn, None, q=(0, "in", ()))
        n += 1
        seen = set()
        for w, loc, path in e.found:
            if w not in seen:
                seen.add(w)
                ctx.ob("balance", name, False, "%s returns while %s" % (name, w), loc=loc, path=path)
        if not e.found:
            ctx.ob("balance", name, True, "all paths", fn.loc())
    ctx.require(n, 4, "functions that switch directory or unit")


# ---- (1) drivers
class Where(Tree):
    max_actions = 300


def flags_of(ctx, mk):
    """flags the real binding gives to the rules of a tree"""
    e = Play(ctx)
    root, nodes = mk()
    st = e.state()
    e.plant(st, root)
    sts = [st]
    for n in root.walk():
        if n.kind not in ("value", "bag", "script"):
            sts = e.chain(sts, "node_bind", [n.ptr])
    if not sts:
        raise AnalysisBroken("a tree cannot be bound")
    return {k: e.get_cell(sts[0], n.ptr, "node", "flags") for k, n in nodes.items()}


def maker(tree):
    def mk():
        nodes = {}

        def f(t):
            name, kind, ch = t
            unit = name if kind == "script" else None
            val = kind if kind != "script" else ("Autark" if name == "U0" else name.replace("U", "sub") + "/Autark")
            n = N(kind, val, *[f(c) for c in ch], unit=unit)
            nodes[name] = n
            return n
        return f(tree), nodes
    return mk


def home(tree):
    """name -> (units around it, documented directory or None)"""
    out = {}
    for t, up in walk(tree):
        us = [u[0] for u in up if u[1] == "script"]
        if t[1] == "script":
            continue
        u = us[-1]
        d = "" if u == "U0" else "/" + u.replace("U", "sub")
        own = list(itertools.takewhile(lambda x: x[1] != "script", reversed(up)))
        src = any(x[1] == "in-sources" for x in own)
        if t[1] in ("run", "run-on-install"):
            out[t[0]] = (u, ["/prj" + d] if src else ["/prj/cache" + d])
        elif t[1] in ("@", "@@"):
            # the documentation names the cache directory as default, tests rely on the source directory
            out[t[0]] = (u, ["/prj" + d] if src else ["/prj" + d, "/prj/cache" + d])
        elif t[1] in ("cc", "cxx", "configure", "install", "library"):
            out[t[0]] = (u, ["/prj/cache" + d])
        else:
            out[t[0]] = (u, None)
    return out


def drive(ctx, pr):
    mk = maker(pr.tree)
    fl = flags_of(ctx, mk)
    root, nodes = mk()
    e = Where(ctx)
    d = {}
    for who, ph, calls in pr.progs:
        d.setdefault((who, ph), []).extend(calls)
    for name, n in nodes.items():
        if n.kind == "script":
            continue
        n.cells["flags"] = fl[name]
        e.act(n, *[p for p in PHASES if (name, p) not in d])
        e.act(n, **{p: [(f, [nodes[x] for x in a]) for f, a in d[(name, p)]] for p in PHASES if (name, p) in d})
    st = e.state()
    e.plant(st, root)
    cw0, un0 = e.cwd(st), e.units(st)
    fin = e.chain([st], "script_build", [H("SCTX")])
    where = home(pr.tree)
    names = {n.ptr: k for k, n in nodes.items()}
    bad = []
    for s in fin + [x[0] for x in e.stops]:
        open_ = {}
        for x in s.q:
            if x[0] not in ("cb", "end"):
                continue
            k, ph, p, cwd, us = x
            n = names.get(p)
            u, doc = where[n]
            if k == "cb":
                open_[(n, ph)] = (cwd, us)
                if us[-1] != H(u):
                    bad.append(("place", "%s of %s runs in the context of another script" % (ph, n), s))
                if doc is not None and e.string(cwd) not in doc:
                    bad.append(("place", "%s of %s runs in %s instead of %s" % (ph, n, e.string(cwd), " or ".join(doc)), s))
            elif open_.get((n, ph)) != (cwd, us):
                a, b = open_.get((n, ph)), (cwd, us)
                bad.append(("restore", "during %s of %s the %s changes from %s to %s when another rule is asked for" % (
                    (ph, n) + (("directory", e.string(a[0]), e.string(b[0])) if a and a[0] != b[0] else ("unit stack", len(a[1]) if a else 0, len(b[1])))), s))
    for s in fin:
        if e.units(s) != un0:
            bad.append(("restore", "%d units are on the stack after the build, %d before" % (len(e.units(s)), len(un0)), s))
    for s, name, a, inst in e.stops:
        if not pr.cyc:
            bad.append(("place", "the build stops (%s at %s)" % (name, inst.loc()), s))
    return bad, len(fin) + len(e.stops)


def trees():
    t = ("U0", "script", [leaf("a", "run"), ("I", "in-sources", [leaf("b", "run"), leaf("c", "@"), ("g", "bag", [leaf("d", "@@"), leaf("k", "cc")])]),
                          ("U1", "script", [leaf("e", "run"), ("J", "in-sources", [leaf("f", "run"), leaf("h", "@")]), ("U2", "script", [leaf("i", "configure"), leaf("j", "run")]),
                                            leaf("l", "install"), ("S", "set", [leaf("m", "@")])]),
                          ("X", "run", [leaf("n", "@"), ("Y", "bag", [leaf("o", "^"), leaf("p", "${")])]), ("F", "foreach", [leaf("q", "run"), ("r", "echo", [leaf("s", "@@")])]), leaf("t", "run-on-install")])
    t = eval(repr(t).replace("'${'", "'$'"))
    yield Prog("three scripts", t)
    names = ["a", "b", "c", "k", "e", "f", "h", "i", "j", "l", "m", "n", "q", "s"]
    for ph in PHASES:
        for a, b in itertools.permutations(names, 2):
            yield Prog("%s of %s asks for %s of %s" % (ph, a, ph, b), t, [(a, ph, [("node_" + ph, [b])])])
    for a, b in itertools.permutations(names, 2):
        if a in "abefijl":
            for ph in ("init", "build", "post_build"):
                yield Prog("%s of %s asks for the value of %s" % (ph, a, b), t, [(a, ph, [("node_value", [b])])])
    for o in (("a", "i", "f"), ("f", "b", "j"), ("j", "a", "e"), ("b", "f", "i"), ("l", "b", "j")):
        for ph in PHASES:
            yield Prog("%s chain %s" % (ph, "".join(o)), t, [(x, ph, [("node_" + ph, [y])]) for x, y in zip(o, o[1:])])
            yield Prog("%s of %s and %s" % (ph, o[1], o[2]), t, [(o[0], ph, [("node_" + ph, [o[1]]), ("node_" + ph, [o[2]]), ("node_value", ["c"])])])


# ---- (2) rules
class Step(Play):
    fixed = {}

    def outcome(self, st, kind, t):
        return self.fixed.get(kind)

    def product(self, st, t):
        return NULL


FIX = ({"exist": True, "access": True, "argstart": False, "argexist": False, "fopen": True, "var": True},
       {"exist": True, "access": False, "argstart": False, "argexist": False, "fopen": False, "var": False},
       {"exist": False, "access": True, "argstart": True, "argexist": True, "fopen": True, "var": True})


def replay(e, s, start):
    """(event, directory) in order"""
    cwd = start
    for x in s.q:
        if x[0] == "cd":
            cwd = x[1]
        yield x, cwd


def steps(ctx, sc):
    bad, n = [], 0
    for fix in FIX:
        b, k = steps_(ctx, sc, fix)
        bad += b
        n += k
    return bad, n


def steps_(ctx, sc, fix):
    bad = []
    e, sts = ruleset.start(ctx, sc, Step)
    e.fixed = fix
    c0, u0 = e.cwd(sts[0]), e.units(sts[0])
    n = 0
    uid = sc.units[-1] if sc.units else "U0"
    sub = "" if uid == "U0" else "/" + uid.replace("U", "sub")
    d = "/prj/cache" + sub
    ok = [e.const(d), e.const("/prj" + sub)] if sc.kind == "subst" else [e.const(d)]
    for ph in sc.phases:
        q0 = [s.q for s in sts]
        sts = ruleset.phase(e, sts, sc, ph)
        n += len(sts)
        for s in sts:
            if e.units(s) != u0:
                bad.append(("restore", "%s: after %s %d units are current, %d before" % (sc.label, ph, len(e.units(s)), len(u0)), s))
        keep, seen = [], set()
        for s in sts:
            k = (tuple(x for x in s.q if x[0] in ("cd", "run", "nowait")), ph)
            if k not in seen or ph != sc.phases[-1]:
                keep.append(s)
            seen.add(k)
        sts = keep
    for s in list(sts) + [x[0] for x in e.stops]:
        for x, cwd in replay(e, s, c0):
            if x[0] in ("run", "runfail") and cwd not in ok and sc.kind in ("run", "cc", "subst"):
                bad.append(("place", "%s: a command is started in %s instead of %s" % (sc.label, e.string(cwd), d), s))
            if x[0] == "prod" and sc.kind in ("run", "cc", "configure", "install") and cwd != e.const(d):
                bad.append(("place", "%s: a product is looked up in %s instead of %s" % (sc.label, e.string(cwd), d), s))
    return bad, n


class Lookup(Tree):
    """a real rule consumes products of stand-in rules"""
    max_states = 400
    max_steps = 3000000
    hash_state = Scen.hash_state
    gc = Scen.gc

    def __init__(self, ctx):
        super().__init__(ctx)
        self.inl = self.inl | {f for f in ctx.m.functions if f.startswith("node_") and f.endswith("_setup") and f != "node_setup"} | ruleset.INL
        self.handlers = {k: v for k, v in self.handlers.items() if k not in self.inl}

    def product(self, st, t):
        s = self.string(t)
        self.ev(st, "lookup", t)
        return self.prods.get(s, NULL)

    def outcome(self, st, kind, t):
        if kind == "exist":
            s = self.string(t)
            return s in self.there if s is not None else None
        if kind == "access":
            return False
        return None


def lookups(ctx, item):
    label, kind, consumer, src, cross, pre = item
    cons = bag("consumes", V("p1"), V("p2"), V("p3"))
    if consumer == "run":
        r = N("run", "run", bag("exec", V("tool")), cons)
    elif consumer == "cc":
        r = N("cc", "cc", V("a.c"), V("-O"), V("gcc"), cons)
    else:
        r = N("install", "install", V("bin"), V("p1"), V("p2"), V("p3"))
    e = Lookup(ctx)
    makers = [N("run", "run") for _ in range(3)]
    for m in makers:
        e.act(m, "init", "setup", "build", "post_build")
    inner = N("in-sources", "in-sources", r) if src else r
    other = N("script", "sub1/Autark", *makers, unit="U1")
    ch = [other, inner] if pre else [inner, other]
    root = N("script", "Autark", *(ch if cross else ([*makers, inner] if pre else [inner, *makers])), unit="U0")
    e.prods = {}
    e.lines = []
    e.there = {"/prj/a.c", "/prj/cache/p1", "/prj/cache/p2", "/prj/cache/p3"}
    st = e.state()
    e.plant(st, root)
    for k, m in enumerate(makers):
        e.prods["/prj/cache/p%d" % (k + 1)] = m.ptr
    c0, u0 = e.cwd(st), e.units(st)
    fin = e.chain(e.chain([st], "node_bind", [r.ptr]), "node_init", [root.ptr] if False else [r.ptr])
    fin = e.chain(fin, "node_setup", [r.ptr])
    fin = e.chain(fin, "node_build" if consumer != "install" else "node_post_build", [r.ptr])
    bad = []
    want = ["/prj/cache/p%d" % k for k in (1, 2, 3)]
    stops = [(s, n, i) for s, n, a, i in e.stops]
    reached = False
    for s, complete in [(s, True) for s in fin] + [(x[0], False) for x in stops]:
        got = [e.string(x[1]) for x in s.q if x[0] == "lookup" and e.string(x[1]) is not None and re.search(r"/p\d$", e.string(x[1]))]
        for g in got:
            if g not in want:
                bad.append(("place", "%s: product is looked up as %s, outside the cache directory of the rule" % (label, g), s))
        reached = reached or len(set(got)) == 3
        if complete and e.units(s) != u0:
            bad.append(("restore", "%s: %d units on the stack afterwards" % (label, len(e.units(s))), s))
    if not reached and not bad:
        bad.append(("place", "%s: not all products are looked up" % label, (stops[0][0] if stops else None)))
    return bad, len(fin)


def consumers():
    for c in ("run", "cc", "install"):
        for src in (False, True):
            if src and c != "run":
                continue
            for cross in (False, True):
                yield ("%s%s consuming three products of %s" % (c, " inside in-sources" if src else "", "another script" if cross else "the same script"), "lookup", c, src, cross, False)


# ---- (3) loading
class Load(Scen):
    max_states = 400


def loading(ctx):
    bad = []
    n = 0
    name = "script_include"
    fn = ctx.m.functions.get(name)
    if fn is None or fn.decl:
        return
    for label, cwd in (("from the source directory", "/prj"), ("from the cache directory", "/prj/cache"), ("from elsewhere", "/tmp/x")):
        e = Load(ctx)
        e.inl = ruleset.INL | {"node_bind"}
        e.handlers = dict(e.handlers)
        e.handlers["autark_build_prepare"] = lambda self, st, inst, args: [(TOP, st)]
        e.handlers["yyparse"] = e.handlers["yyparsefrom"] = lambda self, st, inst, args: [(("i", 1), st.copy()), (NULL, st)]
        root = N("script", "Autark", N("include", "include", V("sub1/Autark")), unit="U0")
        st = e.state()
        e.plant(st, root)
        st.mem[(("C", "cwd"), 0)] = e.const(cwd)
        u0 = e.units(st)
        fin = e.call_fn(st, name, [root.ptr, e.const("sub1/Autark"), H("OUT")])
        for s, v in fin:
            n += 1
            if e.cwd(s) != e.const(cwd):
                bad.append(("%s returns in %s" % (name, e.string(e.cwd(s)) or "another directory"), s))
            if e.units(s) != u0:
                bad.append(("%s leaves %d units on the stack" % (name, len(e.units(s))), s))
        ctx.ob("restore", "loading a script " + label, not bad, bad[0][0] if bad else "%d paths" % len(fin), path=bad[0][1].lines() if bad else [])
        bad = []
    ctx.require(n, 6, "paths of loading a script")


def one(ctx, x):
    if isinstance(x, Prog):
        bad, n = drive(ctx, x)
        label = x.label
    elif isinstance(x, tuple):
        bad, n = lookups(ctx, x)
        label = x[0]
    else:
        bad, n = steps(ctx, x)
        label = x.label
    out, seen = [], set()
    for r, w, s in bad:
        if r not in seen:
            seen.add(r)
            out.append((r, label, w, s.lines() if s is not None else []))
    return out, n


def run(ctx):
    ctx.rule("balance", "every function that enters a unit or changes the directory leaves it again on each normal return")
    ctx.rule("place", "actions, commands and product lookups happen in the documented directory and in the context of their own script")
    ctx.rule("restore", "unit stack and directory are the same after a step, a load or a request for another rule as before")
    balance(ctx)
    loading(ctx)
    ts = list(trees())
    items = list(scenarios(ctx)) + list(consumers()) + (ts if ctx.tier == "thorough" else [t for i, t in enumerate(ts) if i % 3 == 0 or "chain" in t.label or " and " in t.label])
    n = 0
    broken = set()
    for x, (bad, k) in zip(items, results(lambda x: one(ctx, x), items)):
        n += k
        for r, label, w, path in bad:
            broken.add(r)
            ctx.ob(r, label, False, w, path=path)
    for r in ("place", "restore"):
        if r not in broken:
            ctx.ob(r, "all trees and rules", True, "%d cases, %d paths" % (len(items), n))
    ctx.count("paths", n)
    ctx.require(len(items), 300, "trees and rules")
