"""P08: a product belongs to exactly one rule.  The registration functions are played over spellings and owners, and every kind of rule
is played with the registry holding another owner for each of its outputs."""
from sa.ruleset import *
from sa.scen import N, V, bag, norm
from rules.p04 import show, NULL

TECHNIQUE = "path-sensitive abstract interpretation of LLVM IR: registry model over spellings, owners and rule kinds"
LEVEL_NOTE = ("registration: all pairs of spellings (plain, ./, ../, absolute, lists) from two rules in two working directories; rules: run (constant, evaluated, list "
              "and foreach products), cc/cxx, configure, in the root and in included scripts, with each product in turn owned by another rule, by the rule itself "
              "or by nobody. The table of the registry itself is modelled as a map from exact texts (map.c is P34).")


class Reg(Play):
    owner = None            # (key, pointer)

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.inl = self.inl | {"node_product_add", "node_product_add_raw"}
        self.handlers = {k: v for k, v in self.handlers.items() if k not in ("node_product_add", "node_product_add_raw")}

    def product(self, st, t):
        if self.owner and t == self.owner[0]:
            return self.owner[1]
        return NULL

    def outcome(self, st, kind, t):
        if kind == "exist":
            return True
        return {"access": True, "argstart": False, "argexist": False, "fopen": True, "var": True, "dir": False}.get(kind)

    def compare(self, st, a, b):
        return False

    def pick_open(self, ok, fail, out):
        return [out[0]]

    def m_do(self, st, inst, args):
        self.ev(st, "run", args[0])
        return [(NULL, st)]

    def m_ok(self, st, inst, args):
        return [(NULL, st)]

    def m_close(self, st, inst, args):
        self.set_cell(st, args[0], "deps", "file", NULL)
        return [(NULL, st)]

    def m_rename(self, st, inst, args):
        self.ev(st, "rename", norm(self, st, self.text(st, args[0]), self.cwd(st)), norm(self, st, self.text(st, args[1]), self.cwd(st)))
        return [(NULL, st)]

    def m_fopen(self, st, inst, args):
        mode = self.string(self.text(st, args[1])) or "w"
        if mode[0] in "wa" or "+" in mode:
            self.ev(st, "written", norm(self, st, self.text(st, args[0]), self.cwd(st)))
        return Play.handlers["fopen"](self, st, inst, args)

    def m_arg(self, st, inst, args):
        t = self.text(st, args[1])
        prev = [e for e in st.q if e[0] == "arg" and e[1] == args[0]]
        self.ev(st, "arg", args[0], t)
        if prev and self.string(prev[-1][2]) == "-o":
            self.ev(st, "output", norm(self, st, t, self.cwd(st)))
        return [(TOP, st)]


Reg.handlers = dict(Play.handlers, spawn_do=Reg.m_do, spawn_exit_code=Reg.m_ok, deps_close=Reg.m_close, rename=Reg.m_rename, utils_rename_file=Reg.m_rename,
                    spawn_arg_add=Reg.m_arg, fopen=Reg.m_fopen)


def made(e, sc, q):
    """paths a rule writes according to its events"""
    if sc.kind == "cc":
        return {x[1] for x in q if x[0] == "output"}
    if sc.kind == "configure":
        w = {x[1] for x in q if x[0] == "written"}
        mv = {x[1]: x[2] for x in q if x[0] == "rename"}
        return {mv.get(x, x) for x in w}
    return set()


def run(ctx):
    ctx.rule("one-owner", "registering a path which another rule owns, in any spelling, stops the build and leaves the first owner")
    ctx.rule("same-owner", "registering a path again from the rule which owns it does nothing")
    ctx.rule("kept", "a registered path is found again under every spelling, and belongs to the rule which registered it")
    ctx.rule("registered", "every output of a rule is registered as its product")
    ctx.rule("conflict", "a rule one of whose outputs is owned by another rule does not get past its setup")
    table(ctx)
    rules(ctx)


SPELL = [("o.txt", "/prj/cache"), ("./o.txt", "/prj/cache"), ("x/../o.txt", "/prj/cache"), ("../cache/o.txt", "/prj/cache"), ("/prj/cache/o.txt", "/prj/cache"),
         ("../o.txt", "/prj/cache/sub"), ("/prj/cache//sub/.././o.txt", "/prj/cache/sub"), ("cache/o.txt", "/prj")]
KEY = "/prj/cache/o.txt"


def table(ctx):
    a, b = N("run", "A"), N("run", "B")
    for n in (a, b):
        n.kind = "run"
    root = N("script", "Autark", a, b, unit="U0")
    n = 0

    def vlist(e, p):
        return [("", e.const(p)), (" in a list, last", T("list", e.const("other.txt"), e.const(p))), (" in a list, first", T("list", e.const(p), e.const("other.txt")))]
    e = Reg(ctx)
    s0 = None
    key = e.const(KEY)

    def setcwd(s, cwd):
        if s is None:
            s = e.state()
            e.plant(s, root)
        else:
            s = s.copy_full()
        s.mem[(("C", "cwd"), 0)] = e.const(cwd)
        s.q = ()
        return s

    def add(s, node, prod, buf=NULL):
        e.final, e.stops = [], []
        out = [x for x, _ in e.call_fn(s, "node_product_add", [node.ptr, prod, buf])]
        return out, list(e.stops)

    def find(s, node, prod):
        return [v for _, v in e.call_fn(s, "node_by_product", [node.ptr, prod, NULL])]
    for p, cwd in SPELL:
        for l1, t1 in vlist(e, p):
            fin, stops = add(setcwd(s0, cwd), a, t1)
            sub = "%s from %s%s" % (p, cwd, l1)
            ok = len(fin) >= 1 and not stops
            for s in fin:
                for p2, cwd2 in SPELL:
                    if find(setcwd(s, cwd2), b, e.const(p2)) != [a.ptr]:
                        ok = False
                        sub2 = "%s from %s" % (p2, cwd2)
            ctx.ob("kept", sub, ok, "" if ok else "the product is not found again or not registered")
            n += 1
            if l1 and ctx.tier == "quick":
                seconds = SPELL[:1]
            else:
                seconds = SPELL
            for p2, cwd2 in seconds:
                for l2, t2 in vlist(e, p2):
                    sub = "%s from %s%s, then %s from %s%s" % (p, cwd, l1, p2, cwd2, l2)
                    bad = None
                    for s in fin:
                        f2, st2 = add(setcwd(s, cwd2), b, t2)
                        if f2:
                            bad = ("another rule registers the same product and goes on", f2[0])
                        for x in st2:
                            if any(y[0] == "own" and y[1] == key for y in x[0].q):
                                bad = ("the first owner of the product is replaced", x[0])
                    ctx.ob("one-owner", sub, bad is None and bool(fin), bad[0] if bad else "", path=bad[1].lines() if bad else [])
                    bad = None
                    for s in fin:
                        f2, st2 = add(setcwd(s, cwd2), a, t2)
                        if st2 or not f2:
                            bad = ("the rule which owns the product cannot register it again", st2[0][0] if st2 else None)
                        for x in f2:
                            if find(setcwd(x, cwd2), b, e.const(p2)) != [a.ptr]:
                                bad = ("the product is lost when it is registered again", x)
                    ctx.ob("same-owner", sub, bad is None, bad[0] if bad else "", path=bad[1].lines() if bad and bad[1] else [])
                    n += 2
    ctx.require(n, 300, "registrations")


def extra():
    out = []
    ph = ("init", "setup", "build")

    def one(label, prod, dyn=None, fe=None, texts=(), **kw):
        ch = [bag("exec", V("tool")), bag("consumes", V("in")), bag("produces", *prod)]
        if kw.get("first"):
            ch.reverse()
        r = N("run", "run", *ch)
        t = [r]
        if fe:
            t = [N("foreach", "foreach", V("I"), fe, r, impl=H("FE"))]
        sc = Sc(label, "run", nest(*t, depth=kw.get("depth", 1)), r, ph, dyn=dyn or {}, foreach=bool(fe), units=["U%d" % k for k in range(kw.get("depth", 1))])
        sc.expect = list(texts)
        out.append(sc)
    one("run with a constant product", [V("o")], texts=["o"])
    one("run with two products", [V("o1"), V("o2")], texts=["o1", "o2"])
    x = var("X")
    one("run with an evaluated product", [x], {x: ["list", "v.txt"]}, texts=["v.txt"])
    x = var("X")
    one("run with a list of products", [V("o1"), x], {x: ["list", "v.txt", "d/w.txt"]}, texts=["o1", "v.txt", "d/w.txt"])
    x = var("X")
    one("run with products in an included script", [x, V("o2")], {x: ["list", "v.txt", "../w.txt"]}, texts=["o2", "v.txt", "../w.txt"], depth=2)
    i, l = var("I"), var("L")
    one("run per foreach item, product named by the item", [V("all"), i], {i: fe_value, l: T("list", T("item", 0), T("item", 1))}, fe=l,
        texts=["all", T("item", 0), T("item", 1)])
    one("run whose products are written first", [V("o1"), V("o2")], texts=["o1", "o2"], first=True)
    i, l = var("I"), var("L")
    one("run per foreach item, products written first", [i, V("all")], {i: fe_value, l: T("list", T("item", 0), T("item", 1))}, fe=l,
        texts=["all", T("item", 0), T("item", 1)], first=True)
    return out


def rules(ctx):
    todo = []
    for sc in scenarios(ctx):
        if sc.kind in ("cc", "configure") and not ("three" in sc.label and ctx.tier == "quick"):
            todo.append(sc)
    todo += extra()
    n = 0
    for sc in todo:
        r = play(ctx, sc, Reg)
        e = r.e
        keys = set()
        own = {}
        bad = None
        d = e.const(Reg(ctx).unit_paths(sc.unit)["cache_dir"])
        exp = {norm(e, r.finals[0], x if isinstance(x, tuple) else e.const(x), d) for x in getattr(sc, "expect", [])} if r.finals else set()
        for st in r.finals:
            m = exp | made(e, sc, st.q)
            o = {x[1] for x in st.q if x[0] == "own" and x[2] == sc.rule.ptr}
            keys |= m
            for p in m - o:
                bad = ("%s is written but not registered as a product" % show(e, p), st)
            if any(x[0] == "own" and x[2] != sc.rule.ptr for x in st.q):
                bad = ("a product is registered for another rule", st)
        ctx.ob("registered", sc.label, bad is None and bool(keys), bad[0] if bad else "%d products" % len(keys), path=bad[1].lines() if bad else [])
        for k in sorted(keys, key=str):
            n += 1
            sub = "%s, %s" % (sc.label, show(e, k))
            rr = play(ctx, sc, type("R", (Reg,), {"owner": (k, H("OTHER"))}))
            bad = None
            for st in rr.finals:
                bad = ("the rule goes on although another rule owns its product", st)
            for st in rr.e.pre:
                bad = ("the rule gets past its setup although another rule owns its product", st)
            for st, name, args, inst in rr.e.stops0 + rr.stops:
                if any(x[0] == "own" and x[1] == k for x in st.q):
                    bad = ("the owner of the product is replaced", st)
                if any(x[0] in ("run", "rename", "written") for x in st.q):
                    bad = ("the rule runs although another rule owns its product", st)
            ctx.ob("conflict", sub, bad is None and bool(rr.e.stops0), bad[0] if bad else "", path=bad[1].lines() if bad else [])
            rr = play(ctx, sc, type("R", (Reg,), {"owner": (k, sc.rule.ptr)}))
            ctx.ob("same-owner", sub, bool(rr.finals), "" if rr.finals else "a rule which registers its product twice cannot be built")
    ctx.require(n, 12, "products of rules")
