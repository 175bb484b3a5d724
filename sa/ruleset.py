"""Scenarios of rules: small abstract trees for every kind of rule with a dependency record, played through the real code."""
from .scen import *

INL = frozenset("""node_bind node_find_direct_child node_find_parent_foreach node_find_parent_of_type node_find_prev_sibling
node_is_value_may_be_dep_saved node_consumes_resolve node_add_unit_deps node_resolve node_by_product node_by_product_raw unit_push unit_pop
unit_peek unit_peek_ctx unit_root unit_parent unit_ch_dir unit_ch_cache_dir unit_ch_src_dir""".split())
FILE, FILE_OUTDATED, NODE_VAL, ENV, SYS_ENV, ALIAS, OUTDATED = 102, 111, 118, 101, 115, 97, 120


def mentions(t, x):
    """x is part of the symbolic text t"""
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


class Play(Scen):
    def __init__(self, ctx, **kw):
        self.inl = INL | {f for f in ctx.m.functions if f.startswith("node_") and f.endswith("_setup") and f != "node_setup"}
        super().__init__(ctx, **kw)
        self.force_exist = None
        self.same = None        # texts known to be different/equal

    def compare(self, st, a, b):
        return False if self.is_text(a) or self.is_text(b) else None


def fe_value(self, st):
    """value of ${I} inside a foreach body"""
    fe = H("FE")
    c = self.get_cell(st, fe, "node_foreach", "access_cnt")
    n = c[1] if c and c[0] == "i" else 0
    self.set_cell(st, fe, "node_foreach", "access_cnt", ("i", min(n + 1, 6)))
    v = self.get_cell(st, fe, "node_foreach", "value")
    return NULL if v is None or v == NULL else self.text(st, v)


def fe_mix(node):
    """value made from the item and a variable"""
    def f(self, st):
        v = fe_value(self, st)
        return T("mix", v, T("val", node.id))
    return f


def fe_reset(e, st):
    for m, v in (("name", e.const("I")), ("value", NULL), ("items", T("list", T("item", 0), T("item", 1))), ("access_cnt", NULL)):
        e.set_cell(st, H("FE"), "node_foreach", m, v)


LINES = {"configure": ["plain\n", "x @K1@ y @K2@ z\n", "//autarkdef K3 \"s\"\n", "//autarkdef K4 1\n", "//autarkdef K5\n"],
         "cc": lambda d: [] if d is None else ["other.o: x.h\n", "%s: %s h1.h \\\n" % (d[:-1] + "o", SRC_OF.get(d, "?")), "  h2.h sys/h3.h\n", "\n", "h1.h:\n"]}
SRC_OF = {"a.d": "../a.c", "lib/b.d": "../lib/b.c", "c.d": "c.c"}
KEYS = ["K1", "K2", "K3", "K4", "K5"]
HEADERS = ["h1.h", "h2.h", "sys/h3.h"]


class Sc:
    """one scenario: tree, the rule under test, what it is made from"""
    def __init__(self, label, kind, root, rule, phases, **kw):
        self.label, self.kind, self.root, self.rule, self.phases = label, kind, root, rule, phases
        self.consumed = []      # nodes whose values are consumed files
        self.values = []        # nodes whose values form the command
        self.units = ["U0"]
        self.dyn = {}           # node -> value or list or function
        self.foreach = False
        self.lines = LINES.get(kind, 1)
        self.sources = []       # texts of sources
        self.jobs = 2
        self.always = False
        self.__dict__.update(kw)
        self.unit = self.units[-1]


def var(name="X"):
    return N("$", "$", V(name))


def nest(*rules, depth=1):
    """rules inside `depth` scripts, the innermost first in units"""
    t = list(rules)
    for d in range(depth - 1, 0, -1):
        t = [N("include", "include", V("sub"), N("script", "sub%d/Autark" % d, *t, unit="U%d" % d))]
    return N("script", "Autark", *t, unit="U0")


def scenarios(ctx):
    out = []

    def sc(*a, **kw):
        out.append(Sc(*a, **kw))

    # run
    def run1(kind, depth, always=False, word="run"):
        a, b, c, y = var(), N("@", "@", V("p")), V("a.txt"), var("Y")
        ch = [bag(kind, V("tool"), a, b), bag("consumes", c, y), bag("produces", V("o"))]
        if always:
            ch.insert(0, V("always"))
        r = N(word, word, *ch)
        return dict(root=nest(r, depth=depth), rule=r, consumed=[c, y], values=[a, b], units=["U%d" % i for i in range(depth)])
    for kind in ("exec", "shell"):
        sc("run " + kind, "run", phases=("init", "setup", "build"), **run1(kind, 1))
    sc("run in an included script", "run", phases=("init", "setup", "build"), **run1("exec", 2))
    sc("run always", "run", phases=("init", "setup", "build"), always=True, **run1("exec", 1, True))
    sc("run-on-install", "run", phases=("init", "setup", "build", "post_build"), always=True, **run1("exec", 1, word="run-on-install"))
    a, b, cmd2 = var(), var("Z"), var("TOOL")
    r = N("run", "run", bag("exec", V("t1"), a), bag("shell", V("t2"), b), bag("exec", cmd2, V("x")), bag("produces", V("o")))
    sc("run of several commands", "run", nest(r), r, ("init", "setup", "build"), values=[a, b, cmd2])
    y = var("Y")
    a = var()
    r = N("run", "run", bag("consumes", y), bag("exec", V("t1"), a), bag("produces", V("o")))
    sc("run consuming a list", "run", nest(r), r, ("init", "setup", "build"), values=[a], consumed=[y],
       dyn={y: T("list", T("li", 0), T("li", 1))}, consumed_texts=[T("li", 0), T("li", 1)])
    # run inside foreach
    i1, i2, x, l, m = var("I"), var("I"), var(), var("L"), N("^", "^", var("I"), var("Y"))
    c = V("k.txt")
    its = T("list", T("item", 0), T("item", 1))
    r = N("run", "run", bag("exec", V("tool"), i1, x, m), bag("consumes", c, i2), bag("produces", V("o")))
    f = N("foreach", "foreach", V("I"), l, r, impl=H("FE"))
    sc("run per foreach item", "run", nest(f), r, ("init", "setup", "build"), values=[x, l], consumed=[c],
       dyn={i1: fe_value, i2: fe_value, l: its, m: fe_mix(m)}, foreach=True, consumed_texts=[T("item", 0), T("item", 1)], fe_consumed=True)
    i1, x, c, l = var("I"), var(), V("k.txt"), var("L")
    r = N("run", "run", bag("exec", V("tool"), i1, x), bag("consumes", c), bag("produces", V("o")))
    f = N("foreach", "foreach", V("I"), l, r, impl=H("FE"))
    sc("run per foreach item without consuming it", "run", nest(f), r, ("init", "setup", "build"), values=[x, l], consumed=[c],
       dyn={i1: fe_value, l: its}, foreach=True)

    # compile
    def cc(word, depth, srcs, cflags=True, ccv=True, consumes=True, objects=False):
        s, fl, comp, h, hv = var("SRC"), var("CFLAGS"), var("CC"), V("gen.h"), var("H")
        ch = [s]
        vals = [s]
        if cflags:
            ch.append(fl)
            vals.append(fl)
        if cflags and ccv:
            ch.append(comp)
            vals.append(comp)
        cons = []
        if consumes:
            ch.append(bag("consumes", h, hv))
            cons = [h, hv]
        if objects:
            ch.insert(0, bag("objects", V("OBJS")))
        r = N(word, word, *ch)
        d = dict(root=nest(r, depth=depth), rule=r, values=vals, consumed=cons, sources=list(srcs), units=["U%d" % i for i in range(depth)])
        d["dyn"] = {s: ["list"] + list(srcs)}
        return d
    s0, s1, s2 = "a.c", "lib/b.c", "cache/c.c"
    ph = ("init", "setup", "build")
    sc("cc of one source", "cc", phases=ph, **cc("cc", 1, [s0]))
    sc("cc in an included script, objects named", "cc", phases=ph, **cc("cc", 2, [s0], consumes=False, objects=True))
    sc("cxx without flags", "cc", phases=ph, **cc("cxx", 1, [s0], cflags=False, consumes=False))
    sc("cc with flags only", "cc", phases=ph, **cc("cc", 1, [s0], ccv=False, consumes=False))
    sc("cc of two sources", "cc", phases=ph, **cc("cc", 1, [s0, s1], consumes=False))
    sc("cc of three sources", "cc", phases=ph, **cc("cc", 1, [s0, s1, s2], cflags=False, consumes=False))
    sc("cc of two sources, one job", "cc", phases=ph, jobs=1, **cc("cc", 1, [s0, s1], cflags=False, consumes=False))

    # configure
    a, l = V("a.h.in"), var("L")
    r = N("configure", "configure", a, l)
    sc("configure", "configure", nest(r), r, ph, sources=["a.h.in", "b.txt"], dyn={l: ["list", "b.txt"]})
    a = V("a.h.in")
    r = N("configure", "configure", a)
    sc("configure in an included script", "configure", nest(r, depth=2), r, ph, sources=["a.h.in"], units=["U0", "U1"])

    # check
    x = var()
    s = N("value", "chk.sh", V("-q"), x)
    r = N("check", "check", s)
    sc("check", "check", nest(r), r, ("init",), values=[x], script=s)
    x = var()
    s = N("value", "chk.sh", x)
    r = N("check", "check", s)
    sc("check in an included script", "check", nest(r, depth=2), r, ("init",), values=[x], script=s, units=["U0", "U1"])

    # cached command substitution
    a, b = var(), N("@", "@", V("p"))
    r = N("@@", "@@", V("tool"), a, b)
    o = N("echo", "echo", r)
    sc("cached substitution", "subst", nest(o), r, ("value",), values=[a, b])
    a, b = var("T"), var()
    r = N("@@", "@@", a, V("arg"), b)
    o = N("echo", "echo", r)
    sc("cached substitution in an included script", "subst", nest(o, depth=2), r, ("value",), values=[a, b], units=["U0", "U1"])

    # install
    d, a, b = var("DIR"), V("prog"), var("B")
    r = N("install", "install", d, a, b)
    sc("install", "install", nest(r), r, ("init", "setup", "build", "post_build"), values=[d, b], consumed=[a, b])
    d, a = V("bin"), var("P")
    r = N("install", "install", d, a)
    sc("install in an included script", "install", nest(r, depth=2), r, ("init", "setup", "build", "post_build"), values=[a], consumed=[a],
       units=["U0", "U1"])
    return out


class Result:
    def __init__(self, sc, e, finals, stops):
        self.sc, self.e, self.finals, self.stops = sc, e, finals, stops


def start(ctx, sc, cls=Play, prepare=None):
    """engine and the states before the last phase"""
    e = cls(ctx)
    st = e.state()
    e.sc = sc
    e.lines = sc.lines
    e.plant(st, sc.root)
    e.genv(st, "max_parallel_jobs", ("i", sc.jobs))
    for u in sc.units[1:]:
        e.push_unit(st, H(u))
    for n, v in sc.dyn.items():
        if isinstance(v, list) and v[0] == "list":
            ts = [e.const(x) if isinstance(x, str) else x for x in v[1:]]
            v = T("list", *ts) if len(ts) > 1 else ts[0]
        e.values[n.id] = v
    if sc.foreach:
        fe_reset(e, st)
    if prepare:
        prepare(e, st)
    sts = []
    b = [n for n in sc.root.walk() if n.kind not in ("value", "bag", "script")]
    sts = [st]
    for n in b:
        if n is sc.rule:
            sts = e.chain(sts, "node_bind", [n.ptr])
    if not sts:
        raise AnalysisBroken("scenario '%s': the rule cannot be bound" % sc.label)
    return e, sts


ENTRY = {"init": "node_init", "setup": "node_setup", "build": "node_build", "post_build": "node_post_build", "value": "node_value"}


def phase(e, sts, sc, ph):
    return e.chain(sts, ENTRY[ph], [sc.rule.ptr])


def play(ctx, sc, cls=Play, prepare=None, recs=(), before=None, tweak=None):
    e, sts = start(ctx, sc, cls, prepare)
    e.recs = tuple(recs)
    if tweak:
        tweak(e)
    for ph in sc.phases[:-1]:
        sts = phase(e, sts, sc, ph)
    if before:
        for s in sts:
            before(e, s)
    e.pre = list(sts)
    e.stops0 = list(e.stops)
    e.stops = []
    fin = phase(e, sts, sc, sc.phases[-1])
    return Result(sc, e, fin, e.stops)
