"""P20: directives.  The parser action that classifies a rule keyword is analysed with each documented keyword as a constant; the
binding function is analysed for each resulting kind, and the set of actions it leaves in the node is compared with the documented one."""
from sa.lib import *

TECHNIQUE = "path-sensitive constant-scenario analysis of LLVM IR (each documented keyword through classification and binding)"
LEVEL_NOTE = ("Every documented directive keyword, with the documented prefixes, through the classification and the binding code on all paths. "
              "The list of directives and their phases is taken from the documentation (docs/, README) and fixed in the rule.")

ALL = ("value_get", "init", "setup", "build", "post_build")
# directive: (all of these, one of these, none of these)
WANT = {
    "$": ({"value_get"}, None, {"build"}), "@": ({"value_get"}, None, {"build"}), "@@": ({"value_get"}, None, {"build"}),
    "^": ({"value_get"}, None, set()), "%": ({"value_get"}, None, set()),
    "S": ({"value_get"}, None, set()), "C": ({"value_get"}, None, set()), "SS": ({"value_get"}, None, set()), "CC": ({"value_get"}, None, set()),
    "set": ({"init", "value_get"}, None, set()), "let": ({"init", "setup", "build", "value_get"}, None, set()),
    "env": ({"setup", "value_get"}, None, set()),
    "check": ({"init"}, None, set()), "include": ({"init"}, None, set()), "if": ({"init"}, None, set()),
    "meta": ({"init"}, None, set()), "foreach": ({"init", "setup"}, None, set()), "in-sources": ({"init"}, None, set()),
    "macro": ({"init"}, None, set()), "call": ({"init"}, None, set()),
    "library": ({"init", "value_get"}, None, set()),
    "run": ({"setup", "build"}, None, {"post_build"}),
    "cc": ({"setup", "build"}, None, {"post_build"}), "cxx": ({"setup", "build"}, None, {"post_build"}),
    "configure": ({"setup", "build"}, None, {"post_build"}),
    "error": (set(), {"init", "setup", "build"}, set()),
    "echo": (set(), {"init", "setup", "build"}, {"post_build"}),
    "option": (set(), None, {"build", "post_build"}),
}
ON_INSTALL = {"run-on-install": ({"post_build"}, None, {"build", "init"}), "install": ({"post_build"}, None, {"build", "init", "setup"})}
OFF_INSTALL = {"run-on-install": (set(), None, {"init", "setup", "build", "post_build"}), "install": (set(), None, {"init", "setup", "build", "post_build"})}
GROUPS = [{"$", "@", "@@"}, {"set", "let", "env"}, {"run", "run-on-install"}, {"cc", "cxx"}, {"S", "C", "SS", "CC"}]
SECTIONS = {"run": {"exec", "shell", "consumes", "produces", "always"}, "run-on-install": {"exec", "shell", "consumes", "produces"},
            "cc": {"objects", "consumes"}, "cxx": {"objects", "consumes"}, "if": {"else", "or", "and", "defined", "eq", "prefix", "contains"},
            "set": {"parent", "root"}, "let": {"parent", "root"}, "library": {"parent", "root"}, "meta": {"let"}}
NOT_DIRECTIVES = ["consumes", "produces", "exec", "shell", "objects", "always", "else", "root", "parent", "zzz"]


class Classify(Rule):
    max_states = 400
    widen_cursor = False
    handlers = STRINGS

    def on_return(self, st, inst, val):
        t = self.get_cell(st, S("KEY"), "node", "type")
        f = self.get_cell(st, S("KEY"), "node", "flags")
        self.out.add((t, f))


def classify(ctx, fn, text):
    e = Classify(ctx)
    e.out = set()
    p = const_text(ctx, "key", text)

    def setup(st):
        for s in ("YY", "KEY"):
            st.facts[s] = (None, None, frozenset([0]))
        e.set_cell(st, S("KEY"), "node", "value", p)
        e.set_cell(st, S("KEY"), "node", "flags", NULL)
    try:
        e.run(fn, [S("YY"), S("KEY")], setup=setup)
    except AnalysisBroken:
        return None
    return e.out


def classifier(ctx):
    """the parser action called with a rule keyword node that gives the node its kind"""
    cands = set()
    for f in ctx.m.defined():
        if not f.name.startswith("yy_"):
            continue
        for i in f.calls():
            if isinstance(i.callee, Function) and not i.callee.decl and not i.callee.name.startswith("yy") and len(i.ops) == 2:
                cands.add(i.callee.name)
    out = []
    for c in sorted(cands):
        own = own_functions(ctx, c)
        if not any(i.op == "store" and ctx.model.ptr_field(i.ops[1]) == "node.type" for o in own for i in ctx.m.functions[o].insts()):
            continue
        r = classify(ctx, ctx.m.fn(c), "foreach")
        if r and all(t is not None for t, _ in r):
            out.append(ctx.m.fn(c))
    return out


class Bind(Rule):
    max_states = 60
    widen_cursor = False

    def inline(self, fn, inst, st):
        if Rule.inline(self, fn, inst, st):
            return True
        return bool(inst.ops) and self.val(st, inst.ops[0]) == S("N") and fn.name in self.binders

    def m_find(self, st, inst, args):
        if args and args[0] == S("N"):
            if self.in_sources:
                return [(S("PARENT"), st)]
            return [(NULL, st)]
        return None

    def on_return(self, st, inst, val):
        if self.nonzero(st, val) is True:
            self.rcs.add("error")
            return
        acts = set()
        for a in ALL:
            v = self.get_cell(st, S("N"), "node", a)
            if v is None or (v[0] != "fn" and self.nonzero(st, v) is None):
                if v is not None:
                    acts.add("?" + a)
                continue
            if v[0] == "fn":
                acts.add(a)
                self.fns.setdefault(a, set()).add(v[1])
        self.outs.add(frozenset(acts))
        f = self.get_cell(st, S("N"), "node", "flags")
        self.flags.add(f)


Bind.handlers = dict(STRINGS, node_find_parent_of_type=Bind.m_find)


def bind(ctx, binders, fn, directive, typ, install, in_sources=False):
    e = Bind(ctx)
    e.binders = binders
    e.in_sources = in_sources
    e.outs, e.fns, e.flags, e.rcs = set(), {}, set(), set()
    p = const_text(ctx, "key", directive)

    def setup(st):
        for s in ("N", "PARENT", "CTX"):
            st.facts[s] = (None, None, frozenset([0]))
        e.set_cell(st, S("N"), "node", "value", p)
        e.set_cell(st, S("N"), "node", "flags", NULL)
        e.set_cell(st, S("N"), "node", "type", typ)
        e.set_cell(st, S("N"), "node", "ctx", S("CTX"))
        e.set_cell(st, S("N"), "node", "parent", S("PARENT"))
        for a in ALL:
            e.set_cell(st, S("N"), "node", a, NULL)
        g = ("p", ("g", "g_env"), 0)
        st.mem[(("g", "g_env"), e.offset("env", "install.enabled"))] = ("i", install)
        st.fields[(("g", "g_env"), e.offset("env", "install.enabled"))] = ctx.m.field("env", e.offset("env", "install.enabled"))
        off = e.offset("env", "install.prefix_dir")
        st.mem[(("g", "g_env"), off)] = S("PFX") if install else NULL
        st.fields[(("g", "g_env"), off)] = ctx.m.field("env", off)
        st.facts["PFX"] = (None, None, frozenset([0]))
    e.run(fn, [S("N")], setup=setup)
    return e


def run(ctx):
    ctx.rule("kind", "each documented directive keyword, plain or with a documented prefix, is classified as a rule kind of its own "
             "(not as plain text); '!' sets the negation flag and changes nothing else; section names are not directives")
    ctx.rule("actions", "binding a node of the kind installs the actions the directive needs in its phases, and no action in phases "
             "in which the directive must not act")
    ctx.rule("sections", "each documented section keyword of a directive is recognised by its handler")
    cl = classifier(ctx)
    if not cl:
        raise AnalysisBroken("no parser action that classifies rule keywords was found")
    fn = cl[0]
    plain = classify(ctx, fn, "zzz")
    if plain is None or len(plain) != 1:
        raise AnalysisBroken("classification of an unknown keyword is not constant")
    bag = next(iter(plain))
    kinds = {}
    neg = None
    ds = list(WANT) + list(ON_INSTALL)
    for d in ds:
        r = classify(ctx, fn, d)
        if r is None or len(r) != 1 or next(iter(r))[0][0] != "i":
            ctx.ob("kind", d, False, "classified ambiguously: %s" % (r,), fn.loc())
            continue
        t, f = next(iter(r))
        kinds[d] = t
        ok = t != bag[0]
        ctx.ob("kind", d, ok, "" if ok else "documented directive is treated as plain text", fn.loc())
        if f != NULL:
            ctx.ob("kind", d + " flags", False, "flags of a plain directive are %s" % (f,), fn.loc())
        for pfx in ("..", "!", "..!"):
            r2 = classify(ctx, fn, pfx + d)
            t2, f2 = next(iter(r2)) if r2 and len(r2) == 1 else (None, None)
            ok = t2 == t
            want = "no flag"
            if "!" in pfx:
                if f2 and f2[0] == "i" and f2[1] and neg is None:
                    neg = f2
                ok = ok and f2 == neg and neg is not None
            else:
                ok = ok and f2 == NULL
            ctx.ob("kind", pfx + d, ok, "" if ok else "kind %s flags %s, but %s is kind %s" % (t2, f2, d, t), fn.loc())
    r2 = classify(ctx, fn, "!zzz")
    t2, f2 = next(iter(r2)) if r2 and len(r2) == 1 else (None, None)
    ctx.ob("kind", "!section", t2 == bag[0] and f2 == neg, "" if t2 == bag[0] and f2 == neg else "a negated condition loses its negation", fn.loc())
    for d in NOT_DIRECTIVES:
        r = classify(ctx, fn, d)
        ok = r == plain
        ctx.ob("kind", "section " + d, ok, "" if ok else "classified as a directive", fn.loc())
    # distinct kinds
    for a in ds:
        for b in ds:
            if a < b and a in kinds and b in kinds and not any(a in g and b in g for g in GROUPS):
                if kinds[a] == kinds[b]:
                    ctx.ob("kind", "%s/%s" % (a, b), False, "both keywords have the same kind", fn.loc())
    ctx.require(len(kinds), 25, "directives classified")

    # binding
    bfn = ctx.m.fn("node_bind")
    binders = set()
    for f in own_functions(ctx, "node_bind"):
        for i in ctx.m.functions[f].calls():
            for t in ctx.model.targets(i) if isinstance(i.callee, Function) else set():
                tf = ctx.m.functions.get(t)
                if tf is not None and not tf.decl and len(tf.args) == 1:
                    binders.add(t)
            if not isinstance(i.callee, Function):
                binders |= {t for t in ctx.m.address_taken if t.endswith("_setup")}
    fnsets = {}
    for install in (0, 1):
        for d in ds:
            if d not in kinds:
                continue
            w = WANT.get(d) or (ON_INSTALL if install else OFF_INSTALL)[d]
            e = bind(ctx, binders, bfn, d, kinds[d], install)
            ctx.count("bindings analysed")
            sub = "%s install=%d" % (d, install)
            if not e.outs:
                ctx.ob("actions", sub, False, "no path binds the node", bfn.loc())
                continue
            bad = []
            for o in e.outs:
                acts = {x for x in o if not x.startswith("?")}
                unk = {x[1:] for x in o if x.startswith("?")}
                miss = w[0] - acts - unk
                if miss:
                    bad.append("missing action: " + ", ".join(sorted(miss)))
                if w[1] and not (w[1] & (acts | unk)):
                    bad.append("none of the actions %s is installed" % ", ".join(sorted(w[1])))
                extra = w[2] & acts
                if extra:
                    bad.append("acts in a phase it must not act in: " + ", ".join(sorted(extra)))
            ctx.ob("actions", sub, not bad, "; ".join(sorted(set(bad))), bfn.loc())
            if install:
                fnsets[d] = {x for v in e.fns.values() for x in v}
    # different kinds have different handlers
    for a in fnsets:
        for b in fnsets:
            if a < b and fnsets[a] and fnsets[a] == fnsets[b] and not any(a in g and b in g for g in GROUPS):
                ctx.ob("actions", "%s/%s" % (a, b), False, "both directives are bound to the same handler", bfn.loc())
    # where commands run below in-sources
    src = {}
    for d in ("run", "@", "@@"):
        if d in kinds:
            o = bind(ctx, binders, bfn, d, kinds[d], 1, False).flags
            i = bind(ctx, binders, bfn, d, kinds[d], 1, True).flags
            src[d] = (o, i)
            ok = not (o & i) and len(i) == 1
            ctx.ob("actions", d + " in-sources", ok, "" if ok else "the directory flags are the same inside and outside in-sources: %s" % (i,), bfn.loc())
    # sections
    for d, words in SECTIONS.items():
        fns = fnsets.get(d, set())
        texts = set()
        seen = set()
        work = list(fns)
        while work:
            n = work.pop()
            for o in own_functions(ctx, n):
                if o in seen:
                    continue
                seen.add(o)
                texts |= const_strings(ctx, ctx.m.functions[o])
                work.extend(x for x in callback_ptrs(ctx.m.functions[o])
                            if not ctx.m.functions[x].decl and ctx.model.should_inline(ctx.m.functions[x]) and x not in seen)
        for wd in sorted(words):
            ok = wd in texts
            ctx.ob("sections", "%s %s" % (d, wd), ok, "" if ok else "section keyword is not looked for by the handler", "")
    ctx.assume("the documented set of directives is the one listed in rules/p20.py")
