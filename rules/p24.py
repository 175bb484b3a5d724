"""P24: variables resolve to their nearest definition.  Abstract scripts that define one variable in every combination of enclosing scripts, in every
documented form, are played through the real initialisation; then the variable is looked up in every script through every lookup function."""
import itertools
from sa.vars import *
from sa.par import results
from sa.bytes import Bytes, B, txt
from sa.absint import State

TECHNIQUE = "abstract interpretation of LLVM IR over abstract syntax trees with definitions and lookups, compared with the documented scoping"
LEVEL_NOTE = ("three nested scripts (and two siblings), each with no, a plain, a parent or a root definition, by set or let, an explicit assignment or an unset in any of them, "
              "with and without a process variable; lookups through ${}, the general lookup, and the one used for records. One variable name; values are opaque texts, or empty.")

UN = ["U0", "U1", "U2"]


class Model:
    """documented scoping"""

    def __init__(self, os):
        self.env = {u: {} for u in UN + ["U3"]}
        self.up = {"U0": None, "U1": "U0", "U2": "U1", "U3": "U0"}
        self.os = dict(os)

    def define(self, unit, how, v, name="X"):
        u = {"here": unit, "root": "U0", "parent": self.up[unit]}[how]
        self.env[u][name] = v

    def unset(self, unit, name="X"):
        self.env[unit].pop(name, None)

    def get(self, unit, name="X"):
        while unit:
            if name in self.env[unit]:
                return self.env[unit][name]
            unit = self.up[unit]
        return self.os.get(name)


def lookup(e, s, how, n):
    """[(state, text)] of looking X up from a node"""
    if how == "${X}":
        return e.evaluate([s], n)
    return [(s2, e.shown(s2, v)) for s2, v in e.call_fn(s, {"node_env_get": "node_env_get", "record check": "unit_env_get"}[how], [n.ptr, e.const("X")])]


HOWS = ("${X}", "node_env_get", "record check")


def tree(defs, kind, sibling=False, value="v", within=False):
    """scripts U0 > U1 > U2 (and U3 next to U1); defs[k] is the definition form of script k, `within` a rule around it"""
    ms = []
    levels = []
    for k, d in enumerate(defs):
        ch = []
        if d:
            ch.append(N(kind, kind, key(d), V("%s%d" % (value, k) if value else "")))
            if within:
                ch = [N(within, within, *([V("1")] if within == "if" else []), *ch)]
        levels.append(ch)
    probes = {}
    for k in range(3):
        probes[UN[k]] = [ref("X"), N("run", "run", bag("exec", ref("X")))]
    if sibling:
        p3 = [ref("X")]
        levels[0].append(None)
        levels[0].append(script("U3", *p3))
        probes["U3"] = p3
    for k in range(3):
        levels[k] += [probes[UN[k]][0]]
    root = nested(*levels)
    return root, {u: p[0] for u, p in probes.items()}


def answers(e, sts, probes, want, label, found):
    for u, n in sorted(probes.items()):
        for how in HOWS:
            nxt = []
            for s in sts:
                rs = lookup(e, s, how, n)
                if not rs:
                    found.append((label, "looking the variable up in script %s (%s) does not return" % (u[1:], how)))
                for s2, v in rs:
                    nxt.append(s2)
                    if v != want[u] and not (how == "${X}" and want[u] is None and v == ""):
                        found.append((label, "in script %s %s yields %s instead of %s" % (u[1:], how, show(v), show(want[u]))))
            sts = nxt
    return sts


def show(v):
    return "nothing" if v is None else "'%s'" % v.replace("\1", "|")


def case_defs(ctx, kind, defs, os, sibling, value, within=False):
    e = Vars(ctx)
    e.os = os
    root, probes = tree(defs, kind, sibling, value, within)
    label = "%s in scripts %s%s%s" % (kind, ", ".join("%d: %s" % (k, d) for k, d in enumerate(defs) if d) or "none", " with an included sibling" if sibling else "",
                                      ", process variable set" if os else "") + ("" if value else ", empty values") + (", inside " + within if within else "")
    m = Model(os)
    for k, d in enumerate(defs):
        if d:
            m.define(UN[k], d, "%s%d" % (value, k) if value else "")
    sts = e.bind([e.start(root)], root)
    sts = e.chain(sts, "node_init", [root.ptr])
    found = []
    if not sts:
        found.append((label, "the script is not initialised"))
    answers(e, sts, probes, {u: m.get(u) for u in probes}, label, found)
    return label, found, len(probes) * len(HOWS)


def case_assign(ctx, defs, who, unset, os):
    """an assignment made by a rule of script `who`, or an unset there"""
    e = Vars(ctx)
    e.os = os
    root, probes = tree(defs, "set", True)
    m = Model(os)
    for k, d in enumerate(defs):
        if d:
            m.define(UN[k], d, "v%d" % k)
    sts = e.bind([e.start(root)], root)
    sts = e.chain(sts, "node_init", [root.ptr])
    n = probes[who]
    label = "%s in script %s, definitions in %s" % ("unset" if unset else "assignment", who[1:], ", ".join("%d: %s" % (k, d) for k, d in enumerate(defs) if d) or "none")
    found = []
    # look it up once before the change
    sts = answers(e, sts, probes, {u: m.get(u) for u in probes}, label, found)
    for s in sts[:1]:
        sts = [x for x, _ in e.call_fn(s, "node_env_set", [n.ptr, e.const("X"), NULL if unset else e.const("new")])]
    if unset:
        m.unset(who)
    else:
        m.define(who, "here", "new")
    if not sts:
        found.append((label, "the assignment does not return"))
    answers(e, sts, probes, {u: m.get(u) for u in probes}, label, found)
    return label, found, len(probes) * len(HOWS)


def case_name(ctx, name, want):
    """assignment to a name with underscores; `_` alone means that no variable is set"""
    e = Vars(ctx)
    p = ref(name)
    root = nested([p])
    sts = e.chain(e.bind([e.start(root)], root), "node_init", [root.ptr])
    found = []
    label = "assignment to '%s'" % name
    fin = [r for s in sts for r, _ in e.call_fn(s, "node_env_set", [p.ptr, e.const(name), e.const("new")])]
    if not fin:
        found.append((label, "does not return"))
    for _, v in e.evaluate(fin, p):
        if (v or None) != want:
            found.append((label, "evaluates to %s instead of %s" % (show(v), show(want))))
    return label, found, 1


def case_default(ctx, defined, os):
    e = Vars(ctx)
    e.os = os
    p = ref("X", V("other"))
    ch = [N("set", "set", V("X"), V(defined))] if defined is not None else []
    root = nested(ch, [p])
    label = "default value, variable %s%s" % ("undefined" if defined is None else "defined as '%s'" % defined, ", process variable set" if os else "")
    want = defined if defined is not None else os.get("X", "other")
    sts = e.chain(e.bind([e.start(root)], root), "node_init", [root.ptr])
    found = []
    for _, v in e.evaluate(sts, p):
        if v != want:
            found.append((label, "evaluates to %s instead of %s" % (show(v), show(want))))
    return label, found, 1


def case_again(ctx, levels, label, want):
    """several definitions; want: text seen at the innermost script"""
    e = Vars(ctx)
    p = ref("X")
    root = nested(*[[N(k, k, key(h), *[ref("X") if v == "$" else N("$", "..${", V("X")) if v == ".." else V(v) for v in vs]) for k, h, vs in lv] + ([p] if i == len(levels) - 1 else [])
                    for i, lv in enumerate(levels)])
    sts = e.chain(e.bind([e.start(root)], root), "node_init", [root.ptr])
    found = []
    for k in range(2):
        rs = e.evaluate(sts, p)
        if not rs:
            found.append((label, "the variable cannot be evaluated"))
        for _, v in rs:
            if v != want:
                found.append((label, "evaluates to %s instead of %s" % (show(v), show(want))))
        sts = [s for s, _ in rs]
    return label, found, 2


def case_env(ctx, how, where):
    """env {..}: the process environment at setup"""
    e = Vars(ctx)
    e.os = {"Y": "before"} if where else {}
    lv = [[], [], []]
    lv[where] = [N("env", "env", key(how, "Y"), V("val"))]
    root = nested(*lv)
    sts = e.chain(e.bind([e.start(root)], root), "node_init", [root.ptr])
    label = "env in script %d" % where if how == "here" else "env for %s in script %d" % (how, where)
    found = []
    for s in sts:
        if any(x[:2] == ("setenv", "Y") for x in s.q):
            found.append((label, "the environment is changed before setup"))
    sts = e.chain(sts, "node_setup", [root.ptr])
    if not sts:
        found.append((label, "the setup does not finish"))
    for s in sts:
        got = e.shown(s, s.mem.get((("V", "env"), "Y")))
        if got != "val":
            found.append((label, "the process environment has %s instead of 'val'" % show(got)))
    return label, found, 1


def case_meta(ctx, where):
    """meta { let {..} }: an ordinary variable, without prefix"""
    e = Vars(ctx)
    lv = [[], [], []]
    p = [ref("X") for _ in range(3)]
    lv[where] = [N("meta", "meta", bag("let", V("X"), V("val")))]
    for k in range(3):
        lv[k].append(p[k])
    root = nested(*lv)
    sts = e.chain(e.bind([e.start(root)], root), "node_init", [root.ptr])
    label = "meta let in script %d" % where
    found = []
    for k in range(3):
        want = "val" if k >= where else None
        for _, v in e.evaluate(sts, p[k]):
            if (v or None) != want:
                found.append((label, "in script %d evaluates to %s instead of %s" % (k, show(v), show(want))))
    return label, found, 3


class Meta(Bytes):
    """the definition part of meta, byte by byte"""
    def lost(self, st, inst, why):
        pass

    def inline(self, fn, inst, st):
        return fn.name not in self.handlers and not self.model.noreturn(fn.name) and bool(fn.file)


def b_value(e, st, inst, args):
    return [(e.get_cell(st, args[0], "node", "value"), st)]


def b_setvar(e, st, inst, args):
    st.q += (("setvar", e.get(st, args[1]), None if args[2] == NULL else e.get(st, args[2])),)
    return [(NULL, st)]


Meta.handlers = dict(Bytes.handlers, node_value=b_value, node_env_set=b_setvar)


def case_entry(ctx, name, values, want, value):
    """meta { name values.. } sets META_NAME to the values joined by a space"""
    e = Meta(ctx)
    st = State()
    st.q = ()
    n, ent = ("p", ("h", "META"), 0), ("p", ("h", "ENTRY"), 0)
    kids = [("p", ("h", "VALUE%d" % k), 0) for k in range(len(values))]
    for p, c in ((n, ent), (ent, kids[0] if kids else NULL)):
        e.set_cell(st, p, "node", "child", c)
    for k, p in enumerate([n, ent] + kids):
        e.set_cell(st, p, "node", "next", kids[k - 1] if 2 <= k <= len(kids) else NULL)
        e.set_cell(st, p, "node", "type", ("i", 0x200 if p == ent else 1))
    e.set_cell(st, ent, "node", "value", e.new_text(st, "name", name))
    for k, p in enumerate(kids):
        e.set_cell(st, p, "node", "value", e.new_text(st, "v%d" % k, values[k]))
    label = "meta entry %s with %d value%s" % (bytes(b[1] for b in name).decode(), len(values), "" if len(values) == 1 else "s")
    found = []
    fin = []
    for s, _ in e.call_fn(st, "node_meta_setup", [n]):
        init = e.get_cell(s, n, "node", "init")
        if init and init[0] == "fn":
            fin += [x for x, _ in e.call_fn(s, init[1], [n])]
    if not fin:
        found.append((label, "its initialisation does not return"))
    for s in fin:
        got = [x[1:] for x in s.q if x[0] == "setvar"]
        if got != [(want, value)]:
            found.append((label, "sets %s" % (", ".join("%s to %s" % tuple("".join(chr(b[1]) if b[0] == "i" else "?" for b in t) if t is not None else "nothing" for t in g) for g in got)
                                              or "no variable")))
    return label, found, 1




def cases(ctx):
    SP = (("i", 32),)
    for nm in ("name", "A", "long_Name-9"):
        for vs in ((), ("p",), ("p", "q"), ("p", "q", "r")):
            vals = [tuple(B("%s%d" % (v, i)) for i in range(2)) for v in vs]
            joined = ()
            for k, v in enumerate(vals):
                joined += (SP if k else ()) + v
            yield case_entry, (txt(nm), vals, txt("META_" + nm.upper()), joined)
    forms = [(None, "here", "root"), (None, "here", "parent", "root"), (None, "here", "parent", "root")]
    for kind in ("set", "let"):
        for defs in itertools.product(*forms):
            for os in ({}, {"X": "proc"}):
                if kind == "let" and os and ctx.tier == "quick":
                    continue
                yield case_defs, (kind, defs, os, kind == "set", "v")
    for defs in itertools.product(*forms):
        for within in ("if", "in-sources"):
            yield case_defs, ("set", defs, {}, False, "v", within)
    for nm, want in (("_X", "new"), ("X_", "new"), ("__", "new"), ("_", None)):
        yield case_name, (nm, want)
    for defs in itertools.product((None, "here"), repeat=3):
        yield case_defs, ("set", defs, {"X": "proc"}, True, "")
    for defs in itertools.product((None, "here"), repeat=3):
        for who in UN:
            for unset in (False, True):
                for os in ({}, {"X": "proc"}):
                    yield case_assign, (defs, who, unset, os)
    for defs in ((None, "parent", None), (None, None, "parent"), ("here", "parent", None), (None, "root", "here"), (None, None, "root")):
        for who in ("U0", "U1", "U2"):
            yield case_assign, (defs, who, True, {})
    for d in (None, "", "val"):
        for os in ({}, {"X": "proc"}, {"X": ""}):
            yield case_default, (d, os)
    A = lambda kind, how, *vs: (kind, how, vs)
    for k in ("set", "let"):
        yield case_again, ([[A(k, "here", "a"), A(k, "here", "b")]], "%s twice in one script" % k, "b")
        yield case_again, ([[A(k, "here", "a"), A(k, "here", "$", "b")]], "%s extends the earlier value of the same script" % k, "\1a\1b")
        yield case_again, ([[A(k, "here", "a"), A(k, "here", "$", "b"), A(k, "here", "$", "c")]], "%s extends twice" % k, "\1a\1b\1c")
        yield case_again, ([[A(k, "here", "a")], [A(k, "here", "$", "b")]], "%s extends the value of the outer script" % k, "\1a\1b")
        yield case_again, ([[A(k, "here", "a")], [A(k, "here", "$", "b")], [A(k, "here", "$", "c")]], "%s extends through three scripts" % k, "\1a\1b\1c")
        yield case_again, ([[A(k, "here", "a")], [A(k, "parent", "$", "b")]], "%s extends the parent's value in place" % k, "\1a\1b")
        yield case_again, ([[A(k, "here", "a")], [], [A(k, "root", "b")]], "%s replaces the root's value" % k, "b")
    for where in range(3):
        yield case_env, ("here", where)
        yield case_meta, (where,)
        for how in (["parent"] if where else []) + ["root"]:
            yield case_env, (how, where)


def run(ctx):
    ctx.rule("scope", "a lookup yields the definition of the innermost enclosing script that has one, then of the scripts around it, then the process environment, "
             "and the default only if there is none")
    todo = list(cases(ctx))
    out = results(lambda c: c[0](ctx, *c[1]), todo)
    fn = {"case_assign": "node_env_set", "case_name": "node_env_set", "case_env": "node_set_setup", "case_meta": "node_meta_setup", "case_entry": "node_meta_setup"}
    n = 0
    for (f, a), (label, found, k) in zip(todo, out):
        n += k
        loc = ctx.m.fn(fn.get(f.__name__, "node_env_get")).loc()
        seen = set()
        for l, w in found:
            if "'?" in w:
                ctx.notes.append("%s: %s: undecided" % (l, w))
            elif w not in seen:
                seen.add(w)
                ctx.ob("scope", label, False, w, loc)
        if not seen:
            ctx.ob("scope", label, True, "%d lookups" % k, loc)
    ctx.count("lookups", n)
    ctx.require(len(todo), 100, "scripts")
