"""P38: text-valued helper rules and variables.  The value functions of S, SS, C, CC, %, ^ and set are interpreted byte by byte on children whose values consist
of arbitrary bytes, and the text they give is compared with the documented one."""
from sa.bytes import *
from rules.p36 import h_shift, h_pop, h_strdup, h_strndup, xs_clear, const, word

TECHNIQUE = "abstract interpretation of LLVM IR with byte-accurate texts of symbolic bytes: value of each helper rule against the documented text"
LEVEL_NOTE = ("All paths of the value functions of S, SS, C, CC, %, ^, set, let and env for none to four arguments: words, lists, empty and undefined values, slashes and dots in each "
              "position, inside and outside foreach; members of a variable plain or spread, in quotes or with escapes. Normalising a path against a directory is taken as an operation of its own (P31); names that begin with a dot, empty members of variables and "
              "lists given to % and ^ are not documented and not judged.")

SL, DOT, LIST = ("i", 47), ("i", 46), ("i", 1)
DIRS = {("root", "dir"): "rootdir", ("root", "cache_dir"): "rootcache", ("unit", "dir"): "unitdir", ("unit", "cache_dir"): "unitcache"}


class Text(Bytes):
    special = frozenset([0, 1, 2, 10, 32, 46, 47])
    max_steps = 2000000
    bad = None

    def lost(self, st, inst, why):
        self.bad.append((why, inst, st))

    def inline(self, fn, inst, st):
        return not self.model.noreturn(fn.name) and fn.file and not fn.file.endswith("log.c") and fn.name not in self.handlers


def h_value(e, st, inst, args):
    o = e.obj_of(args[0])
    if o is None or o[0] not in e.values:
        e.lost(st, inst, "the value of something that is not a child is used")
        return []
    v = e.values[o[0]]
    return [(NULL if v is None else e.new_text(st, "child" + o[0][1], v), st)]


def h_unit(k):
    return lambda e, st, inst, args: [(("p", ("h", k), 0), st)]


def h_norm(pos):
    def h(e, st, inst, args):
        t = e.get(st, args[pos])
        d = [n for n in DIRS.values() if args[pos + 1] == S("DIR" + n)]
        if t is None or not d:
            e.lost(st, inst, "a path is normalised against an unknown directory")
            return []
        e.dups = getattr(e, "dups", 0) + 1
        return [(e.new_text(st, "norm%d" % e.dups, (B("in " + d[0]),) + t), st)]
    return h


Text.handlers = {
    "node_value": h_value, "unit_root": h_unit("root"), "unit_peek": h_unit("unit"), "path_normalize_cwd": h_norm(0), "path_normalize_cwd_pool": h_norm(0),
    "xstr_clear": xs_clear, "xstr_shift": h_shift, "xstr_pop": h_pop, "free": const(TOP), "xstr_destroy": const(TOP),
    "strdup": h_strdup(0), "xstrdup": h_strdup(0), "strndup": h_strndup(0), "xstrndup": h_strndup(0), "pool_strdup": h_strdup(1),
    "pool_strndup": h_strndup(1)}


def slim(t):
    """a path with runs of slashes taken together and without one at the end"""
    out = []
    for b in t:
        if not (b == SL and out and out[-1] == SL):
            out.append(b)
    return tuple(out[:-1] if len(out) > 1 and out[-1] == SL else out)


def path_of(vals):
    parts = []
    for v in vals:
        if v is None:
            continue
        if v[:1] == (LIST,):
            cur = []
            for b in v[1:] + (LIST,):
                if b == LIST:
                    if cur:
                        parts.append(tuple(cur))
                    cur = []
                else:
                    cur.append(b)
        elif v:
            parts.append(v)
    out = ()
    for p in parts:
        out += ((SL,) if out else ()) + p
    return slim(out or (DOT,))


def ext_of(v, ext):
    k = len(v) - 1
    while k >= 0 and v[k] not in (SL, DOT):
        k -= 1
    if k >= 0 and v[k] == DOT:
        v = v[:k]
    return v + (ext or ())


def cases():
    a, b, c, d = word(4, "a")
    w, x, y = word(2, "w"), word(1, "x"), word(3, "y")
    out = []
    for rule, dr in (("S", ("root", "dir")), ("SS", ("unit", "dir")), ("C", ("root", "cache_dir")), ("CC", ("unit", "cache_dir"))):
        for label, vals in (("no argument", []), ("one word", [w]), ("a path", [w + (SL,) + x]), ("two words", [w, x]), ("three words", [w, x, y]),
                            ("a word that ends with '/' and another", [w + (SL,), x]), ("a word and one that begins with '/'", [w, (SL,) + x]),
                            ("a list", [(LIST,) + w + (LIST,) + x]), ("a word and a list", [y, (LIST,) + w + (LIST,) + x]),
                            ("a list and a word", [(LIST,) + w + (LIST,) + x, y]), ("an empty value", [()]), ("a word and an empty value", [w, ()]),
                            ("an empty value and a word", [(), w]), ("an undefined value and a word", [None, w]), ("a word, an undefined value and a word", [w, None, x]),
                            ("an empty list", [(LIST,)]), ("four words", [w, x, y, (a,)]), ("a word with a dot", [w + (DOT,) + x])):
            out.append((rule, label, vals, dr, path_of(vals)))
    for label, v in (("no extension", w), ("an extension", w + (DOT,) + x), ("two dots together", w + (DOT, DOT) + x), ("two dots", w + (DOT,) + x + (DOT,) + y), ("a directory", w + (SL,) + x + (DOT,) + y),
                     ("a dot in the directory only", w + (DOT,) + x + (SL,) + y), ("dots in directory and name", w + (DOT,) + x + (SL,) + y + (DOT,) + (a,)),
                     ("'..' in front", (DOT, DOT, SL) + w + (DOT,) + x), ("'..' in front, no extension", (DOT, DOT, SL) + w), ("'./' in front, no extension", (DOT, SL) + w),
                     ("a dot at the end", w + (DOT,)), ("an absolute path", (SL,) + w + (SL,) + x + (DOT,) + y), ("a dot in a directory of several", w + (SL,) + x + (DOT,) + y + (SL,) + (a,)),
                     ("empty", ())):
        for el, ex in (("", False), (", new extension", (DOT,) + (c, d)), (", new ending without dot", (c,)), (", empty new extension", ()), (", undefined new extension", None)):
            out.append(("%", label + el, [v] if ex is False else [v, ex], None, ext_of(v, ex or ())))
    for label, vals in (("one", [w]), ("two", [w, x]), ("three", [w, x, y]), ("an empty value between", [w, (), x]), ("an undefined value between", [w, None, x]),
                        ("slashes and dots", [w + (SL,), (DOT,) + x, (SL,) + y]), ("four", [w, x, y, (a,)]), ("only empty", [()])):
        out.append(("^", label, vals, None, tuple(z for v in vals if v for z in v)))
    return out


def items(t):
    """items of a list text, None when the text is no list"""
    if t[:1] != (LIST,):
        return None
    out, cur = [], []
    for b in t[1:] + (LIST,):
        if b == LIST:
            out.append(tuple(cur))
            cur = []
        else:
            cur.append(b)
    return out


def set_cases():
    """(label, members of the set, expected text or list)"""
    w, x, y, z = word(2, "w"), word(1, "x"), word(2, "y"), word(1, "z")
    li = (LIST,) + w + (LIST,) + x
    sp = ("i", 32)
    out = []
    def add(label, members, want):
        out.append((label, [("plain", m) if not isinstance(m, list) else ("spread", m[0]) for m in members], want))
    add("no value", [], ())
    add("one value", [w], w)
    add("one value that is undefined", [None], ())
    add("one value with blanks", [w + (sp,) + x], w + (sp,) + x)
    add("one value that is a list", [li], li)
    add("two values", [w, x], [w, x])
    add("three values", [w, x, y], [w, x, y])
    add("two values with blanks", [w + (sp,) + x, y], [w + (sp,) + x, y])
    add("a value and a list", [y, li], [y, w, x])
    add("a list and a value", [li, y], [w, x, y])
    add("two lists", [li, (LIST,) + y + (LIST,) + z], [w, x, y, z])
    add("a value and a spread value", [w, [x]], [w, x])
    add("a value and a spread text of two words", [w, [x + (sp,) + y]], [w, x, y])
    add("a value and a spread text with blanks around", [w, [(sp,) + x + (sp, ("i", 9)) + y + (sp,)]], [w, x, y])
    add("a spread text and a value", [[w + (sp,) + x], y], [w, x, y])
    add("a spread text alone", [[w + (sp,) + x]], [w, x])
    add("a spread list alone", [[li]], [w, x])
    add("a spread list and a value", [[li], y], [w, x, y])
    add("a spread list with blanks in an item", [[(LIST,) + w + (sp,) + x + (LIST,) + y], z], [w + (sp,) + x, y, z])
    add("a spread undefined value and a value", [[None], y], [y])
    add("two spread texts", [[w + (sp,) + x], [y + (sp,) + z]], [w, x, y, z])
    q, bs = ("i", 34), ("i", 92)
    add("a spread text with a quoted part", [w, [(q,) + x + (sp,) + y + (q, sp) + z]], [w, x + (sp,) + y, z])
    add("a spread text with an escaped blank", [w, [x + (bs, sp) + y + (sp,) + z]], [w, x + (sp,) + y, z])
    add("a spread text with an escaped quote", [w, [x + (bs, q) + y + (sp,) + z]], [w, x + (q,) + y, z])
    add("a spread text with a part in single quotes", [w, [x + (("i", 39),) + (sp, q) + (("i", 39),) + y]], [w, x + (sp, q) + y])
    return out


FILES = {"S": "node_dir.c", "SS": "node_dir.c", "C": "node_dir.c", "CC": "node_dir.c", "%": "node_basename.c", "^": "node_join.c"}


def shown(t):
    if t is None:
        return "unknown"
    return "'%s'" % "".join("<%s>" % b[1][2:] if b[0] == "s" else (chr(b[1]) if 32 <= b[1] < 127 else "\\%d" % b[1]) for b in t)


def getter(ctx, rule):
    return value_getter(ctx, FILES[rule][:-2] + "_setup", rule)


def value_getter(ctx, setup, rule):
    """value function that the setup of the rule chooses"""
    f = ctx.m.functions.get(setup)
    if f is None or not f.blocks:
        return []
    e = Text(ctx)
    e.bad, e.values = [], {}
    st = State()
    N = ("p", ("h", "NODE"), 0)
    st.mem[("zero", N[1])] = ("i", 1)
    e.set_cell(st, N, "node", "value", e.new_text(st, "rule", txt(rule)))
    out = [e.get_cell(s, N, "node", "value_get") for s, _ in e.call_fn(st, f.name, [N])]
    return sorted({v[1] for v in out}) if out and all(v is not None and v[0] == "fn" for v in out) else []


class SetText(Text):
    special = frozenset([0, 1, 9, 10, 11, 12, 13, 32, 34, 39, 92])

    def decide(self, st, pred, a, b):
        if pred in ("eq", "ne") and ("i", -1) in (a, b) and "p" in (a[0], b[0]):
            return pred == "ne"         # no object lies at the last address
        return super().decide(st, pred, a, b)


def set_fits(got, want):
    if got is None:
        return False
    if isinstance(want, tuple):
        return got == want
    return items(got) == want


def renamed(t):
    """the same text made of other bytes"""
    if isinstance(t, list):
        return [renamed(v) for v in t]
    return t if t is None else tuple(B("n" + b[1][2:]) if b[0] == "s" else b for b in t)


def run_set(ctx):
    """the value of set / let / env against its members"""
    vt = [("i", 1), ("i", 0x200)]
    total = 0
    for rule in ("set", "let", "env"):
        fns = value_getter(ctx, "node_set_setup", rule)
        ctx.require(len(fns), 1, "value function of %s" % rule)
        for name in fns:
            fn = ctx.m.fn(name)
            for label, members, plain in set_cases():
                for fe in (False, True):
                    want = plain
                    e = SetText(ctx)
                    e.bad, e.values = [], {}
                    e.handlers["node_find_parent_foreach"] = const(S("FOREACH") if fe else NULL)
                    st = State()
                    st.facts["FOREACH"] = (None, None, frozenset([0]))
                    N = ("p", ("h", "NODE"), 0)
                    st.mem[("zero", N[1])] = ("i", 1)
                    e.set_cell(st, N, "node", "value", e.new_text(st, "rule", txt(rule)))
                    prev, field = N, "child"
                    for k, (kind, v) in enumerate([("plain", txt("K"))] + members):
                        c = ("p", ("h", "c%d" % k), 0)
                        st.mem[("zero", c[1])] = ("i", 1)
                        e.values[c[1]] = v
                        e.set_cell(st, c, "node", "type", vt[0] if kind == "plain" else vt[1])
                        e.set_cell(st, c, "node", "value", e.new_text(st, "own%d" % k, (v or ()) if kind == "plain" else txt("..$")))
                        e.set_cell(st, prev, "node", field, c)
                        e.set_cell(st, c, "node", "parent", N)
                        prev, field = c, "next"
                    bad = {}
                    ends = e.call_fn(st, name, [N])
                    for nth in ("", " when it is asked for again"):
                        later = []
                        if nth and (fe or rule == "let"):
                            want = renamed(want)
                        for s, v in ends:
                            total += 1
                            got = e.get(s, v) if v is not None and e.obj_of(v) else None
                            if not set_fits(got, want):
                                w = shown(want) if isinstance(want, tuple) else "the list " + ", ".join(shown(t) for t in want)
                                bad.setdefault("the value is %s instead of %s%s" % (shown(got), w, nth), s)
                        if not nth:
                            if fe or rule == "let":
                                e.values = {k: renamed(v) for k, v in e.values.items()}
                            for s, _ in ends:
                                later += e.call_fn(s, name, [N])
                            first, ends = len(ends), later
                    if not ends:
                        bad["the value is never computed"] = None
                    for why, inst, s in e.bad[:2]:
                        bad.setdefault("%s (%s)" % (why, inst.loc() if inst else ""), s)
                    sub = "%s with %s%s" % (rule, label, ", inside foreach" if fe else "")
                    for w, s in list(bad.items())[:2]:
                        ctx.ob("text", sub, False, w, fn.loc(), path=s.lines() if s else [])
                    if not bad:
                        ctx.ob("text", sub, True, "%d paths" % len(ends), fn.loc())
    ctx.require(total, 100, "values of set, let and env")


def run(ctx):
    ctx.rule("text", "the value of the rule is the documented text")
    ctx.assume("normalising a path against a directory gives the path of that name seen from the directory; children have the values their own rules give")
    total = 0
    getters = ctx.model.callbacks("node.value_get")
    for rule, label, vals, dr, want in cases():
        fns = getter(ctx, rule) or sorted(n for n in getters if ctx.m.functions[n].file.endswith(FILES[rule]))
        if not fns:
            ctx.require(0, 1, "value function of %s" % rule)
        for name in fns:
            fn = ctx.m.fn(name)
            for fe in (False, True):
                e = Text(ctx)
                e.bad, e.values = [], {}
                if rule == "^":
                    e.special = frozenset([0, 1])
                e.handlers["node_find_parent_foreach"] = const(S("FOREACH") if fe else NULL)
                st = State()
                st.facts["FOREACH"] = (None, None, frozenset([0]))
                N = ("p", ("h", "NODE"), 0)
                st.mem[("zero", N[1])] = ("i", 1)
                e.set_cell(st, N, "node", "value", e.new_text(st, "rule", txt(rule)))
                prev, field = N, "child"
                for k, v in enumerate(vals):
                    c = ("p", ("h", "c%d" % k), 0)
                    st.mem[("zero", c[1])] = ("i", 1)
                    e.values[c[1]] = v
                    e.set_cell(st, prev, "node", field, c)
                    e.set_cell(st, c, "node", "parent", N)
                    prev, field = c, "next"
                for (u, m), n in DIRS.items():
                    st.facts["DIR" + n] = (None, None, frozenset([0]))
                    e.set_cell(st, ("p", ("h", u), 0), "unit", m, S("DIR" + n))
                ends = e.call_fn(st, name, [N])
                bad = {}
                full = ((B("in " + DIRS[dr]),) + want) if dr else want
                for s, v in ends:
                    total += 1
                    got = e.get(s, v) if v is not None and e.obj_of(v) else None
                    cmp_ = slim(got) if got is not None and dr else got
                    if cmp_ != full:
                        bad.setdefault("the value is %s instead of %s" % (shown(got), shown(full)), s)
                if not ends:
                    bad["the value is never computed"] = None
                for why, inst, s in e.bad[:2]:
                    bad.setdefault("%s (%s)" % (why, inst.loc() if inst else ""), s)
                sub = "%s with %s%s" % (rule, label, ", inside foreach" if fe else "")
                for w, s in list(bad.items())[:2]:
                    ctx.ob("text", sub, False, w, fn.loc(), path=s.lines() if s else [])
                if not bad:
                    ctx.ob("text", sub, True, "%d paths" % len(ends), fn.loc())
    ctx.require(total, 200, "paths of the value functions")
    run_set(ctx)
