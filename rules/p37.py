"""P37: configured files.  The configure rule is interpreted byte by byte on templates of constant and arbitrary bytes, with given values of
the variables, and the bytes of the configured file are compared with the documented replacements."""
from sa.bytes import *
from sa.bytes import m_fprintf, m_fputs, m_fputc, m_fwrite
from rules.p36 import h_shift, h_pop, h_strdup, h_strndup, xs_clear, const, word, sizes

TECHNIQUE = "abstract interpretation of LLVM IR with byte-accurate texts of symbolic bytes: output of configure against the documented replacements"
LEVEL_NOTE = ("All paths of the processing of a template for: each form of //autarkdef (bare, string, number) and @KEY@ at each place of a line, with the variable "
              "undefined, empty, one or several bytes, and a list; single '@'; lines without end; several lines; and lines with a reference just below, across and "
              "above every buffer size in the code. Keys and surrounding text are arbitrary bytes outside the syntax. '@@' is not documented and not judged.")

NL, AT, SP, QU = ("i", 10), ("i", 64), ("i", 32), ("i", 34)
LIMIT = 4
LIST = ("i", 1)
SRC = ("p", ("h", "CTXLIST"), 0)


class Conf(Bytes):
    special = frozenset([0, 1, 2, 9, 10, 11, 12, 13, 32, 34, 46, 47, 64] + list(range(48, 58)))
    max_steps = 8000000
    bad = None

    def lost(self, st, inst, why):
        self.bad.append((why, inst, st))

    def inline(self, fn, inst, st):
        return not self.model.noreturn(fn.name) and fn.file and not fn.file.endswith("log.c") and fn.name not in self.handlers


def h_open(e, st, inst, args):
    m = e.string(args[1]) or ""
    if m[:1] == "r":
        st.mem[(("D", "inpos"), 0)] = I0
        return [(("p", ("h", "IN"), 0), st)]
    if m[:1] == "w":
        st.mem[(("D", "stream"), 0)] = ("B",)
        st.mem[(("D", "pos"), 0)] = I0
        st.mem[(("D", "mode"), 0)] = ("s", "w")
        return [(("p", ("h", "OUT"), 0), st)]
    e.lost(st, inst, "a file is opened in an unexpected way")
    return []


def incoming(st):
    return st.mem.get((("D", "in"), 0), ("B",))[1:], st.mem.get((("D", "inpos"), 0), I0)[1]


def h_gets(e, st, inst, args):
    c, pos = incoming(st)
    n = e.const(args[1])
    if n is None or e.obj_of(args[0]) is None:
        e.lost(st, inst, "the template is read into a buffer of unknown size")
        return []
    out = []
    while pos < len(c) and len(out) < n - 1:
        out.append(c[pos])
        pos += 1
        if out[-1] == NL:
            break
    st.mem[(("D", "inpos"), 0)] = ("i", pos)
    if len(out) < n - 1 and (not out or out[-1] != NL):
        st.mem[(("D", "eof"), 0)] = ("i", 1)
    if not out:
        return [(NULL, st)]
    e.place(st, args[0], out)
    return [(args[0], st)]


def h_getline(e, st, inst, args):
    c, pos = incoming(st)
    out = []
    while pos < len(c):
        out.append(c[pos])
        pos += 1
        if out[-1] == NL:
            break
    st.mem[(("D", "inpos"), 0)] = ("i", pos)
    if not out or out[-1] != NL:
        st.mem[(("D", "eof"), 0)] = ("i", 1)
    if not out:
        return [(("i", -1), st)]
    e.lines_no = getattr(e, "lines_no", 0) + 1
    if e.obj_of(args[0]):
        st.mem[e.obj_of(args[0])] = e.new_text(st, "line%d" % e.lines_no, out)
    return [(("i", len(out)), st)]


def h_getc(e, st, inst, args):
    c, pos = incoming(st)
    st.mem[(("D", "inpos"), 0)] = ("i", pos + 1)
    if pos >= len(c):
        st.mem[(("D", "eof"), 0)] = ("i", 1)
        return [(("i", -1), st)]
    return [(c[pos], st)]


def h_feof(e, st, inst, args):
    return [(st.mem.get((("D", "eof"), 0), I0), st)]


def h_get(e, st, inst, args):
    k = e.get(st, args[1])
    if k is None:
        e.lost(st, inst, "the name of a variable is not known")
        return []
    v = e.vars.get(k)
    if v is None:
        return [(NULL, st)]
    return [(e.new_text(st, "val%d" % list(e.vars).index(k), v), st)]


def h_used(e, st, inst, args):
    st.q = st.q | {e.get(st, args[2])}
    return [(NULL, st)]


def h_rel(e, st, inst, args):
    e.dups = getattr(e, "dups", 0) + 1
    return [(e.new_text(st, "path%d" % e.dups, txt("t.in")), st)]


Conf.handlers = {
    "fopen": h_open, "fopen64": h_open, "fgets": h_gets, "getline": h_getline, "fgetc": h_getc, "getc": h_getc, "feof": h_feof,
    "fputs": m_fputs, "fprintf": m_fprintf, "fputc": m_fputc, "putc": m_fputc, "fwrite": m_fwrite,
    "xstr_clear": xs_clear, "xstr_shift": h_shift, "xstr_pop": h_pop,
    "strdup": h_strdup(0), "xstrdup": h_strdup(0), "strndup": h_strndup(0), "xstrndup": h_strndup(0), "pool_strdup": h_strdup(1),
    "pool_strndup": h_strndup(1),
    "node_env_get": h_get, "deps_add_env": h_used, "deps_add": const(NULL), "deps_open": const(NULL), "deps_close": const(NULL),
    "node_add_unit_deps": const(TOP), "unit_peek": const(S("UNIT")), "path_normalize_cwd": h_rel, "path_normalize": h_rel,
    "path_is_prefix_for": const(I0), "path_relativize_cwd": h_rel, "path_relativize": h_rel, "path_mkdirs_for": const(NULL),
    "stat": const(NULL), "fstat": const(NULL), "fchmod": const(NULL), "chmod": const(NULL), "fileno": const(("i", 3)), "rename": const(NULL),
    "utils_rename_file": const(NULL), "ulist_destroy_keep": const(TOP)}


DEF = txt("//autarkdef ")


def joined(v):
    """value as it is put into a text"""
    if v[:1] == (LIST,):
        return tuple(SP if x == LIST else x for x in v[1:])
    return v


def expect(text, vars):
    """documented result: list of the alternatives for each line, and the variables it depends on"""
    out, keys = [], set()
    lines, cur = [], []
    for b in text:
        cur.append(b)
        if b == NL:
            lines.append(tuple(cur))
            cur = []
    if cur:
        lines.append(tuple(cur))
    for ln in lines:
        if ln[:len(DEF)] == DEF:
            ws = [[]]
            for b in ln[len(DEF):]:
                if b in (SP, NL):
                    ws.append([])
                else:
                    ws[-1].append(b)
            key = tuple(ws[0])
            keys.add(key)
            rest = ln[len(DEF) + len(key):]
            form = rest[1:2] if rest[:1] == (SP,) else ()
            v = vars.get(key)
            head = txt("#define ") + key
            end = () if ln[-1] == NL else (NL,)
            if form == (QU,):
                out.append([head + (SP, QU) + joined(v) + (QU, NL)] if v is not None else [ln])
            elif form and form[0][0] == "i" and 48 <= form[0][1] <= 57:
                out.append([head + rest, head + rest + end] if v is not None else [ln, head + txt(" 0\n")])
            else:
                out.append([head + (NL,)] if v is not None else [ln])
            continue
        r, k = [], 0
        while k < len(ln):
            if ln[k] == AT and AT in ln[k + 1:]:
                j = ln.index(AT, k + 1)
                keys.add(ln[k + 1:ln.index(AT, k + 1)])
                r += joined(vars.get(ln[k + 1:j], ()))
                k = j + 1
            else:
                r.append(ln[k])
                k += 1
        out.append([tuple(r)])
    return out, keys


def fits(got, want):
    ends = {0}
    for alts in want:
        ends = {p + len(a) for p in ends for a in alts if got[p:p + len(a)] == a}
    return len(got) in ends


def filler(n):
    return tuple(("i", 97 + (k + k // 26) % 26) for k in range(n))


def cases(ctx, bufs):
    K, L = word(3, "k"), word(1, "l")
    a, b, c, d = word(4, "a")
    v = word(3, "v")
    values = [("undefined", None), ("empty", ()), ("one byte", v[:1]), ("text", v), ("list of two", (LIST, v[0], LIST, v[1], v[2])), ("list of one", (LIST, v[0])),
              ("text with a space", (v[0], SP, v[1]))]
    R = (AT,) + K + (AT,)
    Q = (AT,) + L + (AT,)
    out = []
    for vl, val in values:
        vs = {K: val} if val is not None else {}
        for tl, t in (("alone", R + (NL,)), ("at the start", R + (a, NL)), ("at the end", (a,) + R + (NL,)), ("inside", (a, b) + R + (c, NL)),
                      ("twice", R + R + (NL,)), ("twice with text between", (a,) + R + (b,) + R + (c, NL)), ("in a last line without end", (a,) + R),
                      ("followed by a single '@'", (a,) + R + (b, AT, c, NL)), ("followed by a single '@' that ends the file", (a,) + R + (b, AT)),
                      ("before another line", (a,) + R + (NL, b, NL)), ("and an undefined one", (a,) + R + (b,) + Q + (c, NL))):
            out.append(("@KEY@ %s, %s" % (tl, vl), t, vs))
        for fl, f in (("bare", ()), ("string", (SP, QU)), ("number", (SP, ("i", 49))), ("number zero", (SP, ("i", 48))), ("number of several digits", (SP, ("i", 57), ("i", 50)))):
            out.append(("//autarkdef %s, %s" % (fl, vl), DEF + K + f + (NL,), vs))
            out.append(("//autarkdef %s between lines, %s" % (fl, vl), (a, NL) + DEF + K + f + (NL, b, NL), vs))
    for tl, t in (("plain line", (a, b, c, NL)), ("empty line", (NL,)), ("empty file", ()), ("no line end", (a, b)), ("single '@'", (a, AT, b, NL)),
                  ("single '@' at the start", (AT, b, NL)), ("single '@' before the line end", (a, AT, NL)), ("single '@' that ends the file", (a, b, AT)),
                  ("only '@'", (AT,)), ("'@' on two lines", (a, AT, b, NL, c, AT, d, NL)), ("//autarkdef inside a line", (a,) + DEF + K + (NL,))):
        out.append((tl, t, {K: v}))
    for n in sorted(bufs):
        for m in (1, 2, 3) if ctx.tier == "thorough" else (1, 2):
            for s in ((-6, -5, -4, -3, -2, -1, 0, 1) if ctx.tier == "thorough" else (-5, -3, -2, -1, 0)):
                out.append(("@KEY@ %d bytes from the start of a line" % (n * m + s), filler(n * m + s) + R + (a, NL), {K: v}))
        f = filler(n - 1)
        out.append(("//autarkdef %d bytes from the start of a line" % len(f), f + DEF + K + (NL,), {K: v}))
        for s in (-2, -1, 0, 1):
            out.append(("line of %d bytes" % (n + s), filler(n + s - 1) + (NL, a) + R + (NL,), {K: v}))
            out.append(("file of %d bytes without line end" % (n + s), filler(n + s), {K: v}))
        out.append(("value of %d bytes" % (n + 5), (a,) + R + (b, NL), {K: filler(n + 5)}))
    return out


def shown(t):
    if t is None:
        return "unknown"
    def s(x):
        return "".join("<%s>" % b[1][2:] if b[0] == "s" else (chr(b[1]) if 32 <= b[1] < 127 else "\\%d" % b[1]) for b in x)
    return "'%s'" % s(t) if len(t) <= 60 else "'%s...%s' (%d bytes)" % (s(t[:12]), s(t[-12:]), len(t))


def run(ctx):
    ctx.rule("replaced", "the configured file is the template with @KEY@ and //autarkdef replaced as documented and every other byte unchanged")
    ctx.rule("recorded", "every variable a template refers to is recorded as a dependency of the rule")
    ctx.assume("streams deliver the bytes of the template and take the bytes written to them; variables have the values the lookup gives (P24)")
    fns = sorted({n for n in ctx.model.callbacks("node_resolve.on_resolve") if ctx.m.functions[n].file.endswith("node_configure.c")}) \
        if callable(getattr(ctx.model, "callbacks", None)) else []
    ctx.require(len(fns), 1, "function that processes the templates of a configure rule")
    total = 0
    for name in fns:
        fn = ctx.m.fn(name)
        bufs = {n for n in sizes(ctx, name) if n <= 70000}
        failed = 0
        for label, text, vs in cases(ctx, bufs or {4096}):
            if failed > LIMIT:
                break
            e = Conf(ctx)
            e.bad, e.vars = [], vs
            st = State()
            st.q = frozenset()
            for y in ("NODE", "CTX", "UNIT"):
                st.facts[y] = (None, None, frozenset([0]))
            R, N, C = [("p", ("h", x), 0) for x in ("RESOLVE", "NODEOBJ", "CTXOBJ")]
            for o in (R, N, C):
                st.mem[("zero", o[1])] = ("i", 1)
            e.set_cell(st, R, "node_resolve", "n", N)
            e.set_cell(st, N, "node", "impl", C)
            base = e.offset("_configure_ctx", "sources")
            L = e.add_off(C, base)
            e.set_cell(st, L, "ulist", "usize", ("i", 8))
            e.set_cell(st, L, "ulist", "num", ("i", 1))
            e.set_cell(st, L, "ulist", "start", I0)
            e.set_cell(st, L, "ulist", "array", SRC)
            st.mem[(SRC[1], 0)] = e.new_text(st, "source", txt("t.in"))
            st.mem[(("D", "in"), 0)] = ("B",) + tuple(text)
            ends = e.call_fn(st, name, [R])
            want, keys = expect(text, vs)
            flat = tuple(x for alts in want for x in alts[0])
            bad = {}
            for s, _ in ends:
                total += 1
                got = s.mem.get((("D", "stream"), 0))
                if got is None:
                    bad.setdefault(("replaced", "no file is written"), s)
                elif not fits(got[1:], want):
                    bad.setdefault(("replaced", "the file is %s instead of %s" % (shown(got[1:]), shown(flat))), s)
                for k in keys - s.q:
                    bad.setdefault(("recorded", "the variable is not recorded"), s)
            if not ends:
                bad[("replaced", "the rule never ends normally")] = None
            for why, inst, s in e.bad[:2]:
                bad.setdefault(("replaced", "%s (%s)" % (why, inst.loc() if inst else "")), s)
            failed += len(bad)
            for rule in ("replaced", "recorded"):
                mine = [(w, s) for (r, w), s in bad.items() if r == rule]
                for w, s in mine[:2]:
                    ctx.ob(rule, label, False, w, fn.loc(), path=s.lines() if s else [])
                if not mine:
                    ctx.ob(rule, label, True, "%d paths" % len(ends), fn.loc())
    ctx.require(total, 100, "paths of the processing of templates")
