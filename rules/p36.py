"""P36: values exported by check scripts.  `autark set` is interpreted byte by byte, what it writes is given to the resolver
that restores exported values, and what the resolver hands on is compared with what was exported."""
from sa.bytes import *
from sa.lib import roots_of
from sa.bytes import m_fgets, xs_set, xs_text

TECHNIQUE = "abstract interpretation of LLVM IR with byte-accurate texts of symbolic bytes: round trip from the exporting command to the resolver"
LEVEL_NOTE = ("All paths of `autark set` and of the resolver for texts of symbolic bytes: empty, short and long keys and values, values containing '=', "
              "several values per command and per file, and lines whose length is just below, at and above every buffer size in the reader (found in its code) "
              "and multiples of it. Values contain no line break (the exchange format has one line per value) and keys no '='.")

R = ("p", ("h", "R"), 0)
NL, EQ = ("i", 10), ("i", 61)
BYTES = frozenset([0, 10, 13, 61, 45])


class Env(Bytes):
    special = BYTES
    max_steps = 4000000
    bad = None

    def lost(self, st, inst, why):
        if self.bad is not None:
            self.bad.append((why, inst, st))

    def inline(self, fn, inst, st):
        return not self.model.noreturn(fn.name) and fn.file and not fn.file.endswith("log.c") and fn.name not in self.handlers

    def on_icall(self, st, inst, field, args):
        if field == "node_resolve.on_env_value":
            k, v = self.get(st, args[1]), self.get(st, args[2])
            st.q = st.q + ((k, v),)
            return [(TOP, st)]
        if field and field.startswith("node_resolve."):
            return [(TOP, st)]
        return None


def h_fgets(e, st, inst, args):
    c = st.mem.get((("D", "stream"), 0), ("B",))[1:]
    pos = st.mem.get((("D", "pos"), 0), I0)[1]
    n = e.const(args[1])
    if n is None or e.obj_of(args[0]) is None:
        e.lost(st, inst, "exported values are read into a buffer of unknown size")
        return []
    out = m_fgets(e, st, inst, args)
    got = st.mem[(("D", "pos"), 0)][1] - pos
    if got < n - 1 and (not got or c[pos + got - 1] != NL):
        st.mem[(("D", "eof"), 0)] = ("i", 1)
    return out


def h_feof(e, st, inst, args):
    return [(st.mem.get((("D", "eof"), 0), I0), st)]


def xs_clear(e, st, inst, args):
    xs_set(e, st, args[0], ())
    return [(args[0], st)]


def h_shift(e, st, inst, args):
    t, n = xs_text(e, st, args[0]), e.const(args[1])
    if t is None or n is None:
        return None
    xs_set(e, st, args[0], t[n:])
    return [(TOP, st)]


def h_pop(e, st, inst, args):
    t, n = xs_text(e, st, args[0]), e.const(args[1])
    if t is None or n is None:
        return None
    xs_set(e, st, args[0], t[:max(len(t) - n, 0)])
    return [(TOP, st)]


def h_strdup(k):
    def h(e, st, inst, args):
        t = e.get(st, args[k])
        if t is None:
            return None
        e.dups = getattr(e, "dups", 0) + 1
        return [(e.new_text(st, "dup%d" % e.dups, t), st)]
    return h


def h_strndup(k):
    def h(e, st, inst, args):
        n = e.const(args[k + 1])
        t = e.get(st, args[k])
        if t is None or n is None:
            return None
        e.dups = getattr(e, "dups", 0) + 1
        return [(e.new_text(st, "dup%d" % e.dups, t[:n]), st)]
    return h


def const(v):
    return lambda e, st, inst, args: [(v, st)]


def h_name(e, st, inst, args):
    return [(S("NAME"), st)]


def h_getopt(e, st, inst, args):
    """the first argument is not an option"""
    st.mem[(("g", "optind"), 0)] = ("i", 1)
    return [(("i", -1), st)]


DONE = (("D", "record"), 0)


def h_open(e, st, inst, args):
    """there is a record with one unchanged entry, or there is none"""
    if DONE not in st.mem:
        return [(("i", 70001), st)]
    e.set_cell(st, args[0], "deps", "file", S("RFILE"))
    e.set_cell(st, args[0], "deps", "type", ("i", ord("f")))
    e.set_cell(st, args[0], "deps", "resource", e.new_text(st, "rec", txt("r")))
    st.mem[DONE] = ("i", 1)
    return [(I0, st)]


def h_next(e, st, inst, args):
    if st.mem.get(DONE, I0)[1] == 0:
        return [(I0, st)]
    st.mem[DONE] = I0
    return [(("i", 1), st)]


class Uses(Rule):
    """how the resolver is called"""
    def inline(self, fn, inst, st):
        return fn.name in self.through

    def on_call(self, st, inst, name, args):
        if name == "node_resolve":
            cb = self.get_cell(st, args[0], "node_resolve", "on_env_value")
            if cb is None or self.nonzero(st, cb) is not False:
                self.uses.setdefault((inst.fn.name, cb, self.get_cell(st, args[0], "node_resolve", "mode")), (inst, st.copy_full()))
            return [(TOP, st)]
        return Rule.on_call(self, st, inst, name, args)


class Bind(Rule):
    """what a receiver of exported values does"""
    def inline(self, fn, inst, st):
        return not self.model.noreturn(fn.name) and fn.name not in ("node_env_set", "unit_env_set_val", "unit_env_set") and \
            bool(self.model.reach([fn.name]) & {"node_env_set", "unit_env_set_val", "unit_env_set"})

    def on_call(self, st, inst, name, args):
        if name in ("node_env_set", "unit_env_set_val", "unit_env_set"):
            st.q = st.q + ((name, args[-2], args[-1]),)
            return [(TOP, st)]
        return Rule.on_call(self, st, inst, name, args)

    def on_return(self, st, inst, val):
        self.ends.append(st.copy_full())


def receivers(ctx):
    """(call of the resolver, receiver, mode)"""
    e = Uses(ctx)
    direct = {i.fn.name for i in ctx.model.direct_calls("node_resolve")}
    e.through = {n for n in direct if ctx.model.should_inline(ctx.m.functions[n])}
    e.uses = {}
    for n in sorted({r for d in direct for r in (roots_of(ctx, d) if d in e.through else [d])}):
        f = ctx.m.functions[n]
        e.run(f, [S("a%d" % k) for k in range(len(f.args))])
    return e.uses


def bound(ctx, uses):
    ctx.rule("bound", "what receives an exported value sets the variable of that name to that value, once, on every path")
    names = {cb[1] for (f, cb, mode) in uses if cb is not None and cb[0] == "fn"}
    for (f, cb, mode), (inst, st) in uses.items():
        if cb is None or cb[0] != "fn":
            ctx.notes.append("receiver passed at %s is not a constant function" % inst.loc())
    for n in sorted(names):
        f = ctx.m.fn(n)
        e = Bind(ctx)
        e.ends = []
        e.run(f, [S("RESOLVE"), S("KEY"), S("VALUE")], q=(), facts={x: (None, None, frozenset([0])) for x in ("RESOLVE", "KEY", "VALUE")})
        bad = [s for s in e.ends if [x[1:] for x in s.q] != [(S("KEY"), S("VALUE"))]]
        ctx.ob("bound", n, not bad and bool(e.ends), "" if e.ends and not bad else
               "a path sets %s" % (", ".join("%s to %s" % tuple("the key" if y == S("KEY") else "the value" if y == S("VALUE") else "something else"
                                             for y in x[1:]) for x in bad[0].q) or "nothing") if bad else "no path ends normally", f.loc(), path=bad[0].lines() if bad else [])
    ctx.require(len(names), 1, "receivers of exported values")


def h_getenv(e, st, inst, args):
    return [(e.new_text(st, "env", txt("e")), st)]


Env.handlers = {
    "fgets": h_fgets, "feof": h_feof, "xstr_clear": xs_clear, "xstr_shift": h_shift, "xstr_pop": h_pop,
    "strdup": h_strdup(0), "xstrdup": h_strdup(0), "strndup": h_strndup(0), "xstrndup": h_strndup(0), "pool_strdup": h_strdup(1),
    "pool_strndup": h_strndup(1),
    "getopt_long": h_getopt, "getopt": h_getopt, "env_libdir": const(S("LIBDIR")), "path_normalize_cwd_pool": const(S("NAME")),
    "autark_init": const(TOP), "unit_create": const(S("UNIT")), "unit_push": const(TOP), "unit_peek": const(S("UNIT")), "getenv": h_getenv,
    "path_is_absolute": const(I0), "pool_create_empty": const(S("POOL")), "pool_create": const(S("POOL")), "pool_printf": h_name,
    "access": const(I0), "unlink": const(I0), "rename": const(I0), "utils_rename_file": const(I0), "ulist_init": const(TOP),
    "ulist_destroy_keep": const(TOP), "deps_open": h_open, "deps_cur_next": h_next, "deps_cur_is_outdated": const(I0), "deps_close": const(TOP), "path_is_exist": const(("i", 1)),
    "path_is_accesible_read": const(("i", 1)), "path_is_file": const(("i", 1))}


def word(n, tag):
    return tuple(B("%s%d" % (tag, k)) for k in range(n))


def long_word(n):
    """letters, with an arbitrary byte now and then"""
    return tuple(B("v%d" % k) if k % 997 == 5 else ("i", 97 + (k + k // 26) % 26) for k in range(n))


def line(k, v):
    return k + (EQ,) + v


def sizes(ctx, fn):
    """sizes of the character buffers in the functions of the reader"""
    out = set()
    for n in ctx.model.reach([fn]):
        f = ctx.m.functions.get(n)
        if f is None or not f.blocks or f.file != ctx.m.fn(fn).file:
            continue
        for i in f.insts():
            if i.op == "call" and isinstance(i.callee, str) is False and getattr(i.callee, "name", "") in ("fgets", "fgets_unlocked", "read", "fread"):
                for o in i.ops[1:3]:
                    if isinstance(o, Const) and isinstance(o.v, int) and o.v > 16:
                        out.add(o.v)
    return out


def cases(ctx, bufs):
    """(label, list of commands, each a list of exported (key, value))"""
    a, b, c = word(3, "a")
    K, L = word(3, "k"), word(1, "l")
    out = [("one value", [[(K, (a, b, c))]]), ("key of one byte", [[(L, (a,))]]), ("empty value", [[(K, ())]]),
           ("'=' inside the value", [[(K, (a, EQ, b))]]), ("value that starts and ends with '='", [[(K, (EQ, a, EQ))]]),
           ("value '='", [[(K, (EQ,))]]), ("two values in one command", [[(K, (a, b)), (L, (c,))]]),
           ("an empty value between two others", [[(K, (a,)), (L, ()), (word(2, "m"), (b, c))]]),
           ("two commands", [[(K, (a, b))], [(L, (c,))]])]
    for n in sorted(bufs):
        mult = (1, 2, 3, 4) if ctx.tier == "thorough" else (1, 2)
        for m in mult:
            if n * m > 70000:
                continue
            for d in ((-3, -2, -1, 0, 1, 2, 3) if ctx.tier == "thorough" else (-2, -1, 0, 1)):
                ln = n * m + d               # length of the line with its end
                v = long_word(ln - 1 - 4)
                out.append(("line of %d bytes followed by another" % ln, [[(K, v), (L, (a,))]]))
            v = long_word(n * m + 40)
            v = v[:-30] + (EQ,) + v[-29:]
            out.append(("value of %d bytes with '=' near its end" % len(v), [[(K, v), (L, (a,))]]))
    v = long_word(70000)
    out.append(("value of 70000 bytes", [[(L, (a,)), (K, v), (L, (b,))]]))
    return out


def shown(p):
    def s(t):
        if t is None:
            return "unknown"
        r = "".join("<%s>" % x[1][2:] if x[0] == "s" else chr(x[1] & 127) for x in t[:8])
        return r + ("... (%d bytes)" % len(t) if len(t) > 8 else "")
    return "%s=%s" % (s(p[0]), s(p[1]))


def run(ctx):
    ctx.rule("handed-on", "every exported key and value is handed on exactly as it was given, in order, once, and nothing else is handed on")
    ctx.rule("written", "exporting a value without failure writes it")
    ctx.assume("streams deliver the bytes written to them; exported values contain no line break and do not end with a carriage return")
    reader, writer = "node_resolve", "autark_run"
    uses = receivers(ctx)
    bound(ctx, uses)
    modes = sorted({m for (f, cb, m) in uses if m is not None}, key=str)
    ctx.require(len(modes), 1, "settings the resolver is called with")
    bufs = sizes(ctx, reader)
    if not bufs:
        ctx.notes.append("the reader has no buffer of constant size")
    paths = 0
    failed = 0
    for label, cmds in cases(ctx, bufs | {4096}):
        if failed > 3:
            break           # enough to report
        e = Env(ctx)
        e.bad = []
        st = State()
        st.q = ()
        st.mem[(("D", "stream"), 0)] = ("B",)
        st.mem[("zero", ("g", "g_env"))] = ("i", 1)      # a process starts with its settings unset
        sts = [st]
        for n, kvs in enumerate(cmds):
            nxt = []
            for s in sts:
                for k in [k for k in s.mem if k[0] == ("g", "g_env")]:
                    del s.mem[k]        # another process
                av = ("p", ("h", "ARGV", n), 0)
                for k, t in enumerate([txt("autark"), txt("set")] + [line(*kv) for kv in kvs]):
                    p = e.new_text(s, "arg%d.%d" % (n, k), t)
                    s.mem[(av[1], 8 * k)] = p
                s.mem[(av[1], 8 * (len(kvs) + 2))] = NULL
                s.mem[(("g", "optind"), 0)] = ("i", 1)
                nxt += [x for x, _ in e.call_fn(s, writer, [("i", len(kvs) + 2), av])]
            sts = nxt
        want = tuple(kv for kvs in cmds for kv in kvs)
        bad = {}
        if not sts:
            bad[("written", "the command never ends normally")] = None
        n = 0
        for s in sts:
            for fresh, mode in [(x, m) for x in (True, False) for m in modes]:
                s1 = s.copy_full()
                s1.q = ()
                s1.mem[("zero", R[1])] = ("i", 1)
                e.set_cell(s1, R, "node_resolve", "n", S("NODE"))
                e.set_cell(s1, R, "node_resolve", "path", S("PATH"))
                e.set_cell(s1, R, "node_resolve", "mode", mode)
                e.set_cell(s1, R, "node_resolve", "on_env_value", S("CB1"))
                e.set_cell(s1, R, "node_resolve", "on_resolve", S("CB2"))
                if not fresh:
                    s1.mem[DONE] = ("i", 1)
                for y in ("NODE", "PATH", "CB1", "CB2", "UNIT", "POOL", "NAME"):
                    s1.facts[y] = (None, None, frozenset([0]))
                ends = e.call_fn(s1, reader, [R])
                for s2, _ in ends:
                    n += 1
                    got = s2.q
                    if got != want:
                        k = [i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]][0]
                        bad.setdefault(("handed-on", "exported %s, handed on %s%s" % (shown(want[k]) if k < len(want) else "nothing",
                                                                                   shown(got[k]) if k < len(got) else "nothing",
                                                                                   "" if fresh else " when the script is not run again")), s2)
                if not ends:
                    bad[("handed-on", "the resolver never ends normally")] = None
        for why, inst, s in e.bad[:3]:
            bad.setdefault(("handed-on", "%s (%s)" % (why, inst.loc() if inst else "")), s)
        paths += n
        for rule in ("written", "handed-on"):
            mine = [(w, s) for (r, w), s in bad.items() if r == rule]
            f = ctx.m.fn(writer if rule == "written" else reader)
            for w, s in mine[:3]:
                ctx.ob(rule, label, False, w, f.loc(), path=s.lines() if s else [])
            failed += len(mine)
            if not mine:
                ctx.ob(rule, label, True, "%d paths" % n, f.loc())
    ctx.require(paths, 20, "paths of the resolver with exported values")
