"""P06: dependency records are read back as written.  The record writers are followed on texts whose bytes are arbitrary
except for the separators, the bytes they write form a record, and the reader is followed on exactly those bytes; kind,
flag, name, resource and stamp must come back.  Every prefix of a record (a torn write) must read as changed."""
from sa.bytes import *
from sa.absint import Limit

TECHNIQUE = "byte-accurate abstract interpretation of LLVM IR: composition of record writer and reader on symbolic texts"
LEVEL_NOTE = ("Writers and reader for every kind written anywhere in the program, each flag, texts of zero to three arbitrary bytes with and "
              "without line breaks and list separators, alone and in sequences of records. Texts longer than three bytes and records longer than "
              "the line buffer are not enumerated; names and paths contain no control bytes 0, 1, 2 and 10.")

TYPES = {"FILE": 102, "FILE_OUTDATED": 111, "NODE_VALUE": 118, "ENV": 101, "SYS_ENV": 115, "ALIAS": 97, "OUTDATED": 120}
NAMES = {v: k for k, v in TYPES.items()}
DEPS = ("p", ("h", "DEPS"), 0)
NL, SEP1 = ("i", 10), ("i", 1)


class Codec(Bytes):
    def lost(self, st, inst, why):
        self.report("round-trip", "text", why, st, inst)

    def inline(self, fn, inst, st):
        return not self.model.noreturn(fn.name) and fn.file and not fn.file.endswith("log.c")


def h_normalize(e, st, inst, args):
    t = e.get(st, args[0])
    if t is None or e.obj_of(args[1]) is None:
        return None
    st.mem[(("D", "normalised"), len([k for k in st.mem if k[0] == ("D", "normalised")]))] = ("T",) + t
    e.place(st, args[1], (B("abs"),) + t)
    return [(args[1], st)]


def h_stat(e, st, inst, args):
    ft = e.offset("akpath_stat", "ftype")
    e.clobber_obj(st, e.obj_of(args[1])[0])
    for o in range(0, 64, 4):
        st.mem[e.obj_of(e.add_off(args[1], o))] = NULL
    e.set_cell(st, args[1], "akpath_stat", "ftype", ("i", e.ftype))
    e.set_cell(st, args[1], "akpath_stat", "mtime", S("MTIME"))
    assert ft is not None
    return [(NULL, st)]


def h_mtime(e, st, inst, args):
    return [(S("MTIME"), st)]


for _k in ("path_normalize", "path_normalize_cwd", "path_real"):
    Codec.handlers = dict(Codec.handlers, **{_k: h_normalize})
Codec.handlers = dict(Codec.handlers, path_stat=h_stat, path_mtime=h_mtime)


class Rec:
    """one record to write: function, kind, flag, name and resource texts"""

    def __init__(self, fn, kind, flag, res, alias=None, serial=None, label=""):
        self.fn, self.kind, self.flag, self.res, self.alias, self.serial, self.label = fn, kind, flag, res, alias, serial, label

    def __str__(self):
        return "%s%s %s" % (self.kind, "" if not self.flag else " flag " + chr(self.flag), self.label)


def word(n, tag):
    return tuple(B("%s%d" % (tag, k)) for k in range(n))


def values(tag):
    a, b, c = word(3, tag)
    return [("empty", ()), ("one byte", (a,)), ("text", (a, b, c)), ("line break inside", (a, NL, b)), ("line breaks at the ends", (NL, a, NL)),
            ("only a line break", (NL,)), ("list of two", (SEP1, a, SEP1, b)), ("list with line break", (SEP1, a, NL, SEP1, b, NL)),
            ("list of an empty item", (SEP1,))]


def names(tag):
    return [("one byte", word(1, tag)), ("text", word(3, tag))]


def records(kinds):
    out = []
    flags = (0, ord("s"), ord("f"))
    for k in kinds:
        if k in ("ENV", "SYS_ENV"):
            fn = "deps_add_env" if k == "ENV" else "deps_add_sys_env"
            for fl in flags:
                for nl, n in names("n"):
                    for vl, v in values("v"):
                        out.append(Rec(fn, k, fl, v, n, None, "name: %s, value: %s" % (nl, vl)))
        elif k == "ALIAS":
            for fl in flags:
                for nl, n in names("n"):
                    for vl, v in names("r"):
                        out.append(Rec("deps_add_alias", k, fl, v, n, None, "name: %s, resource: %s" % (nl, vl)))
        elif k == "NODE_VALUE":
            for fl in flags:
                for vl, v in values("v"):
                    out.append(Rec("deps_add", k, fl, v, None, S("SERIAL"), "value: %s" % vl))
        else:
            for fl in flags:
                for vl, v in names("r"):
                    out.append(Rec("deps_add", k, fl, v, None, NULL if k != "OUTDATED" else S("SERIAL"), "path: %s" % vl))
    return out


def written_kinds(ctx):
    """kinds passed to the general writer anywhere in the program"""
    out, sites, unknown = set(), 0, []

    def consts(v, d=0, seen=None):
        seen = seen if seen is not None else set()
        if id(v) in seen or d > 8:
            return set()
        seen.add(id(v))
        if isinstance(v, Const) and isinstance(v.v, int):
            return {v.v}
        if isinstance(v, Inst) and v.op in ("phi", "select", "trunc", "sext", "zext"):
            ops = v.ops[1:] if v.op == "select" else v.ops
            r = set()
            for o in ops:
                c = consts(o, d + 1, seen)
                if c is None:
                    return None
                r |= c
            return r
        if isinstance(v, Arg):
            r = set()
            for c in ctx.model.direct_calls(v.fn.name):
                if v.idx < len(c.ops):
                    x = consts(c.ops[v.idx], d + 1, seen)
                    if x is None:
                        return None
                    r |= x
            return r
        if isinstance(v, Inst) and v.op == "load":
            root = ctx.model.root(v.ops[0])
            if isinstance(root, Inst) and root.op == "alloca":
                r = set()
                for i in v.fn.insts():
                    if i.op == "store" and i.ops[1] is root:
                        x = consts(i.ops[0], d + 1, seen)
                        if x is None:
                            return None
                        r |= x
                return r
        return None
    for c in ctx.model.direct_calls("deps_add"):
        sites += 1
        r = consts(c.ops[1])
        if r is None:
            unknown.append(c.loc())
        else:
            out |= {(x, c.loc()) for x in r}
    return out, sites, unknown


def new(ctx):
    e = Codec(ctx)
    e.ftype = 1
    return e


def start(e):
    st = State()
    st.facts["MTIME"] = (0, None, frozenset())
    st.facts["SERIAL"] = (0, None, frozenset())
    st.mem[("zero", ("h", "DEPS"))] = ("i", 1)
    st.mem[(("D", "stream"), 0)] = ("B",)
    path = e.new_text(st, "path", txt("/r"))
    return path, st


def opened(e, sts, path, mode):
    out = []
    for st in sts:
        for s, v in e.call_fn(st, "deps_open", [path, ("i", mode), DEPS]):
            if e.nonzero(s, v) is False:
                out.append(s)
    return out


def write(e, sts, r):
    out = []
    for st in sts:
        res = e.new_text(st, "res", r.res)
        al = e.new_text(st, "alias", r.alias) if r.alias is not None else NULL
        fl = ("i", r.flag)
        args = {"deps_add": [DEPS, ("i", TYPES.get(r.kind, r.kind)), fl, res, r.serial], "deps_add_env": [DEPS, fl, al, res],
                "deps_add_sys_env": [DEPS, fl, al, res], "deps_add_alias": [DEPS, fl, res, al]}[r.fn]
        for k in [k for k in st.mem if k[0] == ("D", "normalised")]:
            del st.mem[k]
        for s, v in e.call_fn(st, r.fn, args):
            if e.nonzero(s, v) is not False:
                e.report("round-trip", str(r), "writing the record fails although nothing went wrong", s)
                continue
            out.append(s)
    return out


def shown(bs):
    if bs is None:
        return "unknown"
    return "".join("<%s>" % b[1][2:] if b[0] == "s" else (chr(b[1]) if 32 <= b[1] < 127 else "\\%d" % b[1]) for b in bs)


def expected(e, st, r):
    """kind, flag, name, resource, stamp as the reader should give them"""
    def paths(t):
        return [t, (B("abs"),) + t]
    kind = "FILE" if r.kind == "FILE_OUTDATED" else r.kind
    flag = ord(" ") if not r.flag else r.flag
    if r.kind in ("FILE", "FILE_OUTDATED"):
        return kind, flag, None, paths(r.res), S("MTIME") if r.kind == "FILE" else NULL
    if r.kind == "ALIAS":
        return kind, flag, paths(r.alias), paths(r.res), S("MTIME")
    if r.kind == "NODE_VALUE":
        return kind, flag, None, [r.res], S("SERIAL")
    if r.kind == "OUTDATED":
        return kind, flag, None, None, None
    return kind, flag, [r.alias], [r.res], None


def read_next(e, st):
    return e.call_fn(st, "deps_cur_next", [DEPS])


def verify(e, st, r, subj):
    """compare the record just read with what was written"""
    kind, flag, alias, res, serial = expected(e, st, r)
    g = lambda m: e.get_cell(st, DEPS, "deps", m)
    bad = []
    t = g("type")
    if t != ("i", TYPES[kind]):
        bad.append("kind %s" % (NAMES.get(t[1], t[1]) if t and t[0] == "i" else "unknown"))
    elif kind != "OUTDATED":
        if g("flags") != ("i", flag):
            f = g("flags")
            bad.append("flag %s instead of '%s'" % ("'%s'" % chr(f[1] & 127) if f and f[0] == "i" else "unknown", chr(flag)))
        for what, m, want in (("name", "alias", alias), ("resource", "resource", res)):
            if want is None:
                continue
            p = g(m)
            got = e.get(st, p) if p is not None and e.obj_of(p) else None
            if got is None or got not in want:
                bad.append("%s '%s' instead of '%s'" % (what, shown(got), shown(want[0])))
        if serial is not None and g("serial") != serial:
            bad.append("stamp %s instead of %s" % (g("serial"), "the one written" if serial != NULL else "0"))
    if bad:
        e.report("round-trip", subj, "written %s, read back with %s" % (r.kind, ", ".join(bad)), st)
    return not bad


def round_trip(ctx, recs):
    ctx.rule("round-trip", "for every kind of record: the bytes the writer produces give, when read, the same kind, flag, name, resource and stamp")
    ctx.rule("torn", "a record that was not written completely reads as changed, never as a shorter valid record")
    ok = {}
    fnw, fnr = ctx.m.fn("deps_add"), ctx.m.fn("deps_cur_next")
    for r in recs:
        e = new(ctx)
        path, st = start(e)
        kind = r.kind if isinstance(r.kind, str) else str(r.kind)
        sts = write(e, opened(e, [st], path, 0), r)
        if not sts and not e.bad:
            e.report("round-trip", str(r), "the record is never written")
        for s in sts:
            line = s.mem[(("D", "stream"), 0)][1:]
            ctx.count("records written")
            for s2 in opened(e, [s.copy_full()], path, 2):
                got = False
                for s3, v in read_next(e, s2):
                    got = True
                    ctx.count("records read")
                    if e.nonzero(s3, v) is not True:
                        e.report("round-trip", str(r), "the record is not found when it is read", s3)
                        continue
                    verify(e, s3, r, str(r))
                    for s4, v4 in read_next(e, s3):
                        if e.nonzero(s4, v4) is not False:
                            e.report("round-trip", str(r), "the record spans several lines", s4)
                if not got and not e.bad:
                    e.report("round-trip", str(r), "the reader gives up on the record")
            if r.flag == 0:
                for n in range(1, len(line)):
                    s2 = s.copy_full()
                    s2.mem[(("D", "stream"), 0)] = ("B",) + line[:n]
                    for s2 in opened(e, [s2], path, 2):
                        for s3, v in read_next(e, s2):
                            ctx.count("torn records")
                            if e.nonzero(s3, v) is not True:
                                e.report("torn", str(r), "the incomplete line '%s' is taken for the end of the record" % shown(line[:n]), s3)
                            elif e.get_cell(s3, DEPS, "deps", "type") != ("i", TYPES["OUTDATED"]):
                                e.report("torn", str(r), "the incomplete line '%s' is taken for a complete record" % shown(line[:n]), s3)
        ok.setdefault(kind, []).append(e)
    for k, es in ok.items():
        n = 0
        for e in es:
            for b in e.bad:
                n += 1
                if n <= 6:
                    ctx.ob(b[0], b[1], False, b[2], b[3] or (fnr.loc() if b[0] == "torn" else fnw.loc()), b[4])
        if not n:
            ctx.ob("round-trip", k, True, "%d records" % len(es), fnw.loc())


def sequences(ctx, recs):
    ctx.rule("sequence", "records written one after the other, also across a reopening for appending, "
             "are found in this order, each once")
    pick = []
    seen = set()
    for r in recs:
        if r.kind not in seen and "line break" not in r.label and "list" not in r.label and "empty" not in r.label:
            seen.add(r.kind)
            pick.append(r)
    pick += [r for r in recs if r.kind in ("NODE_VALUE", "ENV") and r.flag == 0 and ("list with" in r.label or "ends" in r.label)][:4]
    fn = ctx.m.fn("deps_add")
    for mode in ("together", "reopened"):
        for perm in (pick, pick[::-1]):
            e = new(ctx)
            path, st = start(e)
            sts = opened(e, [st], path, 1 if mode == "together" else 0)
            nread = 0
            for k, r in enumerate(perm):
                if mode == "reopened" and k:
                    sts = opened(e, [x for s in sts for x, _ in e.call_fn(s, "deps_close", [DEPS])], path, 0)
                sts = write(e, sts, r)
            sts = opened(e, sts, path, 2)
            for k, r in enumerate(perm):
                nxt = []
                for s in sts:
                    for s3, v in read_next(e, s):
                        if e.nonzero(s3, v) is not True:
                            e.report("sequence", mode, "record %d (%s) is not found" % (k, r), s3)
                        elif verify(e, s3, r, "%s, record %d: %s" % (mode, k, r)):
                            nread += 1
                            nxt.append(s3)
                sts = nxt
            for s in sts:
                for s3, v in read_next(e, s):
                    if e.nonzero(s3, v) is not False:
                        e.report("sequence", mode, "a record that was not written is found after the last one", s3)
            ctx.count("sequences")
            for b in e.bad[:4]:
                ctx.ob("sequence", b[1], False, b[2], b[3] or fn.loc(), b[4])
            if not e.bad:
                ctx.ob("sequence", "%s%s" % (mode, "" if perm is pick else ", reverse order"), True, "%d records" % nread, fn.loc())


def long_values(ctx):
    ctx.rule("long", "values much longer than a path or a pipe buffer come back completely")
    n = 200000 if ctx.tier == "thorough" else 70000
    v = tuple(B("v%d" % k) if k % 1000 else NL for k in range(n))
    fn = ctx.m.fn("deps_add")
    for r in (Rec("deps_add", "NODE_VALUE", 0, v, None, S("SERIAL"), "value of %d bytes" % n),
              Rec("deps_add_env", "ENV", 0, v, word(3, "n"), None, "value of %d bytes" % n)):
        e = new(ctx)
        e.max_steps = 4000000
        path, st = start(e)
        for s in write(e, opened(e, [st], path, 0), r):
            for s2 in opened(e, [s], path, 2):
                for s3, x in read_next(e, s2):
                    if e.nonzero(s3, x) is not True:
                        e.report("long", str(r), "the record is not found when it is read", s3)
                        continue
                    p = e.get_cell(s3, DEPS, "deps", "resource")
                    got = e.get(s3, p) if p is not None and e.obj_of(p) else None
                    if e.get_cell(s3, DEPS, "deps", "type") != ("i", TYPES[r.kind]) or got != v:
                        e.report("long", str(r), "read back with %s" % ("a different kind" if got == v else
                                                                       "%s bytes" % (len(got) if got is not None else "unknown")), s3)
        for b in e.bad[:3]:
            ctx.ob("long", b[1], False, b[2], b[3] or fn.loc(), b[4])
        if not e.bad:
            ctx.ob("long", str(r), True, "", fn.loc())


def run(ctx):
    kinds, sites, unknown = written_kinds(ctx)
    ctx.rule("kinds", "every kind of record written anywhere in the program is one the reader and the verdict function know")
    ctx.count("writer calls", sites)
    for x, loc in sorted(kinds):
        ctx.ob("kinds", "kind %d written at %s" % (x, loc), x in NAMES, "" if x in NAMES else "no reader knows this kind", loc)
    for u in unknown:
        ctx.notes.append("kind written at %s is not a constant" % u)
    todo = [k for k in TYPES]
    recs = records(todo)
    round_trip(ctx, recs)
    sequences(ctx, recs)
    long_values(ctx)
    ctx.require(sites, 10, "calls of the record writer")
    ctx.assume("stdio streams deliver the bytes written to them; names and paths contain no bytes 0, 1, 2 and 10 and values contain no byte 0 or 2")
