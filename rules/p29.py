"""P29: failures while writing build results are not ignored.  Every operation on build state or results fails in turn, on every path of every rule, command
and helper that reaches it; from the failure only a diagnostic stop or a failure result may follow."""
from sa.ruleset import *
from sa.io import *
from sa.io import HANDLERS
from sa.scen import N, V, norm
from sa.par import results
from sa.cli import Cli
from sa.bytes import Bytes, B, txt
from rules.p06 import Codec, Rec, DEPS, start as rec_start, records as rec_all, TYPES, word
from sa.ir import Const, Inst, Function, GVar

TECHNIQUE = "path-sensitive abstract interpretation of LLVM IR with one injected failure per path; effect of dropped results at the remaining call sites"
LEVEL_NOTE = ("each of open, write, flush, close, rename, link, create directory, change directory and change of permissions failing once at every point of every rule kind and command; "
              "record writers with each stream operation failing; single failures; texts are opaque. Call sites outside these runs are checked for dropped results only.")
ENOSPC = 28


class Fault:
    """mixin: operations fail once per path, the site is kept"""
    sites = None

    def fault(self, st, inst, what, t=None):
        k = (("C", "fault", "fail"), 0)
        if self.sites is not None:
            self.sites.add((inst.fn.name, inst.uid))
        if st.mem.get(k, NULL)[1] >= 1:
            return None
        s = st.copy()
        s.mem[k] = ("i", 1)
        self.ev(s, "fault", what, t if t is not None else TOP, ("site", inst.loc()))
        s.mem[(("errno",), 0)] = ("i", ENOSPC)
        return s


def failing(what, arg, fail, base=None, when=None):
    """handler: the operation succeeds (as `base` says) or fails"""
    def h(self, st, inst, args):
        if when is not None and not when(self, st, args):
            return base(self, st, inst, args) if base else None
        t = self.text(st, args[arg]) if arg is not None and arg < len(args) else None
        dead = any(x[0] == "fault" and x[1] == "create directory" for x in st.q)      # nothing can be created in a directory that is not there
        s2 = self.fault(st, inst, what, t)
        out = [] if s2 is None else [(fail(self, s2, args) if callable(fail) else fail, s2)]
        if dead and what in ("open", "write file", "link", "rename"):
            return [(fail(self, st, args) if callable(fail) else fail, st)]
        if base:
            n0 = len(st.q)
            ok = [(v, s) for v, s in base(self, st, inst, args) if not (len(s.q) > n0 and s.q[-1][0] in ("openfail", "closefail", "renamefail", "wbuffail", "fopenfail", "fault"))]
        else:
            ok = [(NULL if inst.ty.kind != "void" else TOP, st)]
        return ok + out
    return h


def rofile(self, st, args):
    m = self.string(self.text(st, args[1]))
    return m is None or m[0] != "r" or "+" in m


def stream(k):
    def f(self, st, args):
        v = args[k]
        return v[0] == "p" and v[1][0] == "h" and isinstance(v[1][1], str) and v[1][1].startswith(("IOF", "FILE"))
    return f


def wstream(k):
    """a stream open for writing"""
    g = stream(k)

    def f(self, st, args):
        if not g(self, st, args):
            return False
        v = args[k]
        if v[1][1].startswith("IOF"):
            return st.mem.get((("D", "fd", int(v[1][1][3:])), "mode"), ("s", "r"))[1] != "r"
        op = [x for x in st.q if x[0] == "fopen" and x[3] == v]
        return bool(op) and (self.string(op[-1][2]) or "w")[0] != "r"
    return f


def written(self, st, args):
    return not (args[1][0] == "i" and args[1][1] & 2)          # not opened for reading only


class FaultRun(Fault, IO, Play):
    GHOST = Scen.GHOST + ("D",)
    faults = {"fail": 1}
    stale = True

    def failed(self, st, what, path, err=EIO):
        # the operations of the file model that only read do not fail here
        if what in ("open r", "read", "stat", "readlink"):
            return None
        return self.fault(st, self.inst, what, path)

    def on_call(self, st, inst, name, args):
        self.inst = inst
        return super().on_call(st, inst, name, args)

    def outcome(self, st, kind, t):
        return {"exist": True, "access": True, "argstart": False, "fopen": True, "var": True, "dir": (self.string(t) or "").endswith(("/bin", "/abs/t"))}.get(kind)

    def product(self, st, t):
        return NULL

    def done(self, st):
        return ()

    def mode_of(self, st, path, follow):
        return getattr(self, "mode", S_IFREG | 0o644)

    def pick_open(self, ok, fail, out):
        return [out[1] if self.recs else out[0]]


class FaultOld(FaultRun):
    """everything is found in the cache"""
    def outcome(self, st, kind, t):
        if kind == "exist":
            return "/cache" in (self.string(norm(self, st, t, self.cwd(st))) or "")
        return FaultRun.outcome(self, st, kind, t)


_P = Play.handlers
FaultRun.handlers = dict(_P, **{k: v for k, v in HANDLERS.items() if k not in ("fopen", "fopen64", "fclose", "fgets", "rename", "fileno", "fflush", "ferror", "feof")})
def linked(self, st, inst, args):
    """a link is created, is there already (until removed), or cannot be created"""
    k = (("C", "linked"), 0)
    p = self.text(st, args[1])
    out = [(NULL, st)]
    if not st.mem.get(k):
        s1 = st.copy()
        s1.mem[k] = ("i", 1)
        s1.mem[(("errno",), 0)] = ("i", EEXIST)
        out.append((("i", -1), s1))
    s2 = self.fault(st, inst, "link", p)
    return out + ([(("i", -1), s2)] if s2 is not None else [])


FILES = {
    "symlink": linked,
    "fopen": failing("open", 0, NULL, _P["fopen"], rofile),
    "fclose": failing("close", None, ("i", -1), lambda self, st, inst, args: [(NULL, st)], wstream(0)),
    "fflush": failing("flush", None, ("i", -1), lambda self, st, inst, args: [(NULL, st)], wstream(0)),
    "fputs": failing("write", None, ("i", -1), lambda self, st, inst, args: [(("i", 1), st)], wstream(1)),
    "fputc": failing("write", None, ("i", -1), lambda self, st, inst, args: [(args[0], st)], wstream(1)),
    "putc": failing("write", None, ("i", -1), lambda self, st, inst, args: [(args[0], st)], wstream(1)),
    "fprintf": failing("write", None, ("i", -1), lambda self, st, inst, args: [(("i", 1), st)], wstream(0)),
    "vfprintf": failing("write", None, ("i", -1), lambda self, st, inst, args: [(("i", 1), st)], wstream(0)),
    "fwrite": failing("write", None, NULL, lambda self, st, inst, args: [(args[2], st)], wstream(3)),
    "ferror": lambda self, st, inst, args: [(NULL, st)],
    "fileno": lambda self, st, inst, args: [(("i", 77), st)],
    "fchmod": failing("change permissions", None, ("i", -1)), "chmod": failing("change permissions", 0, ("i", -1)),
    "rename": failing("rename", 1, ("i", -1), None),
    "chdir": failing("change directory", 0, ("i", -1), _P["chdir"]),
    "mkdir": failing("create directory", 0, ("i", -1)),
    "path_mkdirs": failing("create directory", 0, ("i", ENOSPC)), "path_mkdirs_for": failing("create directory", 0, ("i", ENOSPC)),
    "utils_rename_file": failing("rename", 1, ("i", ENOSPC), _P["utils_rename_file"]),
    "utils_copy_file": failing("copy", 1, ("i", ENOSPC)),
    "utils_file_write_buf": failing("write file", 0, ("i", ENOSPC), _P["utils_file_write_buf"]),
    "deps_open": failing("open", 0, ("i", ENOSPC), _P["deps_open"], written),
}


def rec_fail(name):
    """a record that cannot be written: the writer says so now and when it is closed"""
    base = _P[name]

    def h(self, st, inst, args):
        s2 = self.fault(st, inst, "write", None)
        out = []
        if s2 is not None:
            s2.mem[(("D", "record"), "error")] = ("i", 1)
            out = [(("i", ENOSPC), s2)]
        return base(self, st, inst, args) + out
    return h


def rec_close(self, st, inst, args):
    f = self.get_cell(st, args[0], "deps", "file")
    n0 = len(st.q)
    r = [(v, s) for v, s in _P["deps_close"](self, st, inst, args) if not (len(s.q) > n0 and s.q[-1][0] == "closefail")]
    if f == H("RFILE"):
        return r
    if st.mem.get((("D", "record"), "error")):
        return [(("i", ENOSPC), st)]
    s2 = self.fault(st, inst, "close", None)
    return r + ([(("i", ENOSPC), s2)] if s2 is not None else [])


FILES["deps_close"] = rec_close
for _n in ("deps_add", "deps_add_alias", "deps_add_env", "deps_add_sys_env"):
    FILES[_n] = rec_fail(_n)
FaultRun.handlers.update(FILES)


def verdict(e, label, fin, stops, rc=False):
    """(findings, number of injected failures); with rc the result must be a failure instead of a stop"""
    out, n = [], 0
    seen = set()
    for x in fin:
        s, v = x if isinstance(x, tuple) else (x, None)
        f = [y for y in s.q if y[0] == "fault"]
        n += bool(f)
        if not f or rc and v is not None and e.nonzero(s, v):
            continue
        k = (f[0][1], f[0][3])
        if k in seen:
            continue
        seen.add(k)
        out.append((label, f[0][1], f[0][3][1], "continues after a failure to %s%s" % (f[0][1], named(e, f[0][2])), s.lines()))
    for s, name, args, inst in stops:
        f = [y for y in s.q if y[0] == "fault"]
        n += bool(f)
        if f and name in ("exit", "_exit") and args and args[0] == NULL:
            out.append((label, f[0][1], f[0][3][1], "the program ends successfully after a failure to %s%s" % (f[0][1], named(e, f[0][2])), s.lines()))
    return out, n


def named(e, t):
    s = e.string(t) if t is not None and t != TOP else None
    return " '%s'" % s if s else ""


RECS = {"source": [(102, "s", "x")], "other": [(102, " ", "x")]}


def in_place():
    """configure of a generated file: replaced by its own output"""
    r = N("configure", "configure", V("/prj/cache/gen.txt"))
    return [Sc("configure of a file in the cache", "configure", nest(r), r, ("init", "setup", "build"), sources=["gen.txt"])]


def case_scenario(ctx, label, mode, old):
    sc = [s for s in scenarios(ctx) + in_place() if s.label == label][0]
    sites = set()

    def prep(e, st):
        e.sites = sites
        e.mode = mode
    cls = FaultRun
    if old:
        cls = FaultOld
    e, sts = start(ctx, sc, cls, prep)
    e.recs = ()
    n = 0
    out = []
    for ph in sc.phases:
        e.stops = []
        sts = phase(e, sts, sc, ph)
        f, k = verdict(e, label, sts, e.stops)
        n += k
        out += f
        sts = [s for s in sts if not any(y[0] == "fault" for y in s.q)][:6]
    return out, n, sites


class Small(Fault, Files):
    """helpers by themselves"""
    reads = False
    faults = {"fail": 1, "short": 1}

    def failed(self, st, what, path, err=EIO):
        if what in ("open r", "read", "stat", "readlink") and not self.reads:
            return None
        return self.fault(st, self.inst, what, path)

    def on_call(self, st, inst, name, args):
        self.inst = inst
        return super().on_call(st, inst, name, args)

    def inline(self, fn, inst, st):
        return not fn.decl and fn.file and fn.file.endswith(("utils.c", "paths.c")) and fn.name not in self.handlers or Scen.inline(self, fn, inst, st)


def moved(self, st, inst, args):
    s1 = st.copy()
    s1.mem[(("errno",), 0)] = ("i", EXDEV)
    s2 = self.fault(st, inst, "rename", self.text(st, args[0]))
    return [(NULL, st), (("i", -1), s1)] + ([(("i", -1), s2)] if s2 is not None else [])


Small.handlers = dict(Files.handlers, rename=moved)


def case_move(ctx, fn):
    """failing reads included: a copy that stops early is not a copy"""
    e = Small(ctx)
    e.reads = True
    e.sites = set()
    e.handlers = {k: v for k, v in e.handlers.items() if k not in ("utils_copy_file", "utils_rename_file")}
    st = e.state()
    fin = e.call_fn(st, fn, [e.const("/prj/cache/f.tmp"), e.const("/prj/cache/f")])
    out, n = verdict(e, fn, fin, e.stops, True)
    return out, n, e.sites


def case_write(ctx, append):
    e = Small(ctx)
    e.sites = set()
    e.handlers = {k: v for k, v in e.handlers.items() if k != "utils_file_write_buf"}
    st = e.state()
    buf = ("p", ("h", "DATA"), 0)
    fin = e.call_fn(st, "utils_file_write_buf", [e.const("/prj/cache/f"), buf, ("i", 5), ("i", append)])
    out, n = verdict(e, "utils_file_write_buf", fin, e.stops, True)
    for s, v in fin:
        if not any(y[0] == "fault" for y in s.q) and e.nonzero(s, v) is not False:
            out.append(("utils_file_write_buf", "write", "", "reports a failure although nothing failed", s.lines()))
    return out, n, e.sites


class Dirs(Fault, Bytes):
    sites = None

    def ev(self, st, *x):
        st.q += (x,)

    def text(self, st, v):
        return v

    def string(self, v):
        return None

    def lost(self, st, inst, why):
        pass

    def inline(self, fn, inst, st):
        return not fn.decl and bool(fn.file) and fn.file.endswith(("paths.c", "utils.c")) and fn.name not in self.handlers


def mk(self, st, inst, args):
    """a directory is created, or exists already, or cannot be created"""
    s1 = st.copy()
    s1.mem[(("errno",), 0)] = ("i", EEXIST)
    s2 = self.fault(st, inst, "create directory", None)
    return [(NULL, st), (("i", -1), s1)] + ([(("i", -1), s2)] if s2 is not None else [])


Dirs.handlers = dict(Bytes.handlers, mkdir=mk, path_is_exist=lambda self, st, inst, args: [(NULL, st)])


def case_dirs(ctx, path, fn):
    e = Dirs(ctx)
    e.sites = set()
    st = State()
    st.q = ()
    fin = e.call_fn(st, fn, [e.new_text(st, "path", txt(path))])
    out, n = verdict(e, "%s of %s" % (fn, path), fin, [], True)
    for s, v in fin:
        if not any(y[0] == "fault" for y in s.q) and e.nonzero(s, v) is not False:
            out.append((fn, "create directory", "", "reports a failure although nothing failed", s.lines()))
    return out, n, e.sites


class Writer(Fault, Codec):
    def ev(self, st, *x):
        st.q = (st.q or ()) + (x,)

    def text(self, st, v):
        return v

    def string(self, v):
        return None


def bfail(what, fail, base):
    def h(self, st, inst, args):
        s2 = self.fault(st, inst, what, None)
        r = base(self, st, inst, args)
        r = [(NULL, st)] if r is None else r
        if st.mem.get((("C", "bad"), 0)) and what in ("flush", "check"):
            return [(("i", -1), st)]
        if s2 is not None:
            s2.mem[(("C", "bad"), 0)] = ("i", 1)
            r = r + [(fail, s2)]
        return r
    return h


def bmodels():
    from sa.bytes import MODELS as M
    z = lambda self, st, inst, args: [(NULL, st)]
    return {"fopen": bfail("open", NULL, M["fopen"]), "fprintf": bfail("write", ("i", -1), M["fprintf"]), "fputs": bfail("write", ("i", -1), M["fputs"]),
            "fputc": bfail("write", ("i", -1), M["fputc"]), "putc": bfail("write", ("i", -1), M["fputc"]), "fwrite": bfail("write", NULL, M["fwrite"]),
            "fclose": bfail("close", ("i", -1), z), "fflush": bfail("flush", ("i", -1), z),
            "ferror": lambda self, st, inst, args: [(st.mem.get((("C", "bad"), 0), NULL), st)]}


Writer.handlers = dict(Codec.handlers, **bmodels())


def case_record(ctx, k, r):
    """open, write two records, close: a failure anywhere must be seen in the result of opening or closing"""
    e = Writer(ctx)
    e.ftype = 1
    e.sites = set()
    label = "record writer, %s" % r
    from rules.p06 import start as st0
    path, st = st0(e)
    st.q = ()
    out, n = [], 0
    live = []
    for s, v in e.call_fn(st, "deps_open", [path, ("i", 0), DEPS]):
        f = [y for y in s.q if y[0] == "fault"]
        if f:
            n += 1
            if not e.nonzero(s, v):
                out.append((label, f[0][1], f[0][3][1], "opening the record succeeds after a failure to %s it" % f[0][1], s.lines()))
        elif e.nonzero(s, v) is False:
            live.append(s)
    for _ in range(2):
        nxt = []
        for s in live:
            res = e.new_text(s, "res", r.res)
            al = e.new_text(s, "alias", r.alias) if r.alias is not None else NULL
            fl = ("i", r.flag)
            args = {"deps_add": [DEPS, ("i", TYPES.get(r.kind, r.kind)), fl, res, r.serial], "deps_add_env": [DEPS, fl, al, res],
                    "deps_add_sys_env": [DEPS, fl, al, res], "deps_add_alias": [DEPS, fl, res, al]}[r.fn]
            for q in [q for q in s.mem if q[0] == ("D", "normalised")]:
                del s.mem[q]
            for s2, v in e.call_fn(s, r.fn, args):
                nxt.append(s2)
        live = nxt
    for s in live:
        for s2, v in e.call_fn(s, "deps_close", [DEPS]):
            f = [y for y in s2.q if y[0] == "fault"]
            n += bool(f)
            if f and e.nonzero(s2, v) is not True:
                out.append((label, f[0][1], f[0][3][1], "closing the record succeeds after a failure to %s it" % f[0][1], s2.lines()))
    return out, n, e.sites


class CliFault(Fault, Cli):
    env = {"HOME": "/home/u", "AUTARK_HOME": "/opt/ak", "AUTARK_ROOT_DIR": "/prj", "AUTARK_CACHE_DIR": "/prj/cache", "AUTARK_UNIT": "sub/Autark", "ENVKEY": "v"}


def started(self, st, inst, args):
    return Cli.handlers["autark_build_prepare"](self, st, inst, args)


CliFault.handlers = dict(Cli.handlers)
for _n, _h in FILES.items():
    if _n not in ("fileno", "ferror", "chdir", "fprintf", "fwrite", "fputs", "vfprintf", "putc", "fputc", "fflush"):
        CliFault.handlers[_n] = _h
CliFault.handlers["chdir"] = failing("change directory", 0, ("i", -1), Cli.handlers["chdir"])
for _n, _k in (("fprintf", 0), ("fputs", 1), ("fwrite", 3), ("vfprintf", 0)):
    CliFault.handlers[_n] = (lambda n, k: failing("write", None, NULL if n == "fwrite" else ("i", -1),
                                                  lambda self, st, inst, args: Cli.handlers[n](self, st, inst, args) if not stream(k)(self, st, args) else [(("i", 1), st)],
                                                  wstream(k)))(_n, _k)
CliFault.handlers["fflush"] = Cli.handlers["fflush"]

COMMANDS = [["set", "a=b"], ["set", "a=b", "c=d"], ["dep", "f.txt"], ["dep", "-"], ["env", "ENVKEY"], ["-C", "dir", "glob", "*.c"], ["-C", "dir"], ["-c"], ["-H", "x"]]


def case_cli(ctx, words):
    e = CliFault(ctx)
    e.sites = set()
    fin = e.run_args(words)
    out, n = verdict(e, "autark " + " ".join(words), [s for s in fin], e.stops)
    return out, n, e.sites


class Direct(FaultRun):
    """functions of the unit and product code that the rule runs take as given"""


def case_direct(ctx, name, flags=0):
    e = Direct(ctx)
    e.handlers = {k: v for k, v in e.handlers.items() if k not in ("node_product_add", "node_product_add_raw", "unit_create")}
    e.sites = set()
    e.inl = frozenset(e.inl) | {"unit_ch_dir", "unit_ch_cache_dir", "unit_ch_src_dir"}
    rn = N("run", "run", bag("exec", V("t")))
    root = nest(rn)
    st = e.state()
    e.plant(st, root)
    cases = {"node_product_add_raw": [rn.ptr, e.const("/prj/cache/d/o")], "unit_create": [e.const("/prj/sub/Autark"), ("i", flags), H("POOL")],
             "unit_ch_cache_dir": [H("U0"), NULL], "unit_ch_src_dir": [H("U0"), NULL], "unit_push": [H("U0"), NULL]}
    fin = e.call_fn(st, name, cases[name])
    out, n = verdict(e, name, fin, e.stops)
    return out, n, e.sites


WRITING = {"fopen", "fclose", "fflush", "fputs", "fputc", "putc", "fprintf", "vfprintf", "fwrite", "fchmod", "rename", "chdir", "mkdir", "path_mkdirs", "utils_rename_file", "utils_copy_file",
           "utils_file_write_buf", "deps_open", "deps_close", "write", "open", "close", "symlink", "link", "ftruncate", "pwrite", "fsync"}


def run(ctx):
    ctx.rule("reported", "after a failed operation on build state or results every path ends in a diagnostic stop or hands the failure to the caller")
    ctx.rule("used", "no other result of such an operation is dropped")
    m = ctx.m
    todo = []
    for sc in scenarios(ctx):
        todo.append((case_scenario, (sc.label, S_IFREG | 0o644, False)))
        if sc.kind == "install":
            todo.append((case_scenario, (sc.label, S_IFLNK | 0o777, False)))
    todo.append((case_scenario, (in_place()[0].label, S_IFREG | 0o644, True)))
    for a in (0, 1):
        todo.append((case_write, (a,)))
    for f in ("utils_copy_file", "utils_rename_file"):
        if f in m.functions:
            todo.append((case_move, (f,)))
    for p in ("/a", "/a/b", "/a/b/c", "a/b", "/a/b/c/d"):
        todo.append((case_dirs, (p, "path_mkdirs")))
    a = word(2, "a")
    for k, r in enumerate([Rec("deps_add", "FILE", 0, a, None, NULL, "file"), Rec("deps_add", "NODE_VALUE", 0, a, None, ("i", 1), "value"),
                           Rec("deps_add", "NODE_VALUE", 0, (), None, ("i", 1), "empty value"), Rec("deps_add", "OUTDATED", 0, a, None, NULL, "always outdated"),
                           Rec("deps_add", "FILE_OUTDATED", ord("s"), a, None, NULL, "outdated file"), Rec("deps_add_env", "ENV", 0, a, word(2, "k"), None, "variable"),
                           Rec("deps_add_sys_env", "SYS_ENV", 0, a, word(2, "k"), None, "process variable"), Rec("deps_add_alias", "ALIAS", ord("s"), a, word(2, "k"), None, "alias")]):
        todo.append((case_record, (k, r)))
    for w in COMMANDS:
        todo.append((case_cli, (w,)))
    for k in range(8):
        todo.append((case_direct, ("unit_create", k)))
    for f in ("node_product_add_raw", "unit_ch_cache_dir", "unit_ch_src_dir", "unit_push"):
        if f in m.functions:
            todo.append((case_direct, (f,)))
    sites, n = set(), 0
    bad = {}
    for (f, args), (found, k, st) in zip(todo, results(lambda c: c[0](ctx, *c[1]), todo)):
        sites |= st
        n += k
        label = args[0] if isinstance(args[0], str) else " ".join(args[0]) if isinstance(args[0], list) else str(args[-1])
        for lb, what, loc, msg, path in found:
            bad.setdefault((loc, msg), (lb, path))
        if not found:
            ctx.ob("reported", "%s: %s" % (f.__name__[5:], label), True, "%d failures" % k)
    for (loc, msg), (lb, path) in sorted(bad.items()):
        ctx.ob("reported", lb, False, msg, loc, path)
    ctx.count("injected failures", n)
    ctx.count("failing call sites", len(sites))
    ctx.require(n, 100, "injected failures")
    # the rest
    k = 0
    reach = ctx.model.reach(["main"])
    for fn in sorted(m.functions.values(), key=lambda f: f.name):
        if fn.decl or not fn.file or fn.name not in reach:
            continue
        for i in fn.insts():
            if i.op != "call" or not isinstance(i.callee, Function) or i.callee.name not in WRITING or (fn.name, i.uid) in sites:
                continue
            nm = i.callee.name
            k += 1
            if nm in ("fopen", "open", "deps_open") or used(fn, i):
                continue
            if reading(ctx.model, fn, i):
                continue
            ctx.ob("used", "%s in %s" % (nm, fn.name), False, "the result is dropped", i.loc())
    ctx.count("other call sites", k)
    ctx.ob("used", "other call sites", True, "%d" % k)


def used(fn, i):
    return any(o is i for x in fn.insts() for o in x.ops)


def reading(model, fn, i):
    """the stream or descriptor is a standard one, or was opened for reading only"""
    nm = i.callee.name
    if nm == "deps_close":
        r = model.root(i.ops[0])
        op = [x for x in fn.calls() if isinstance(x.callee, Function) and x.callee.name == "deps_open" and model.root(x.ops[2]) is r]
        return all(isinstance(x.ops[1], Const) and x.ops[1].v & 2 for x in op)
    k = {"fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3}.get(nm, 0)
    if nm not in ("fclose", "close", "fflush", "fputs", "fputc", "putc", "fwrite", "fprintf", "vfprintf"):
        return False
    seen, todo = set(), [i.ops[k]]
    found = False
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        r = model.root(v)
        for x in (v, r):
            if isinstance(x, Inst) and x.op == "load" and isinstance(x.ops[0], GVar) and x.ops[0].name in ("stdout", "stderr"):
                return True
            if isinstance(x, Inst) and x.op == "call" and isinstance(x.callee, Function):
                c = x.callee.name
                found = True
                if c in ("fopen", "fopen64"):
                    s = getattr(x.ops[1], "string", None)
                    if s is None or s[0] == "r" and "+" not in s:
                        return True
                    return False
                if c in ("open", "open64"):
                    return isinstance(x.ops[1], Const) and x.ops[1].v & 3 == 0
                return True
            if isinstance(x, Inst) and x.op in ("phi", "select"):
                todo += list(x.ops)
    return not found           # unknown origin: pipes and streams handed over are not judged here
