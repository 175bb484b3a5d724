"""P30: only documented places are written.  Every rule kind, the program's commands and its helpers are followed on abstract projects; each call that
creates, changes or deletes a file is judged by the path it is given: below the cache directory, a product of the rule, or an install destination."""
from sa.ruleset import *
from sa.io import *
from sa.scen import N, V, norm
from sa.par import results
from sa.cli import Cli
from sa.bytes import Bytes, txt
from sa.ir import Function
from rules.p06 import Codec, DEPS, start as rec_start
from rules.p29 import FaultRun, FaultOld, CliFault, Direct, Small, Dirs, in_place, COMMANDS
from rules.p19 import RULES, SETS, WORDS, L as LEAF, build as build_tree

TECHNIQUE = "path-sensitive abstract interpretation of LLVM IR with symbolic path texts; allowed-place check of the path argument of every creating, changing or deleting call"
LEVEL_NOTE = ("every rule kind on small projects, first builds, rebuilds with outdated records and rebuilds with everything present, with and without one failing operation; "
              "all commands; all unit kinds. Values are opaque texts; places reached through symbolic links at a destination, and what commands of the scripts themselves do, are not judged. "
              "What is removed by --clean is decided by P12.")

# functions that create, change or delete files: indexes of the affected paths
W = {"unlink": (0,), "remove": (0,), "rename": (0, 1), "renameat": (1, 3), "renameat2": (1, 3), "mkdir": (0,), "rmdir": (0,), "symlink": (1,), "link": (0, 1), "creat": (0,), "truncate": (0,),
     "chmod": (0,), "chown": (0,), "lchown": (0,), "utime": (0,), "utimes": (0,), "lutimes": (0,), "utimensat": (1,), "unlinkat": (1,), "mkdirat": (1,), "symlinkat": (2,), "linkat": (1, 3),
     "mkstemp": (0,), "mkdtemp": (0,), "mknod": (0,), "mkfifo": (0,), "fchmodat": (1,), "fchownat": (1,)}
HELPERS = {"path_mkdirs": (0,), "path_mkdirs_for": (0,), "utils_file_write_buf": (0,), "utils_copy_file": (1,), "utils_rename_file": (0, 1), "path_rm_cache": (0,)}
BY_FD = {"fchmod", "fchown", "futimens", "futimes", "ftruncate", "ftruncate64", "posix_fallocate", "fallocate"}
OPENS = {"open", "open64", "openat", "fopen", "fopen64", "freopen", "deps_open"}
NAMES = set(W) | set(HELPERS) | BY_FD | OPENS
CACHE, PREFIX = "/prj/cache", "/prefix"


RULES_META = next(s for s in RULES if s[0] == "meta")          # only defines variables: the small form is enough


class Writes:
    """mixin: collects the paths handed to calls that change files"""
    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.writes = {}
        self.sites = set()

    def target(self, st, v):
        return norm(self, st, self.text(st, v), self.cwd(st))

    def wrote(self, st, inst, name, p):
        k = (name, inst.loc(), place(self, st, p))
        self.writes.setdefault(k, st.lines())

    def on_call(self, st, inst, name, args):
        b = self.model.base(name) if not name.startswith("llvm") else name
        self.inst = inst
        if b in NAMES:
            self.sites.add((inst.fn.name, inst.uid))
        for k in W.get(b) or HELPERS.get(b) or ():
            self.wrote(st, inst, b, self.target(st, args[k]))
        if b in ("fopen", "fopen64", "freopen"):
            m = self.string(self.text(st, args[1]))
            if m is None or m[:1] != "r" or "+" in m:
                self.wrote(st, inst, b, self.target(st, args[0]))
        elif b in ("open", "open64", "openat"):
            k = b == "openat"
            if args[1 + k][0] != "i" or args[1 + k][1] & 3 or args[1 + k][1] & (O_CREAT | O_TRUNC):
                self.wrote(st, inst, b, self.target(st, args[k]))
        elif b == "deps_open":
            if args[1][0] != "i" or not args[1][1] & 2 or args[1][1] & 1:
                self.wrote(st, inst, b, self.target(st, args[0]))
        elif b in BY_FD:
            fd = fdn(args[0])
            p = self.fdget(st, fd, "path") if fd is not None else None
            self.wrote(st, inst, b, norm(self, st, p, self.cwd(st)) if p is not None else TOP)
        return super().on_call(st, inst, name, args)


def number(self, st, inst, args):
    """descriptor of a stream"""
    v = args[0]
    n = fileno(v)
    if n is not None:
        return [(("i", n), st)]
    for k, x in enumerate(st.q):
        if x[0] == "fopen" and x[3] == v:
            st.mem[(("D", "fd", 700 + k), "path")] = x[1]
            return [(("i", 700 + k), st)]
    return [(("i", 99), st)]


def flat(e, st, t):
    """a path text as (first part, literal texts that follow)"""
    while True:
        if t == TOP:
            return None, ()
        if t[0] == "s" and isinstance(t[1], tuple) and t[1] and t[1][0] == "T":
            x = t[1]
            if x[1] == "norm":
                t = x[2]
                continue
            if x[1] == "cat":
                h, rest = flat(e, st, T_part(e, x[2]))
                return h, rest + tuple(x[3:])
            return x, ()
        s = e.string(t)
        return (s, ()) if s is not None else (t, ())


def T_part(e, p):
    return e.const(p) if isinstance(p, str) else p


def below(s, root):
    return s == root or s.startswith(root + "/")


def literal(parts):
    return [p if isinstance(p, str) else None for p in parts]


def place(e, st, t):
    """what the path stands for: ok, or a description of the place"""
    h, rest = flat(e, st, t)
    lit = literal(rest)
    if any(p is not None and ("/../" in p or p.endswith("/..")) for p in lit):
        return "a path with .."
    if isinstance(h, str):
        if below(h, CACHE) and (h != CACHE or not rest or (lit[0] or "")[:1] == "/"):
            return "ok"
        if h == "" and rest:
            return "'%s'" % (lit[0] or "...")
        if e.installs and below(h, PREFIX):
            if not rest or h[-1:] == "/" or (lit[0] or "")[:1] == "/":
                return "ok"
            return "'%s...', not in the install directory" % h
        if not rest and t in e.products(st):
            return "ok"
        return "'%s'" % (h + "".join(p or "..." for p in lit))
    if isinstance(h, tuple) and h[0] == "T":
        if h[1] in ("cache_dir", "cache_path") and (not rest or (lit[0] or "")[:1] in ("/", ".") and h[1] == "cache_path" or (lit[0] or "")[:1] == "/"):
            return "ok"
        if h[1] == "val" and e.installs and h[2] == e.installs:
            return "ok"
        if t in e.products(st) or ("s", h) in e.products(st) and not rest:
            return "ok"
        return "the place named by %s" % " ".join(str(x) for x in h[1:3] if isinstance(x, str))
    return "a place that is not known"


class Known:
    """products of the rule, install target"""
    installs = None
    either = False

    def products(self, st):
        out = set()
        for x in st.q:
            if x[0] in ("product", "own") and len(x) > 1:
                for u in (CACHE, CACHE + "/sub1", CACHE + "/sub2"):
                    out.add(norm(self, st, x[1], self.const(u)))
        return out


def outcome(base):
    def f(self, st, kind, t):
        if kind == "dir" and self.installs and (mentions(t, ("T", "val", self.installs)) or (self.string(t) or "").endswith("/bin")):
            return True
        if kind == "access" and self.either:
            return None
        return base.outcome(self, st, kind, t)
    return f


class Watch(Writes, Known, FaultRun):
    outcome = outcome(FaultRun)


class WatchOld(Writes, Known, FaultOld):
    outcome = outcome(FaultOld)


class WatchDirect(Writes, Known, Direct):
    outcome = outcome(Direct)


for _c in (Watch, WatchOld, WatchDirect):
    _c.handlers = dict(_c.handlers, fileno=number)


class WatchCli(Writes, Known, CliFault):
    pass


def peek(self, st, inst, args):
    u = H("CLIUNIT")
    for k, v in (("cache_path", "/prj/cache/unit"), ("cache_dir", CACHE), ("source_path", "/prj/unit"), ("dir", "/prj"), ("rel_path", "unit"), ("basename", "unit")):
        self.set_cell(st, u, "unit", k, self.const(v))
    return [(u, st)]


WatchCli.handlers = dict(CliFault.handlers, unit_peek=peek)


def result(e):
    return [(k, p) for k, p in e.writes.items() if k[2] != "ok"], {k[:2] for k in e.writes}, e.sites


def case_scenario(ctx, label, mode, cls, recs):
    sc = [s for s in scenarios(ctx) + in_place() + more() if s.label == label][0]
    if sc.kind == "configure":
        sc.lines = ["x @K@ y\n", "//autarkdef K 1\n"]

    def prep(e, st):
        e.mode = mode
        if sc.kind == "install":
            e.installs = sc.rule.children[0].id
    e, sts = start(ctx, sc, {"new": Watch, "old": WatchOld}[cls], prep)
    e.either = sc.kind in ("check", "subst", "run")
    if recs:
        t = norm(e, None, e.const(sc.sources[0]), e.const("/prj")) if sc.kind == "configure" else T("rec")
        e.recs = ((("i", FILE), ("i", ord(recs)), t, NULL, NULL, 1),)
    for ph in sc.phases:
        good = [s for s in phase(e, sts, sc, ph)]
        sts = keep(good)
    return result(e)


def more():
    """templates in places that are easily mistaken for the cache directory"""
    out = []
    for p in ("cachex/t.h.in", "cache.in", "src/cache/t.txt", "/prj/cachex/t.txt", "/elsewhere/t.h.in"):
        r = N("configure", "configure", V(p))
        out.append(Sc("configure of %s" % p, "configure", nest(r), r, ("init", "setup", "build"), sources=[p]))
    return out


def keep(sts, most=8):
    """a few states, those without a failure first"""
    return sorted(sts, key=lambda s: any(y[0] == "fault" for y in s.q))[:most]


def case_tree(ctx, spec):
    """the remaining rule kinds"""
    e = Watch(ctx)
    leaves = []
    top = build_tree(spec, leaves)
    root = nest(top)
    rules = [n for n in root.walk() if n.kind not in ("value", "bag", "script")]
    st = e.state()
    e.plant(st, root)
    if top.kind in ("install", "library"):
        e.installs = top.children[0].id if top.kind == "install" else None
    e.lines = ["x @K@ y\n"] if top.kind == "configure" else LINES["cc"]
    e.genv(st, "max_parallel_jobs", ("i", 2))
    sts = [st]
    for r in rules:
        if r not in leaves:
            sts = e.chain(sts, "node_bind", [r.ptr])
    for ph in ("init", "setup", "build", "post_build", "value_get"):
        for r in (rules[::-1] if ph == "init" else rules):
            nxt = []
            for s in sts:
                c = e.get_cell(s, r.ptr, "node", ph)
                nxt += [x for x, _ in e.call_fn(s, c[1], [r.ptr])] if c is not None and c[0] == "fn" else [s]
            sts = keep(nxt, 4)
    return result(e)


def case_cli(ctx, words):
    e = WatchCli(ctx)
    e.run_args(words)
    return result(e)


def case_direct(ctx, name, flags=0):
    e = WatchDirect(ctx)
    e.handlers = {k: v for k, v in e.handlers.items() if k not in ("node_product_add", "node_product_add_raw", "unit_create")}
    e.inl = frozenset(e.inl) | {"unit_ch_dir", "unit_ch_cache_dir", "unit_ch_src_dir"}
    rn = N("run", "run", bag("exec", V("t")))
    st = e.state()
    e.plant(st, nest(rn))
    if name == "node_product_add_raw":
        e.ev(st, "product", e.const("/out/d/o"))
        args = [rn.ptr, e.const("/out/d/o")]
        e.products = lambda s: {e.const("/out/d/o"), e.const("/out/d")}
    else:
        args = [e.const("sub/Autark"), ("i", flags), H("POOL")]
    e.call_fn(st, name, args)
    return result(e)


class Own(Known):
    """judges by the texts a helper is given"""
    mine = ()

    def products(self, st):
        return set(self.mine)


class WatchSmall(Writes, Own, Small):
    pass


def case_helper(ctx, fn):
    """helpers write only what they are given"""
    e = WatchSmall(ctx)
    e.handlers = {k: v for k, v in e.handlers.items() if k not in HELPERS or k == "path_mkdirs"}
    st = e.state()
    a, b, buf = e.const("/x/in"), e.const("/x/out"), ("p", ("h", "DATA"), 0)
    calls = {"utils_copy_file": ([a, b], (b,)), "utils_rename_file": ([a, b], (a, b)), "utils_file_write_buf": ([b, buf, ("i", 5), ("i", 0)], (b,)), "deps_prune_all": ([b], (b,)), "path_mkdirs_for": ([e.const("/x/d/out")], (e.const("/x/d"),)),
             "utils_file_as_buf": ([a, ("i", 100)], ()), "utils_file_as_buf_max": ([a, ("i", 100)], ())}
    if fn not in calls:
        return [], set(), set()
    args, e.mine = calls[fn]
    e.call_fn(st, fn, args)
    return result(e)


class ByteWrites(Writes, Own):
    def target(self, st, v):
        t = self.get(st, v)
        return ("s", ("path", "".join(chr(b[1] & 255) if b[0] == "i" else "?" for b in t))) if t is not None else TOP

    def wrote(self, st, inst, name, p):
        self.writes.setdefault((name, inst.loc(), "ok" if p != TOP and p[1][1] in self.mine else "'%s'" % p[1][1] if p != TOP else "a place that is not known"), st.lines())

    def string(self, v):
        o = self.get_any(v)
        return o

    def text(self, st, v):
        return v

    def get_any(self, v):
        if v[0] == "p" and v[1][0] == "g":
            g = self.m.globals.get(v[1][1])
            return g.string if g is not None and v[2] == 0 else None
        return None


class WatchDirs(ByteWrites, Dirs):
    pass


class WatchDeps(ByteWrites, Codec):
    pass


def case_dirs(ctx, path, fn):
    e = WatchDirs(ctx)
    e.handlers = {k: v for k, v in e.handlers.items() if k != fn}
    st = State()
    st.q = ()
    parts = path.split("/")
    e.mine = {"/".join(parts[:k]) for k in range(1, len(parts) + 1)} - {""}
    e.call_fn(st, fn, [e.new_text(st, "path", txt(path))])
    return result(e)


def case_deps(ctx, mode):
    e = WatchDeps(ctx)
    e.ftype = 1
    path, st = rec_start(e)
    st.q = ()
    e.mine = set() if mode & 2 else {"/r"}
    e.call_fn(st, "deps_open", [path, ("i", mode), DEPS])
    return result(e)


def run(ctx):
    ctx.rule("place", "the path of every call that creates, changes or deletes a file is in the cache directory, a product of the rule, or an install destination")
    ctx.rule("helper", "a helper changes only the paths it is given for writing")
    ctx.rule("reached", "every call that may change a file was judged")
    m = ctx.m
    todo = []
    RECS = ["", "s", " "]
    for sc in scenarios(ctx) + in_place() + more():
        for mode in [S_IFREG | 0o644] + ([S_IFLNK | 0o777] if sc.kind == "install" else []):
            for cls in ("new", "old"):
                for recs in RECS if cls == "new" and "three" not in sc.label else RECS[:1]:
                    todo.append((case_scenario, (sc.label, mode, cls, recs), "place"))
    for s in RULES:
        if s[0] not in ("configure", "cc", "cxx", "install") and s != RULES_META:
            todo.append((case_tree, (s,), "place"))
    for w in COMMANDS + [["."], ["-H", "x", "sub"]]:
        todo.append((case_cli, (w,), "place"))
    for k in range(8):
        todo.append((case_direct, ("unit_create", k), "place"))
    if "node_product_add_raw" in m.functions:
        todo.append((case_direct, ("node_product_add_raw",), "place"))
    for f in ("utils_copy_file", "utils_rename_file", "utils_file_write_buf", "deps_prune_all", "utils_file_as_buf", "utils_file_as_buf_max", "path_mkdirs_for"):
        if f in m.functions:
            todo.append((case_helper, (f,), "helper"))
    for p in ("/a/b/c", "a/b", "/a"):
        todo.append((case_dirs, (p, "path_mkdirs"), "helper"))
    for k in (0, 1, 2):
        todo.append((case_deps, (k,), "helper"))
    sites, seen = set(), set()
    bad = {}
    for (f, a, rule), (found, places, st) in zip(todo, results(lambda t: t[0](ctx, *t[1]), todo)):
        sites |= st
        seen |= places
        label = "%s: %s" % (f.__name__[5:], " ".join(str(x) for x in a if isinstance(x, (str, int)) or isinstance(x, list)) or str(a[0][0]))
        for (name, loc, where), path in found:
            bad.setdefault((rule, name, loc, where), (label, path))
        if not found:
            ctx.ob(rule, label, True, "%d calls" % len(places))
    for (rule, name, loc, where), (label, path) in sorted(bad.items()):
        ctx.ob(rule, label, False, "%s changes %s, which is neither in the cache directory nor a product nor an install destination" % (name, where) if rule == "place" else
               "%s changes %s, which it was not given for writing" % (name, where), loc, path)
    ctx.count("runs", len(todo))
    ctx.count("judged calls", len(seen))
    ctx.require(len(seen), 15, "calls that change files")
    reach = ctx.model.reach(["main"])
    k = 0
    rm = ctx.model.reach(["path_rm_cache"]) if "path_rm_cache" in m.functions else set()
    for fn in sorted(m.functions.values(), key=lambda f: f.name):
        if fn.decl or not fn.file or fn.name not in reach or fn.name in rm:
            continue
        for i in fn.insts():
            if i.op != "call" or not isinstance(i.callee, Function):
                continue
            b = ctx.model.base(i.callee.name)
            if b not in NAMES or b == "path_rm_cache" or (fn.name, i.uid) in sites:
                continue
            k += 1
            ctx.ob("reached", "%s in %s" % (b, fn.name), False, "a call that may change a file is not reached by any analysed run", i.loc())
    ctx.ob("reached", "calls that may change a file", True, "%d sites judged" % len(sites))
