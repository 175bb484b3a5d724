"""P27: command line options.  The option parser is followed with constant arguments through getopt (its tables are the ones the code passes)
up to the point where a build is started, and the settings reached are compared with those of a run without the option."""
from sa.cli import *

TECHNIQUE = "constant-argument abstract interpretation of the command line front end (LLVM IR); differential comparison of the settings at the start of the build"
LEVEL_NOTE = ("Every documented option in short, long, attached and separate form, alone and in every ordered pair, with missing or surplus arguments, unknown options, "
              "and all entries of the tables passed to getopt. The list of options is taken from the usage text and README and fixed in the rule. "
              "Option values are arbitrary constants that the code does not compare with anything.")

# short, long, takes an argument
DOC = [("H", "cache", 1), ("c", "clean", 0), ("h", "help", 0), ("V", "verbose", 0), ("v", "version", 0), ("l", "options", 0), ("I", "install", 0),
       ("R", "prefix", 1), ("C", "dir", 1), ("J", "jobs", 1), ("D", None, 1), (None, "bindir", 1), (None, "libdir", 1), (None, "includedir", 1),
       (None, "pkgconfdir", 1), (None, "mandir", 1), (None, "datadir", 1)]
DIRS = {"bindir": "bin_dir", "libdir": "lib_dir", "includedir": "include_dir", "pkgconfdir": "pkgconf_dir", "mandir": "man_dir", "datadir": "data_dir"}
ARG = {"J": "3", "D": "OPT=val", "R": "pfx"}
VARS = {"INSTALL_PREFIX": "prefix_dir", "INSTALL_BIN_DIR": "bin_dir", "INSTALL_LIB_DIR": "lib_dir", "INSTALL_DATA_DIR": "data_dir",
        "INSTALL_INCLUDE_DIR": "include_dir", "INSTALL_PKGCONFIG_DIR": "pkgconf_dir", "INSTALL_MAN_DIR": "man_dir"}


def key(d):
    return d[0] or d[1]


def arg(d):
    return ARG.get(d[0], "x" + (d[1] or d[0])) if d[2] else None


def forms(d):
    """spellings of an option"""
    s, l, a = d
    v = arg(d)
    out = []
    if s:
        out += [["-" + s]] if not a else [["-" + s, v], ["-" + s + v]]
    if l:
        out += [["--" + l]] if not a else [["--" + l, v], ["--" + l + "=" + v]]
    return out


class Out:
    """what a run did"""
    def __init__(self, e, words):
        self.e, self.words = e, words
        self.fin = e.run_args(words)
        self.stops = list(e.stops)

    def path(self):
        s = self.fin[0] if self.fin else self.stops[0][0] if self.stops else None
        return s.lines() if s is not None else []

    def events(self, kind):
        return [[x for x in s.q if x[0] == kind] for s in self.fin]

    def settings(self):
        """settings at the start of the build on every path, or None where no build is started"""
        out = []
        for s in self.fin:
            p = [x for x in s.q if x[0] == "prepare"]
            out.append(dict(p[-1][1][1:]) if p else None)
        return out

    def started(self):
        return any(x[0] in ("build", "prepare", "initroot") for s in self.fin + [y[0] for y in self.stops] for x in s.q)

    def usage(self):
        """the run ends with the usage text and failure on every path; otherwise what it does"""
        if self.fin:
            return "the run goes on"
        if not self.stops:
            return "no end of the run was found"
        for s, name, args, inst in self.stops:
            if not any(x[0] == "usage" for x in s.q):
                return "the usage text is not printed"
            c = args[0] if args else TOP
            if name in ("exit", "_exit", "_Exit") and (c[0] != "i" or c[1] == 0):
                return "the process ends with exit code %s" % (c[1] if c[0] == "i" else "unknown")
        return None

    def exit0(self):
        return not self.fin and self.stops and all(n in ("exit", "_exit") and a[0] == NULL for _, n, a, _ in self.stops)


def clean(d):
    return {k: v for k, v in (d or {}).items() if v != NULL and not k.endswith((".pool", "env.cwd"))}


def want(e, base, opts):
    """settings expected with these options (letters or long names), starting from those of a plain run"""
    w = dict(base)
    for d in opts:
        k = key(d)
        v = e.const(arg(d)) if d[2] else None
        if k == "H":
            w["env.project.cache_dir"] = v
        elif k == "c":
            w["env.project.cleanup"] = ("i", 1)
        elif k == "V":
            w["env.verbose"] = ("i", 1)
        elif k == "I":
            w["env.install.enabled"] = ("i", 1)
        elif k == "R":
            w["env.install.enabled"] = ("i", 1)
            w["env.install.prefix_dir"] = e.const("/cwd/" + arg(d))
        elif k == "J":
            w["env.max_parallel_jobs"] = ("i", int(arg(d)))
        elif k == "l":
            w["env.project.options"] = ("some",)
        elif k in DIRS:
            w["env.install." + DIRS[k]] = v
    return w


def same(a, b):
    if a == b:
        return True
    return a is not None and b is not None and a[0] == b[0] == "i" and bool(a[1]) == bool(b[1]) and a[1] in (0, 1, -1) and b[1] in (0, 1, -1)


def shown(e, v):
    if v is None:
        return "not set"
    s = e.string(v)
    return repr(s) if s is not None else str(v[1]) if v[0] == "i" else "an object"


def differ(e, got, exp):
    out = []
    for k in sorted(set(got) | set(exp)):
        if not same(got.get(k), exp.get(k)):
            out.append("%s is %s instead of %s" % (k.replace("env.", ""), shown(e, got.get(k)), shown(e, exp.get(k))))
    return out


def judge(o, base, opts, rootdir=None):
    """problems of a run that must start a build with these options"""
    e = o.e
    out = []
    if o.stops or not o.fin:
        return ["the run stops in %s" % (o.stops[0][1] if o.stops else "?")]
    exp = want(e, base, opts)
    if rootdir:
        exp["env.project.root_dir"] = e.const(rootdir)
    for s, got in zip(o.fin, o.settings()):
        if got is None:
            out.append("no build is started")
            continue
        out += differ(e, clean(got), exp)
        ks = [x[0] for x in s.q]
        sets = [x[1:] for x in s.q if x[0] == "optset"]
        lst = any(key(d) == "l" for d in opts)
        if lst:
            if "initroot" not in ks:
                out.append("the scripts are not read for their options")
            elif "listed" not in ks:
                out.append("the options are not printed")
            if "build" in ks:
                out.append("a build is started although the options are to be listed")
            continue
        if ks.count("build") != 1:
            out.append("the build is started %d times" % ks.count("build"))
            continue
        n = [tuple(x.split("=", 1) + [""])[:2] for d in opts if key(d) == "D" for x in [getattr(o, "dval", arg(d))]]
        exp2 = [(H("UROOT"), e.const(a), e.const(b)) for a, b in n]
        if sets != exp2:
            out.append("the root script gets the options %s instead of %s" % ([tuple(shown(e, v) for v in x[1:]) for x in sets], n))
        elif sets and ("scriptopen" not in ks or ks.index("optset") < ks.index("scriptopen") or ks.index("optset") > ks.index("build")):
            out.append("the options are not set between opening the root script and building it")
    return out


TEXT = {"effect": "the option changes exactly the setting it is documented to control, in each of its spellings",
        "argument": "an option takes an argument exactly when it is documented to",
        "pair": "two options given together both have their effect, in either order",
        "unknown": "an unknown option, or one that lacks its argument, prints the usage and fails",
        "handled": "every option in the tables of the parser is handled",
        "variables": "the install settings are the values of the documented variables of the root script"}


def run(ctx):
    for k, v in TEXT.items():
        ctx.rule(k, v)
    ctx.assume("getopt_long behaves as documented for the tables it is given")
    e = Cli(ctx)
    runs = [0]

    def go(words):
        runs[0] += 1
        return Out(e, words)

    def put(rule, subject, probs, o):
        for w in sorted(set(probs)):
            ctx.ob(rule, subject, False, w, path=o.path())
        if not probs:
            ctx.ob(rule, subject, True, "%d paths" % (len(o.fin) + len(o.stops)))

    o = go([])
    ctx.require(len(o.fin), 1, "runs without options that start a build")
    tables = [x for s in o.fin for x in s.q if x[0] == "getopt"]
    base = clean(o.settings()[0])
    put("effect", "no options", judge(o, base, []) + (["the verbose, clean or install setting is on by default"] if
        any(base.get("env." + k, NULL) != NULL for k in ("verbose", "project.cleanup", "install.enabled")) else []), o)

    def special(d, o):
        k = key(d)
        if k == "h":
            u = o.usage()
            return [u] if u and u != "the process ends with exit code 0" else []
        if k == "v":
            if o.started():
                return ["a build is started"]
            if not o.exit0():
                return ["the process does not end with success"]
            if not all(any(x[0] == "output" for x in s.q) for s, _, _, _ in o.stops):
                return ["no version is printed"]
            return []
        return None

    for d in DOC:
        for f in forms(d):
            sub = " ".join(f)
            if key(d) == "C":
                o = go(f + ["glob", "*.c"])
                bad = []
                for s in o.fin:
                    ks = [x for x in s.q if x[0] in ("chdir", "glob")]
                    if ks[:2] != [("chdir", e.const(arg(d))), ("glob", e.const("*.c"))]:
                        bad.append("the directory is not entered before files are listed")
                    if any(x[0] in ("prepare", "build") for x in s.q):
                        bad.append("a build is started")
                if not o.fin:
                    bad.append("the run stops in %s" % (o.stops[0][1] if o.stops else "?"))
                put("effect", sub + " glob", bad, o)
                continue
            o = go(f)
            r = special(d, o)
            put("effect", sub, judge(o, base, [d]) if r is None else r, o)
            if r is None:
                o = go(f + ["proj"])
                put("argument", sub + " proj", judge(o, base, [d], "proj"), o)
    for dv in ("NAME", "NAME=", "NAME=a=b"):
        d = [x for x in DOC if x[0] == "D"][0]
        for f in (["-D", dv], ["-D" + dv]):
            o = go(f)
            o.dval = dv
            put("effect", " ".join(f), judge(o, base, [d]), o)
    # arguments that are missing or too many
    for d in DOC:
        if d[2]:
            for f in [[x] for x in ("-" + (d[0] or ""), "--" + (d[1] or "")) if x.strip("-")]:
                o = go(f)
                u = o.usage()
                put("unknown", " ".join(f) + " without argument", [u] if u else [], o)
        elif d[1] and key(d) != "h":
            o = go(["--" + d[1] + "=x"])
            u = o.usage()
            put("argument", "--%s=x" % d[1], [u] if u else [], o)
    for f in (["-Z"], ["-?"], ["--zzz"], ["--zzz=1"], ["-cZ"], ["-V", "-Z"], ["-c", "--zzz", "proj"]):
        o = go(f)
        u = o.usage()
        put("unknown", " ".join(f), [u] if u else [], o)
    o = go(["-J", "abc"])
    put("argument", "-J abc", ["a build is started"] if any(x[0] == "build" for s in o.fin for x in s.q) else [], o)
    # pairs
    plain = [d for d in DOC if key(d) not in ("h", "v", "C")]
    for a in plain:
        for b in plain:
            if a is b:
                continue
            fa, fb = forms(a)[0], forms(b)[-1]
            o = go(fa + fb)
            put("pair", " ".join(fa + fb), judge(o, base, [a, b]), o)
    o = go([w for d in plain if key(d) != "l" for w in forms(d)[0]] + ["proj"])
    put("pair", "all options", judge(o, base, [d for d in plain if key(d) != "l"], "proj"), o)
    o = go(["-cVI", "proj"])
    put("pair", "-cVI", judge(o, base, [d for d in DOC if d[0] in ("c", "V", "I")], "proj"), o)
    o = go(["-DA=1", "-D", "B=2"])
    got = [[x[2:] for x in s.q if x[0] == "optset"] for s in o.fin]
    exp = [(e.const("A"), e.const("1")), (e.const("B"), e.const("2"))]
    put("pair", "-DA=1 -D B=2", [] if got and all(g == exp for g in got) else ["the root script does not get both options"], o)
    # the tables
    ctx.require(len(tables), 1, "calls of getopt")
    for t in tables[:1]:
        short, longs = t[1][1].lstrip("+-:"), t[2][1:]
        entries = [(["-" + c], c, short[i + 1:i + 2] == ":") for i, c in enumerate(short) if c not in ":;"] + [(["--" + n], None, a) for n, a, v in longs]
        ctx.require(len(entries), 20, "entries of the option tables")
        for f, c, a in entries:
            name = f[0].lstrip("-")
            if name in ("h", "help"):
                continue
            v = ["3"] if a else []
            o = go(f + v)
            ctx.ob("handled", f[0], o.usage() is not None, "" if o.usage() is not None else "the option is accepted by the parser but falls through to the usage text", path=o.path())
    variables(ctx)
    ctx.count("runs", runs[0])
    ctx.require(runs[0], 250, "runs of the front end")


class Vars(Cli):
    inl = frozenset({"script_open"})

    def inline(self, fn, inst, st):
        return fn.name in self.inl or fn.name in self.more

    def opaque_effects(self, st, inst, name, args):
        keep = {k: v for k, v in st.mem.items() if k[0] == ("g", "g_env")}
        super().opaque_effects(st, inst, name, args)
        st.mem.update(keep)


Vars.handlers = {k: v for k, v in Cli.handlers.items() if k != "script_open"}


def variables(ctx):
    front = own_functions(ctx, "autark_run")
    for f in ctx.m.defined():
        for i in f.insts():
            if i.op == "store" and str(ctx.model.ptr_field(i.ops[1])).startswith("env.install."):
                ctx.ob("variables", "store of %s in %s" % (ctx.model.ptr_field(i.ops[1]), f.name), f.name in front,
                       "" if f.name in front else "an install setting is changed after the command line was read", i.loc())
    e = Vars(ctx)
    e.more = {n for n in own_functions(ctx, "script_open") if n != "script_open" and
              any(isinstance(i.callee, Function) and i.callee.name == "unit_env_set_val" for m in own_functions(ctx, n) for i in ctx.m.functions[m].calls())}
    for on in (0, 1):
        st = State()
        st.q = ()
        st.mem[("zero", ("g", "g_env"))] = ("i", 1)
        for f in VARS.values():
            e.genv(st, "install." + f, e.const("/" + f))
        e.genv(st, "install.enabled", ("i", on))
        fin = e.call_fn(st, "script_open", [e.const("Autark"), H("OUT")])
        ok = [s for s, v in fin if e.nonzero(s, v) is not True]
        bad = {}
        for s in ok:
            got = {e.string(x[2]): x[3] for x in s.q if x[0] == "optset" and x[1] == H("UROOT")}
            for k, f in VARS.items():
                if got.get(k) != e.const("/" + f):
                    bad.setdefault("%s is %s instead of the setting %s" % (k, shown(e, got.get(k)), f), s)
            x = got.get("INSTALL_ENABLED")
            if on and x is None:
                bad.setdefault("INSTALL_ENABLED is not set", s)
            if not on and x is not None:
                bad.setdefault("INSTALL_ENABLED is set although installation was not requested", s)
        sub = "install %s" % ("on" if on else "off")
        ctx.require(len(ok), 1, "successful openings of the root script")
        for w, s in bad.items():
            ctx.ob("variables", sub, False, w, path=s.lines())
        if not bad:
            ctx.ob("variables", sub, True, "%d paths, %d variables" % (len(ok), len(VARS)))
