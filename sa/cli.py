"""The command line front end with constant arguments: getopt over the tables the code really passes, followed up to the start of a build."""
from .scen import *
from .scen import xk, new_text, noop


class FakeInst:
    def __init__(self, kind, bits=0):
        class Ty:
            pass
        self.ty = Ty()
        self.ty.kind, self.ty.bits = kind, bits


class Cli(Scen):
    """env: values of environment variables (None: not set); everything about a started build is an event"""
    inl = frozenset({"autark_run", "main"})
    env = {"HOME": "/home/u", "AUTARK_HOME": "/opt/ak"}
    max_states = 300

    def outcome(self, st, kind, t):
        return None

    def follow_stop(self, fn):
        return fn is not None and not fn.decl and self.model.should_inline(fn)

    def setup_args(self, st):
        for k, a in enumerate(self.argv):
            st.mem[(("h", "ARGV"), 8 * k)] = self.new_buf(st, "arg%d" % k, a)
        st.mem[(("h", "ARGV"), 8 * len(self.argv))] = NULL
        st.mem[(("g", "optind"), 0)] = ("i", 1)
        st.mem[(("g", "optarg"), 0)] = NULL
        return [("i", len(self.argv)), ("p", ("h", "ARGV"), 0)]

    def new_buf(self, st, name, text):
        obj = ("h", name)
        st.mem[(("T", obj, 0), 0)] = self.const(text)
        return ("p", obj, 0)

    def cell_at(self, st, p, off, kind, bits=0):
        p = self.add_off(p, off)
        ob = self.obj_of(p)
        if ob is None:
            return TOP
        v = st.mem.get(ob)
        if v is not None:
            return v
        if ob[0][0] == "g":
            g = self.m.globals.get(ob[0][1])
            if g is not None and g._init:
                r = self.const_init(g, ob[1], FakeInst(kind, bits))
                if r is not None:
                    return r
        if ("zero", ob[0]) in st.mem:
            return NULL
        return TOP

    def long_table(self, st, p):
        out = []
        if p == NULL:
            return out
        for k in range(200):
            n = self.cell_at(st, p, 32 * k, "ptr")
            if n == NULL:
                return out
            s = self.string(self.text(st, n))
            a, fl, v = self.cell_at(st, p, 32 * k + 8, "int", 32), self.cell_at(st, p, 32 * k + 16, "ptr"), self.cell_at(st, p, 32 * k + 24, "int", 32)
            if s is None or a[0] != "i" or v[0] != "i" or fl != NULL:
                raise AnalysisBroken("the table of long options is not constant at entry %d" % k)
            out.append((s, a[1], v[1]))
        raise AnalysisBroken("the table of long options has no end")

    def getopt(self, st, inst, args):
        o = self.string(self.text(st, args[2]))
        if o is None:
            raise AnalysisBroken("the list of short options is not constant")
        longs = self.long_table(st, args[3]) if len(args) > 3 else []
        self.ev(st, "getopt", ("short", o), ("long",) + tuple(longs)) if not any(e[0] == "getopt" for e in st.q) else None
        K = (("C", "getopt-next"), 0)
        nxt = st.mem.get(K, NULL)[1]
        ind = st.mem[(("g", "optind"), 0)]
        if ind[0] != "i":
            raise AnalysisBroken("optind is not tracked")
        i = ind[1]

        def done(v, i, nxt=0, arg=NULL):
            st.mem[(("g", "optind"), 0)] = ("i", i)
            st.mem[(("g", "optarg"), 0)] = arg
            st.mem[K] = ("i", nxt)
            return [(("i", v), st)]
        argv = self.argv
        o2 = o.lstrip("+-:")
        if not nxt:
            if i >= len(argv):
                return done(-1, i)
            w = argv[i]
            if w == "--":
                return done(-1, i + 1)
            if w == "-" or not w.startswith("-"):
                return done(-1, i)
            if w.startswith("--") and len(args) > 3:
                name, eq, val = w[2:].partition("=")
                hit = [x for x in longs if x[0] == name] or [x for x in longs if x[0].startswith(name)]
                if len(hit) != 1:
                    return done(63, i + 1)
                n, a, v = hit[0]
                if eq:
                    if not a:
                        return done(63, i + 1)
                    return done(v, i + 1, 0, self.add_off(st.mem[(("h", "ARGV"), 8 * i)], 2 + len(name) + 1))
                if a == 1:
                    if i + 1 >= len(argv):
                        return done(63, i + 1)
                    return done(v, i + 2, 0, st.mem[(("h", "ARGV"), 8 * (i + 1))])
                return done(v, i + 1)
            nxt = 1
        w = argv[i]
        c = w[nxt]
        k = o2.find(c)
        last = nxt + 1 >= len(w)
        if k < 0 or c in ":;":
            return done(63, i + 1 if last else i, 0 if last else nxt + 1)
        if o2[k + 1:k + 2] == ":":
            if not last:
                return done(ord(c), i + 1, 0, self.add_off(st.mem[(("h", "ARGV"), 8 * i)], nxt + 1))
            if o2[k + 2:k + 3] == ":":
                return done(ord(c), i + 1)
            if i + 1 >= len(argv):
                return done(63, i + 1)
            return done(ord(c), i + 2, 0, st.mem[(("h", "ARGV"), 8 * (i + 1))])
        return done(ord(c), i + 1 if last else i, 0 if last else nxt + 1)

    def getenv(self, st, inst, args):
        k = self.string(self.text(st, args[0]))
        v = self.env.get(k)
        return [(NULL if v is None else self.const(v), st)]

    def dup(self, st, inst, args):
        t = self.text(st, args[1] if inst.callee.name == "pool_strdup" else args[0])
        if t == NULL:
            return [(NULL, st)]
        return [(new_text(self, st, inst, t), st)]

    def strtol(self, st, inst, args):
        s = self.string(self.text(st, args[0]))
        rc = 0
        try:
            v = int(s, 10)
        except (TypeError, ValueError):
            v, rc = 0, 1
        if len(args) > 2 and args[2] != NULL and rc:
            st.mem[self.obj_of(args[2])] = ("i", rc)
        return [(("i", v), st)]

    def snap(self, st):
        """settings as canonical values"""
        out = {}
        for (o, off), v in st.mem.items():
            if o == ("g", "g_env") and isinstance(off, int):
                f = st.fields.get((o, off)) or self.m.field("env", off)
                t = self.text(st, v)
                if v[0] == "i" or self.string(t) is not None or t == NULL:
                    out[str(f)] = t
                else:
                    out[str(f)] = ("some",)
        return out

    def started(self, st, inst, args):
        self.ev(st, "prepare", ("set",) + tuple(sorted(self.snap(st).items())))
        return [(TOP, st)]

    def opened(self, st, inst, args):
        self.ev(st, "scriptopen", ("set",) + tuple(sorted(self.snap(st).items())))
        x = H("SCTX")
        st.mem[("zero", x[1])] = ("i", 1)
        self.set_cell(st, x, "sctx", "root", H("NROOT"))
        ob = self.obj_of(args[1]) if args[1] != NULL else None
        if ob:
            st.mem[ob] = x
        return [(NULL, st)]

    def setval(self, st, inst, args):
        self.ev(st, "optset", args[0], self.text(st, args[1]), self.text(st, args[2]))
        return [(TOP, st)]

    def initroot(self, st, inst, args):
        self.ev(st, "initroot")
        v = st.mem.get((("g", "g_env"), self.offset("env", "project.options")))
        k = xk(self, st, v) if v is not None else None
        if k:
            st.mem[k] = T("options")
        return [(NULL, st)]

    def printed(self, st, inst, args):
        if any(self.text(st, a) == T("options") for a in args):
            self.ev(st, "listed")
        f = args[1] if inst.callee.name in ("fprintf", "vfprintf", "fputs") and len(args) > 1 and inst.callee.name != "fputs" else args[0]
        s = self.string(self.text(st, f))
        if s is not None and "Usage" in s:
            self.ev(st, "usage")
        elif s is not None and inst.callee.name in ("printf", "puts", "putchar"):
            self.ev(st, "output", self.const(s))
        return [(("i", 1), st)]

    def run_args(self, words):
        """all finals and stops of a run of the program with these arguments"""
        self.argv = ["autark"] + list(words)
        self.stops = []
        st = State()
        st.q = ()
        st.mem[("zero", ("g", "g_env"))] = ("i", 1)
        self.genv(st, "cwd", self.const("/cwd"))
        self.genv(st, "pool", H("GPOOL"))
        a = self.setup_args(st)
        st.mem[(("C", "cwd"), 0)] = self.const("/cwd")
        return [s for s, _ in self.call_fn(st, "autark_run", a)]


def ev(kind, *texts):
    def h(self, st, inst, args):
        self.ev(st, kind, *[self.text(st, args[k]) for k in texts])
        return [(self.ret_value(st, inst) if inst.ty.kind != "void" else TOP, st)]
    return h


def zero(kind, *texts):
    def h(self, st, inst, args):
        self.ev(st, kind, *[self.text(st, args[k]) for k in texts])
        return [(NULL, st)]
    return h


Cli.handlers = dict(Scen.handlers, getopt_long=Cli.getopt, getopt=Cli.getopt, getenv=Cli.getenv, pool_strdup=Cli.dup, xstrdup=Cli.dup, strdup=Cli.dup,
                    utils_strtol=Cli.strtol, utils_strtoll=Cli.strtol, autark_init=noop(), autark_dispose=noop(), autark_build_prepare=Cli.started, script_open=Cli.opened,
                    unit_env_set_val=Cli.setval, unit_root=noop(H("UROOT")), script_build=zero("build"), script_close=noop(), node_init=Cli.initroot,
                    printf=Cli.printed, fprintf=Cli.printed, vfprintf=Cli.printed, puts=Cli.printed, fwrite=Cli.printed, fputs=Cli.printed, putchar=Cli.printed,
                    glob=zero("glob", 0), globfree=noop(), chdir=zero("chdir", 0), fflush=noop(NULL))
