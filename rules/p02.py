"""P02: complete delivery of child output.  The function that starts commands is explored with concrete descriptor
identities and every combination of poll(2) event sets and read(2) outcomes: a chunk that was read must be handed to the
handler of its own stream with its exact buffer and length before anything else happens to the stream, a stream may only
be closed after its end was seen (end of file, hang-up without data, hard error), and success is returned only after
both streams ended.  Output handlers that collect text append exactly the bytes they were given."""
from sa.lib import *

TECHNIQUE = "path-sensitive typestate analysis of LLVM IR (stream automaton over all poll/read outcomes)"
LEVEL_NOTE = ("All paths of the output pump for all event-set combinations per poll round, loops to a fixed point. Trusts POSIX poll/read "
              "semantics (hang-up without POLLIN means no pending data) and the clang front end.")

IN, PRI, ERR, HUP, NVAL = 1, 2, 8, 16, 32
REV = [0, IN, IN | HUP, HUP, ERR]
EINTR, EAGAIN, EIO = 4, 11, 5


class Pump(Rule):
    """q = (side, ((fd, state), ...), pending chunk (fd, length, buffer) or None)"""
    max_states = 2500
    max_steps = 6000000
    max_shapes = 400

    def fdstate(self, st, fd):
        return dict(st.q[1]).get(fd)

    def setfd(self, st, fd, s):
        d = dict(st.q[1])
        d[fd] = s
        st.q = (st.q[0], tuple(sorted(d.items())), st.q[2])

    def drop(self, st, inst, where):
        if st.q[2] is not None:
            self.report("deliver", "chunk of " + self.name(st.q[2][0]), "data that was read is not handed over before %s" % where, st, inst)
            st.q = (st.q[0], st.q[1], None)

    def name(self, fd):
        return {1: "stdout", 2: "stderr", 0: "stdin"}.get(self.streams.get(fd & ~1), "a pipe")

    def tidy(self, st):
        """forget what the pump cannot use: only descriptors, the handlers and errno matter from here"""
        for k in list(st.mem):
            keep = k[0] == "errno_nz" or k[0] == ("errno",)
            if k[0] != "zero" and k[0][0] == "al":
                keep = st.mem[k][0] == "i"
            elif k[0] == ("o", "SP"):
                keep = st.mem[k][0] in ("i", "fn")
            if not keep:
                del st.mem[k]
                st.fields.pop(k, None)
        used = set()
        for f in st.frames:
            for v in f.env.values():
                used |= syms(v)
        for k in list(st.facts):
            if k != "SP" and k not in used:
                del st.facts[k]

    def h_pipe(self, st, inst, args):
        f = st.copy()
        f.mem[(("errno",), 0)] = ("i", 24)
        site = (st.ctx, inst.fn.name, inst.uid)
        base = self.bases.setdefault(site, 100 + 2 * len(self.bases))
        o = self.obj_of(args[0])
        if not o:
            raise AnalysisBroken("pipe: descriptor array not tracked")
        st.mem[(o[0], o[1])] = ("i", base)
        st.mem[(o[0], o[1] + 4)] = ("i", base + 1)
        return [(NULL, st), (("i", -1), f)]

    def h_fork(self, st, inst, args):
        self.tidy(st)
        c, f = st.copy(), st.copy()
        st.q = ("parent", tuple((b, "open") for b in sorted(self.streams) if self.streams[b] in (1, 2)), None)
        c.q = ("child",) + c.q[1:]
        f.q = ("failed",) + f.q[1:]
        f.mem[(("errno",), 0)] = ("i", 11)
        return [(self.fresh(st, inst, "pid", 1), st), (NULL, c), (("i", -1), f)]

    def h_dup2(self, st, inst, args):
        if args[0][0] == "i" and args[1][0] == "i":
            self.found[args[0][1] & ~1] = args[1][1]
        return [(args[1], st)]

    def h_poll(self, st, inst, args):
        if st.q[0] != "parent":
            return None
        self.drop(st, inst, "the next poll")
        self.tidy(st)
        o = self.obj_of(args[0])
        n = args[1][1] if args[1][0] == "i" else None
        if not o or n is None:
            raise AnalysisBroken("poll: descriptor table not tracked")
        self.polls += 1
        for k in range(n):
            fd = st.mem.get((o[0], o[1] + 8 * k))
            if fd is not None and fd[0] == "i" and self.fdstate(st, fd[1]) in ("hup", "eof"):
                self.report("end", self.name(fd[1]), "the end of the stream is ignored: it is waited for again", st, inst)
                return []
        out = []
        for e in (EINTR, EIO):
            f = st.copy()
            f.mem[(("errno",), 0)] = ("i", e)
            f.q = (f.q[0], tuple((fd, "pollerr" if e == EIO and s in ("open", "ready") else s) for fd, s in f.q[1]), None)
            out.append((("i", -1), f))
        states = [st]
        for k in range(n):
            fd = st.mem.get((o[0], o[1] + 8 * k))
            nxt = []
            for s in states:
                live = fd is not None and fd[0] == "i" and self.fdstate(s, fd[1]) in ("open", "ready", "hup", "eof")
                for r in (REV if live else [0]):
                    s2 = s.copy()
                    if self.fdstate(s, fd[1] if fd and fd[0] == "i" else None) == "eof" and r:
                        continue
                    s2.mem[(o[0], o[1] + 8 * k + 6)] = ("i", r)
                    s2.mem[(o[0], o[1] + 8 * k + 4)] = ("i", IN)
                    if live and r:
                        self.setfd(s2, fd[1], "ready" if r & IN else "hup")
                    elif live:
                        self.setfd(s2, fd[1], "open")
                    nxt.append(s2)
            states = nxt
        for s in states:
            out.append((("i", 1), s))
        return out

    def h_read(self, st, inst, args):
        if args[0][0] != "i" or self.fdstate(st, args[0][1]) is None:
            return None
        fd = args[0][1]
        self.drop(st, inst, "the next read")
        self.reads += 1
        out = []
        s = st.copy()
        sz = args[2][1] if args[2][0] == "i" else None
        nv = self.fresh(s, inst, "n", 1, sz)
        self.setfd(s, fd, "open")
        s.q = (s.q[0], s.q[1], (fd, nv, args[1]))
        out.append((nv, s))
        s = st.copy()
        self.setfd(s, fd, "eof")
        out.append((NULL, s))
        for e in (EINTR, EAGAIN, EIO):
            s = st.copy()
            s.mem[(("errno",), 0)] = ("i", e)
            if e == EIO:
                self.setfd(s, fd, "readerr")
            out.append((("i", -1), s))
        return out

    def h_close(self, st, inst, args):
        if st.q[0] == "parent" and args[0][0] == "i":
            fd = args[0][1]
            s = self.fdstate(st, fd)
            if s is not None:
                if st.q[2] and st.q[2][0] == fd:
                    self.drop(st, inst, "the stream is closed")
                if s in ("open", "ready"):
                    self.report("close", self.name(fd), "the stream is closed while data may still be pending", st, inst)
                    self.setfd(st, fd, "lost")
                elif s in ("hup", "eof"):
                    self.setfd(st, fd, "done")
                elif s in ("readerr", "pollerr"):
                    self.setfd(st, fd, "failed")
        return [(NULL, st)]

    def h_sink(self, which):
        def h(self, st, inst, args):
            p = st.q[2]
            if p is None:
                self.report("deliver", which, "the handler is called without new data", st, inst)
                return [(TOP, st)]
            fd, n, buf = p
            if self.streams.get(fd & ~1) != {"stdout": 1, "stderr": 2}[which]:
                self.report("deliver", which, "data of %s goes to the handler of %s" % (self.name(fd), which), st, inst)
            if args[0] != buf:
                self.report("deliver", which, "the handler gets another buffer than the one that was read into", st, inst)
            if args[1] != n:
                self.report("deliver", which, "the handler gets another length than the one that was read", st, inst)
            self.sinks.add(which)
            st.q = (st.q[0], st.q[1], None)
            return [(TOP, st)]
        return h

    def on_icall(self, st, inst, field, args):
        return [(TOP if inst.ty.kind == "void" else NULL, st)]

    def h_quiet(self, st, inst, args):
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    def on_return(self, st, inst, val):
        self.paths += 1
        if st.q[0] != "parent":
            return
        self.drop(st, inst, "the function returns")
        if self.nonzero(st, val) is True:
            return
        for fd, s in st.q[1]:
            if s not in ("done", "eof", "hup"):
                self.report("end", self.name(fd), "success may be returned although the %s" % {
                    "failed": "stream could not be read", "readerr": "stream could not be read", "pollerr": "stream could not be waited for",
                }.get(s, "end of the stream was not seen"), st, inst)
        self.good += 1


def run(ctx):
    ctx.rule("deliver", "every chunk read from a stream goes to that stream's handler, with the buffer and length of the read")
    ctx.rule("close", "a stream is closed only after end of file, hang-up without data, or a hard error")
    ctx.rule("end", "success is returned only after both streams reached their end")
    ctx.rule("collect", "an output handler that collects text appends the buffer and length it was given")
    roots = roots_of(ctx, {"fork", "vfork", "posix_spawn"})
    ctx.require(len(roots), 1, "functions that start commands")
    for root in roots:
        fn = ctx.m.fn(root)
        streams, bases = {}, {}
        for phase in (1, 2):
            e = Pump(ctx)
            e.streams, e.bases, e.found = streams, bases, {}
            e.paths = e.polls = e.reads = e.good = 0
            e.sinks = set()
            e.handlers = {"pipe": Pump.h_pipe, "pipe2": Pump.h_pipe, "fork": Pump.h_fork, "vfork": Pump.h_fork, "dup2": Pump.h_dup2, "poll": Pump.h_poll,
                          "read": Pump.h_read, "close": Pump.h_close, "@stdout": Pump.h_sink(None, "stdout"), "@stderr": Pump.h_sink(None, "stderr"),
                          "waitpid": lambda self, st, inst, args: [(self.fresh(st, inst, "w", 1), st)],
                          "execve": lambda self, st, inst, args: [(("i", -1), st)],
                          "pool_strdup": Pump.h_quiet, "ulist_get": Pump.h_quiet}

            def setup(st):
                st.facts["SP"] = (None, None, frozenset([0]))
                e.set_cell(st, S("SP"), "spawn", "nowait", NULL)
                e.set_cell(st, S("SP"), "spawn", "stdin_provider", NULL)
                e.set_cell(st, S("SP"), "spawn", "stdout_handler", ("fn", "@stdout"))
                e.set_cell(st, S("SP"), "spawn", "stderr_handler", ("fn", "@stderr"))
            if phase == 1:
                e.h_poll = None
                e.handlers["poll"] = lambda self, st, inst, args: []
            e.run(fn, [S("SP")], q=("start", (), None), setup=setup)
            if phase == 1:
                streams.update(e.found)
                if sorted(v for v in streams.values() if v in (1, 2)) != [1, 2]:
                    raise AnalysisBroken("the pipes of stdout and stderr were not identified")
                continue
            if not e.polls or not e.reads or not e.good:
                raise AnalysisBroken("output pump not recognised (poll %d, read %d, complete %d)" % (e.polls, e.reads, e.good))
            if e.sinks != {"stdout", "stderr"} and not e.bad:
                e.report("deliver", "handlers", "no path hands data to the handler of " + ", ".join({"stdout", "stderr"} - e.sinks))
            finish(ctx, e, "deliver", root, fn, "%d paths, %d of them complete" % (e.paths, e.good))
            if not e.bad:
                ctx.ob("close", root, True, "", fn.loc())
                ctx.ob("end", root, True, "", fn.loc())
            ctx.count("pump paths", e.paths)
    # collectors
    n = 0
    for field in ("spawn.stdout_handler", "spawn.stderr_handler"):
        for name in ctx.model.callbacks(field):
            f = ctx.m.fn(name)
            for c in [c for g in own_functions(ctx, name) for c in ctx.m.functions[g].calls()]:
                cn = c.callee.name if isinstance(c.callee, Function) else ""
                if not cn.startswith("xstr_"):
                    continue
                n += 1
                if c.fn is not f:
                    continue
                ok = cn == "xstr_cat2" and c.ops[1] is f.args[0] and root_val(c.ops[2]) is f.args[1]
                ctx.ob("collect", name, ok, "" if ok else "the text collected is not exactly the chunk that was delivered", c.loc())
    ctx.require(n, 1, "collecting output handlers")


def root_val(v):
    while isinstance(v, Inst) and v.op in ("zext", "sext", "trunc", "bitcast"):
        v = v.ops[0]
    return v
