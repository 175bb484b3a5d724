"""P28: direct execution.  (1) The program calls no function that interprets its argument as a command line, and a shell is
started only on paths on which the rule part was found to be the documented `shell` section.  (2) From fork to the end of
the child every path only redirects descriptors, executes the program or leaves at once with failure; at the exec, stdout
and stderr refer to the pipes, no other pipe end is open and the argument vector is exactly the list of arguments."""
from sa.lib import *

TECHNIQUE = "path-sensitive typestate analysis of the child branch on LLVM IR (descriptor table and argument vector), effect analysis of the call graph"
LEVEL_NOTE = "All paths of the child for waiting and non-waiting starts, with and without an input provider; every call of the program for the effect rule."

INTERPRET = {"system", "popen", "wordexp", "__isoc99_system", "execlp", "execl", "execle"}
SHELLS = {"sh", "bash", "dash", "zsh", "ksh", "ash", "csh"}
EXEC = {"execve", "execv", "execvp", "execvpe", "fexecve", "execveat"}
END = {"_exit", "_Exit"}
QUIET = {"perror", "write", "fprintf", "fputs", "strerror", "__errno_location", "fputc", "dprintf", "signal", "sigaction", "sigprocmask",
         "sigemptyset", "pthread_sigmask", "setpgid", "fcntl", "putc", "strlen", "strchr", "access", "fwrite"}


class Child(Rule):
    """q = (side, ((fd, what it refers to), ...), dup2 failed?)"""
    max_states = 200
    max_steps = 1500000
    widen_cursor = False

    def fds(self, st):
        return dict(st.q[1])

    def setfds(self, st, d):
        st.q = (st.q[0], tuple(sorted(d.items())), st.q[2])

    def h_pipe(self, st, inst, args):
        site = (st.ctx, inst.fn.name, inst.uid)
        base = self.bases.setdefault(site, 100 + 2 * len(self.bases))
        o = self.obj_of(args[0])
        if not o:
            raise AnalysisBroken("pipe: descriptor array not tracked")
        st.mem[(o[0], o[1])] = ("i", base)
        st.mem[(o[0], o[1] + 4)] = ("i", base + 1)
        d = self.fds(st)
        d[base], d[base + 1] = "r%d" % base, "w%d" % base
        if inst.callee.name == "pipe2" and len(args) > 1 and args[1][0] == "i" and args[1][1] & 0o2000000:
            self.cloexec |= {base, base + 1}
        self.setfds(st, d)
        return [(NULL, st)]

    def h_fork(self, st, inst, args):
        self.forks += 1
        st.q = ("child", st.q[1], False)
        return [(NULL, st)]

    def h_dup2(self, st, inst, args):
        if st.q[0] != "child":
            return None
        f = st.copy()
        f.q = ("child", f.q[1], True)
        d = self.fds(st)
        if args[0][0] != "i" or args[1][0] != "i":
            self.report("redirect", self.root, "descriptors are redirected to unknown numbers", st, inst)
        else:
            if args[0][1] not in d:
                self.report("redirect", self.root, "a descriptor that is not open is duplicated", st, inst)
            d[args[1][1]] = d.get(args[0][1], "?")
            self.setfds(st, d)
        return [(args[1], st), (("i", -1), f)]

    def h_close(self, st, inst, args):
        if st.q[0] == "child":
            if args[0][0] != "i":
                return [(NULL, st)]
            d = self.fds(st)
            if args[0][1] in d:
                del d[args[0][1]]
                self.setfds(st, d)
        return [(NULL, st)]

    def h_exec(self, st, inst, args):
        if st.q[0] != "child":
            self.report("child", self.root, "a program is executed outside of the child", st, inst)
            return []
        self.execs += 1
        d = self.fds(st)
        if st.q[2]:
            self.report("redirect", self.root, "the program is executed although redirecting a descriptor failed", st, inst)
        elif not self.nowait:
            for fd, nm in ((1, "stdout"), (2, "stderr")):
                w = d.get(fd)
                if w is None or w[0] != "w":
                    self.report("redirect", self.root, "%s of the program is not a pipe" % nm, st, inst)
            if d.get(1) == d.get(2):
                self.report("redirect", self.root, "stdout and stderr are the same pipe", st, inst)
        if self.provider:
            w = d.get(0)
            if w is None or w[0] != "r":
                self.report("redirect", self.root, "stdin of the program is not the input pipe", st, inst)
        left = [w for fd, w in d.items() if fd > 2 and fd not in self.cloexec]
        if left:
            self.report("redirect", self.root, "%d pipe ends stay open in the program" % len(left), st, inst)
        # argument vector
        a = args[1] if len(args) > 1 else TOP
        o = self.obj_of(a)
        if o and isinstance(o[1], int):
            got = [st.mem.get((o[0], o[1] + 8 * k)) for k in range(self.nargs + 1)]
            want = [S("ARG%d" % k) for k in range(self.nargs)] + [NULL]
            if got != want:
                self.report("argv", self.root, "the argument vector is not the list of arguments followed by null", st, inst)
        else:
            self.report("argv", self.root, "the argument vector is not an array built from the list of arguments", st, inst)
        st.mem[(("errno",), 0)] = ("i", 2)
        return [(("i", -1), st)]

    def h_get(self, st, inst, args):
        o = self.obj_of(args[0])
        off = self.offset("spawn", "args")
        if o and o[0] == ("o", "SP") and o[1] == off:
            if args[1][0] == "i":
                k = args[1][1]
                if 0 <= k < self.nargs:
                    return [(("p", ("o", "EL%d" % k), 0), st)]
                return [(NULL, st)]
            return [(self.fresh(st, inst, "el", ne=frozenset([0])), st)]
        return None

    def h_listop(self, st, inst, args):
        o = self.obj_of(args[0])
        if o and o[0] == ("o", "SP") and o[1] == self.offset("spawn", "args"):
            return None     # the argument list itself changes: forget it
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    def on_load(self, st, inst, ptr, val, field):
        o = self.obj_of(ptr)
        if o and o[1] == 0 and o[0][0] == "o" and isinstance(o[0][1], str) and o[0][1].startswith("EL"):
            st.facts["ARG" + o[0][1][2:]] = (None, None, frozenset([0]))
            return S("ARG" + o[0][1][2:])
        return None

    def on_call(self, st, inst, name, args):
        if st.q[0] == "child" and name not in self.handlers and name not in END:
            f = self.m.functions.get(name)
            if name.startswith("llvm.") or name in QUIET:
                return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]
            if f is None or f.decl or not self.model.should_inline(f):
                self.report("child", self.root, "the child calls %s" % name, st, inst)
                return []
        if st.q[0] != "child" and name in self.skip:
            return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]
        return super().on_call(st, inst, name, args)

    def on_icall(self, st, inst, field, args):
        if st.q[0] == "child":
            self.report("child", self.root, "the child calls a callback", st, inst)
            return []
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    def follow_stop(self, fn):
        return fn is not None and not fn.decl and self.model.should_inline(fn)

    def on_stop(self, st, inst, name, args):
        if st.q[0] != "child":
            return
        if name not in END:
            self.report("child", self.root, "the child ends through %s" % name, st, inst)
        elif self.nonzero(st, args[0]) is not True:
            self.report("child", self.root, "the child may end with success without having executed the program", st, inst)
        else:
            self.ends += 1

    def on_return(self, st, inst, val):
        if st.q[0] == "child":
            self.report("child", self.root, "the child returns and goes on as a second build", st, inst)

    skip = {"xstr_create_empty", "xstr_cat", "xstr_cat2", "xstr_destroy", "xstr_ptr", "puts", "strchr", "akerror", "_akerror"}
    handlers = {"pipe": h_pipe, "pipe2": h_pipe, "fork": h_fork, "vfork": h_fork, "dup2": h_dup2, "dup3": h_dup2, "close": h_close, "ulist_get": h_get,
                "ulist_push": h_listop, "ulist_remove": h_listop, "ulist_pop": h_listop, "ulist_insert": h_listop, "ulist_unshift": h_listop,
                "ulist_shift": h_listop, "ulist_reset": h_listop, "ulist_clear": h_listop,
                "spawn_env_set": lambda self, st, inst, args: [(TOP, st)]}


for _n in EXEC:
    Child.handlers[_n] = Child.h_exec


class Shell(Rule):
    """q: was the rule part found to be a shell section?"""
    max_states = 40

    def h_strcmp(self, st, inst, args):
        if "shell" in (self.string(args[0]), self.string(args[1])):
            s = st.copy()
            st.q = True
            s.q = False
            return [(NULL, st), (("i", 1), s)]
        return m_strcmp(self, st, inst, args)

    def h_create(self, st, inst, args):
        self.n += 1
        s = self.string(args[0])
        if s is not None and s.rsplit("/", 1)[-1] in SHELLS:
            self.shells += 1
            if not st.q:
                self.report("direct", self.root, "a shell is started outside of the documented shell section", st, inst)
        return None

    def on_icall(self, st, inst, field, args):
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    handlers = {"strcmp": h_strcmp, "spawn_create": h_create}


class AddArg(Rule):
    """what is appended to the argument list of a command"""
    max_states = 60

    def h_copy(self, st, inst, args):
        a = args[1]
        n = args[2] if len(args) > 2 else None
        v = self.fresh(st, inst, "copy", ne=frozenset([0]))
        if a == S("ARG") and n is None:
            st.q = st.q | {(v, "whole")}
        elif a == S("ITEM") and n == S("LEN"):
            st.q = st.q | {(v, "item")}
        elif a == S("ARG") and n is not None:
            st.q = st.q | {(v, "whole" if n == ("i", -1) else "part")}
        return [(v, st)]

    def h_push(self, st, inst, args):
        o = self.obj_of(args[0])
        d = self.obj_of(args[1])
        if o and o[0] == ("o", "SP") and o[1] == self.offset("spawn", "args"):
            v = st.mem.get(d) if d else None
            self.pushes += 1
            if not any(x == v and k != "part" for x, k in st.q):
                self.report("args", "spawn_arg_add", "what is added to the argument list is not a copy of the given text or of one of its list items", st, inst)
        return [(TOP, st)]

    def h_iter_init(self, st, inst, args):
        if args[0] != S("ARG"):
            self.report("args", "spawn_arg_add", "the items of another text are added", st, inst)
        return [(TOP, st)]

    def h_iter_next(self, st, inst, args):
        s = st.copy()
        self.set_cell(st, args[0], "vlist_iter", "item", S("ITEM"))
        self.set_cell(st, args[0], "vlist_iter", "len", S("LEN"))
        return [(("i", 1), st), (NULL, s)]

    def on_call(self, st, inst, name, args):
        f = self.m.functions.get(name)
        if any(fr.fn is f for fr in st.frames):
            # recursion for one item: the same analysis applies to it
            if not (S("ITEM") in args and S("LEN") in args):
                self.report("args", "spawn_arg_add", "an item is added with another start or length", st, inst)
            return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]
        return super().on_call(st, inst, name, args)

    handlers = {"pool_strdup": h_copy, "pool_strndup": h_copy, "ulist_push": h_push, "vlist_iter_init": h_iter_init, "vlist_iter_next": h_iter_next}


def run(ctx):
    ctx.rule("args", "only the given text, or each item of it when it is a list value, is added to the argument list, unchanged")
    e = AddArg(ctx)
    e.pushes = 0
    e.run(ctx.m.fn("spawn_arg_add"), [S("SP"), S("ARG")], q=frozenset(), facts={"SP": (None, None, frozenset([0]))})
    if not e.pushes:
        raise AnalysisBroken("spawn_arg_add: nothing is appended to the argument list")
    finish(ctx, e, "args", "spawn_arg_add", ctx.m.fn("spawn_arg_add"), "%d additions" % e.pushes)
    ctx.rule("direct", "no function that interprets a command line is called; a shell is started only for a `shell` section")
    ctx.rule("child", "the child only redirects descriptors, executes the program, and ends at once with failure if that fails")
    ctx.rule("redirect", "at the exec the standard streams are the pipes, failures to redirect ended the child, no other pipe end is open")
    ctx.rule("argv", "the argument vector given to exec is exactly the list of arguments, in order, followed by null")
    m = ctx.m
    for f in m.defined():
        hits = [i for i in f.calls() if isinstance(i.callee, Function) and i.callee.name in INTERPRET]
        for i in hits:
            ctx.ob("direct", "%s %s" % (f.name, i.callee.name), False, "a command line is interpreted by %s" % i.callee.name, i.loc())
        execs = [i for i in f.calls() if isinstance(i.callee, Function) and i.callee.name in EXEC]
        ctx.count("exec calls", len(execs))
    forks = {"fork", "vfork", "posix_spawn", "posix_spawnp", "clone"}
    roots = roots_of(ctx, forks)
    ctx.require(len(roots), 1, "functions that start commands")
    eroots = set(roots_of(ctx, EXEC))
    ctx.ob("child", "exec sites", eroots <= set(roots), "programs are executed from %s, where no child was started" % ", ".join(eroots - set(roots)) if not eroots <= set(roots) else "")
    for root in roots:
        fn = m.fn(root)
        for nowait in (0, 1):
            for provider in (0, 1):
                e = Child(ctx)
                e.root, e.nowait, e.provider, e.nargs = root, nowait, provider, 3
                e.bases, e.cloexec, e.forks, e.execs, e.ends = {}, set(), 0, 0, 0

                def setup(st):
                    st.facts["SP"] = (None, None, frozenset([0]))
                    st.mem[(("g", "environ"), 0)] = ("p", ("z",), 0)      # the environment does not matter here
                    e.set_cell(st, S("SP"), "spawn", "nowait", ("i", nowait))
                    e.set_cell(st, S("SP"), "spawn", "stdin_provider", ("fn", "@provider") if provider else NULL)
                    e.set_cell(st, S("SP"), "spawn", "stdout_handler", ("fn", "@h"))
                    e.set_cell(st, S("SP"), "spawn", "stderr_handler", ("fn", "@h"))
                    st.mem[(("o", "SP"), e.offset("spawn", "args") + e.offset("ulist", "num"))] = ("i", e.nargs)
                    st.fields[(("o", "SP"), e.offset("spawn", "args") + e.offset("ulist", "num"))] = "ulist.num"
                    st.mem[(("o", "SP"), e.offset("spawn", "env") + e.offset("ulist", "num"))] = NULL
                    st.fields[(("o", "SP"), e.offset("spawn", "env") + e.offset("ulist", "num"))] = "ulist.num"
                e.run(fn, [S("SP")], q=("start", (), False), setup=setup)
                if not e.forks or (not e.execs and not e.bad):
                    raise AnalysisBroken("%s: no path through fork and exec was recognised" % root)
                finish(ctx, e, "child", "%s nowait=%d input=%d" % (root, nowait, provider), fn, "%d exec, %d immediate ends" % (e.execs, e.ends))
                ctx.count("child ends", e.ends)
    n = sh = 0
    for root in roots_of(ctx, "spawn_create"):
        e = Shell(ctx)
        e.root, e.n, e.shells = root, 0, 0
        h = dict(ulist_models())
        h.update(Shell.handlers)
        e.handlers = h
        e.run(m.fn(root), None, q=False)
        n += e.n
        sh += e.shells
        finish(ctx, e, "direct", root, m.fn(root), "%d starts, %d of a shell" % (e.n, e.shells))
    ctx.require(n, 4, "places that start commands")
