"""P01: a failed command never counts as a success.  (a) the exit code derived from a wait status is zero only for the
status class 'exited with 0' (known bits of the four classes of wait status); (b) the start-and-wait function returns
non-zero on every path on which the program was not found, a pipe or the process could not be created, or the wait
failed, and the status it leaves is the one that was waited for; (c) every caller, on every path, ends the process or
counts the failure after a failing outcome and looks at the exit code before it goes on; (d) a counted failure ends the
process before the build callback returns; (e) the functions that end the process do so with a failure code."""
from sa.lib import *

TECHNIQUE = "path-sensitive typestate analysis of LLVM IR (outcome automaton per command)"
LEVEL_NOTE = ("All paths of the functions that start, wait for and judge commands, private helpers included; outcomes of fork, pipe, wait "
              "and of the commands are enumerated symbolically. Trusts the clang front end and the POSIX description of wait status.")

W = S("WSTATUS")


class Wstat(Rule):
    """known bits of the wait status word, per class"""

    def expr(self, st, op, a, b, ty):
        cl = self.cls
        def low7():
            return NULL if cl in ("exit0", "exitN") else S("SIG")
        if a == W and b[0] == "i":
            k = b[1]
            if op == "and":
                if k == 0x7f:
                    return low7()
                if k == 0xff00:
                    return {"exit0": NULL, "exitN": S("HI8")}.get(cl, S("HIANY"))
                if k == 0xff:
                    return {"exit0": NULL, "exitN": NULL}.get(cl, S("LOW"))
                if k == 0x80:
                    return NULL if cl.startswith("exit") else S("CORE")
            if op in ("lshr", "ashr") and k == 8:
                return {"exit0": NULL, "exitN": S("HI")}.get(cl, S("HIANY"))
        if a == S("HI8") and op in ("lshr", "ashr") and b == ("i", 8):
            return S("HI")
        if a in (S("HI"), S("HI8")) and op == "and" and b in (("i", 0xff), ("i", 0xff00)):
            return a
        return super().expr(st, op, a, b, ty)

    def on_return(self, st, inst, val):
        self.paths += 1
        nz = self.nonzero(st, val)
        if self.cls == "exit0":
            if nz is not False:
                self.report("exit-code", "exited with 0", "a successful command is reported as failed", st, inst)
        elif nz is not True:
            self.report("exit-code", {"exitN": "exited with non-zero", "signal": "killed by a signal"}[self.cls],
                        "the exit code may be zero", st, inst)


def exit_code(ctx):
    ctx.rule("exit-code", "the exit code computed from a wait status is 0 iff the command exited with 0")
    fn = ctx.m.fn("spawn_exit_code")
    for cls in ("exit0", "exitN", "signal"):
        e = Wstat(ctx)
        e.cls, e.paths = cls, 0

        def setup(st):
            st.facts["SIG"] = (1, 127, frozenset())
            st.facts["HI"] = (1, 255, frozenset())
            st.facts["HI8"] = (256, 0xff00, frozenset())
            if cls == "exit0":
                st.facts["WSTATUS"] = (0, 0, frozenset())
            else:
                st.facts["WSTATUS"] = (None, None, frozenset([0]))
            st.facts["SP"] = (None, None, frozenset([0]))
            e.set_cell(st, S("SP"), "spawn", "wstatus", W)
        e.run(fn, [S("SP")], setup=setup)
        finish(ctx, e, "exit-code", cls, fn, "%d paths" % e.paths)
        ctx.count("exit code paths", e.paths)


class Spawn(Rule):
    """q = (forked: None/parent/child/failed, failure or None, waited: None/'ok'/'failed', nowait)"""
    max_states = 40
    max_steps = 3000000

    def fail(self, st, why):
        st.q = (st.q[0], st.q[1] or why, st.q[2], st.q[3])

    def h_fork(self, st, inst, args):
        c, f = st.copy(), st.copy()
        st.q = ("parent",) + st.q[1:]
        c.q = ("child",) + c.q[1:]
        f.q = ("failed",) + f.q[1:]
        self.fail(f, "fork failed")
        f.mem[(("errno",), 0)] = ("i", 11)
        return [(self.fresh(st, inst, "pid", 1), st), (NULL, c), (("i", -1), f)]

    def h_pipe(self, st, inst, args):
        f = st.copy()
        self.fail(f, "no pipe could be created")
        f.mem[(("errno",), 0)] = ("i", 24)
        o = self.obj_of(args[0])
        if o:
            for k in range(2):
                st.mem[(o[0], (o[1] or 0) + 4 * k)] = self.fresh(st, inst, "fd%d" % k, 0)
        return [(NULL, st), (("i", -1), f)]

    def h_waitpid(self, st, inst, args):
        name = inst.callee.name
        sp = args[1] if name == "waitpid" else args[0] if name == "wait" else args[1]
        fi, fe = st.copy(), st.copy()
        st.q = st.q[:2] + ("ok", st.q[3])
        if sp != NULL and self.obj_of(sp):
            v = S("WST")
            self.kill(st, "WST")
            ob = self.obj_of(sp)
            st.mem[ob] = v
            fld = self.field_of(inst.ops[1 if name == "waitpid" else 0])
            if fld:
                st.fields[ob] = fld
        if st.q[0] == "parent" and name == "waitpid" and args[0][0] == "i" and args[0][1] != -1:
            self.report("wait", "process waited for", "something else than the started process is waited for", st, inst)
        fi.q = fi.q[:2] + ("interrupted", fi.q[3])
        fi.mem[(("errno",), 0)] = ("i", 4)
        fe.q = fe.q[:2] + ("failed", fe.q[3])
        fe.mem[(("errno",), 0)] = ("i", 10)
        return [(self.fresh(st, inst, "wpid", 1), st), (("i", -1), fi), (("i", -1), fe)]

    def h_exec(self, st, inst, args):
        return [(("i", -1), st)]

    def h_errno_keep(self, st, inst, args):
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    handlers = {"fork": h_fork, "vfork": h_fork, "pipe": h_pipe, "pipe2": h_pipe, "waitpid": h_waitpid, "wait": h_waitpid, "wait4": h_waitpid,
                "execve": h_exec, "execv": h_exec, "execvp": h_exec, "execvpe": h_exec, "close": h_errno_keep,
                "_akerror": h_errno_keep, "ulist_get": None}

    def on_icall(self, st, inst, field, args):
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    def merge_key(self, q):
        return q

    def on_return(self, st, inst, val):
        self.paths += 1
        forked, failure, waited, nowait = st.q
        if forked == "child":
            return                # judged by P28
        nz = self.nonzero(st, val)
        if failure:
            if nz is not True:
                self.report("start", failure, "success is returned although the command was not started", st, inst)
            return
        if forked != "parent":
            if nz is not True:
                self.report("start", "not started", "success is returned although no process was started", st, inst)
            return
        if nowait:
            return
        if waited != "ok" and nz is not True:
            self.report("wait", "wait " + (waited or "missing"), "success is returned although the outcome of the command is unknown", st, inst)
        if waited == "ok" and nz is not True:
            w = self.get_cell(st, S("SP"), "spawn", "wstatus")
            if w != S("WST"):
                self.report("wait", "status", "the status that is judged is not the one that was waited for", st, inst)
        self.done += 1


def spawn(ctx):
    ctx.rule("start", "failing to find, to pipe to or to fork the command makes the start function return non-zero")
    ctx.rule("wait", "unless told not to wait, success is returned only after the started process was waited for and its status stored")
    for root in roots_of(ctx, {"fork", "vfork", "posix_spawn", "posix_spawnp"}):
        fn = ctx.m.fn(root)
        for nowait in (0, 1):
            e = Spawn(ctx)
            e.handlers = {k: v for k, v in Spawn.handlers.items() if v}
            e.paths = e.done = 0

            def setup(st):
                st.facts["SP"] = (None, None, frozenset([0]))
                e.set_cell(st, S("SP"), "spawn", "nowait", ("i", nowait))
            e.run(fn, [S("SP")], q=(None, None, None, nowait), setup=setup)
            if not e.paths or (not nowait and not e.done):
                raise AnalysisBroken("%s: no path that starts and waits" % root)
            finish(ctx, e, "start", "%s nowait=%d" % (root, nowait), fn, "%d paths" % e.paths)
            ctx.count("start paths", e.paths)


class Caller(Rule):
    """q = (pending outcome: None | 'started' | 'failed:<why>', async?)"""
    max_states = 60
    max_steps = 2000000

    def settle(self, st, inst, where):
        p = st.q[0]
        if p and p.startswith("failed"):
            self.report("caller", "%s %s" % (self.root, p[7:]), "the failure is forgotten: %s" % where, st, inst)
        elif p == "started":
            self.report("caller", "%s exit code" % self.root, "the exit code is not looked at: %s" % where, st, inst)
        st.q = (None, st.q[1])

    def h_create(self, st, inst, args):
        st.q = (st.q[0], False)
        return None

    def h_nowait(self, st, inst, args):
        st.q = (st.q[0], args[1] != NULL)
        return [(TOP, st)]

    def h_do(self, st, inst, args):
        if st.q[0]:
            self.settle(st, inst, "another command is started")
        self.sites.add(inst.loc())
        f = st.copy()
        st.q = ("async" if st.q[1] else "started", st.q[1])
        f.q = ("failed:command could not be started or waited for", f.q[1])
        rv = self.fresh(f, inst, "rc", ne=frozenset([0]))
        return [(NULL, st), (rv, f)]

    def h_wait(self, st, inst, args):
        f = st.copy()
        o = self.obj_of(args[0])
        st.q = ("reaped", st.q[1])
        f.q = ("failed:wait failed", f.q[1])
        if o:
            self.clobber_obj(st, o[0])
        return [(self.fresh(st, inst, "pid", 1), st), (("i", -1), f)]

    def h_code(self, st, inst, args):
        f = st.copy()
        st.q = (None, st.q[1])
        f.q = ("failed:command exited with failure", f.q[1])
        v = self.fresh(f, inst, "code", -1, 255, frozenset([0]))
        return [(NULL, st), (v, f)]

    def on_store(self, st, inst, ptr, val, field):
        # counting the failure: x = x + k
        p = st.q[0]
        if p and p.startswith("failed") and field and val[0] in ("a", "s", "i") and not isinstance(inst.ops[0], Const):
            src = inst.ops[0]
            if isinstance(src, Inst) and src.op == "add":
                for o in src.ops:
                    if isinstance(o, Inst) and o.op == "load" and self.field_of(o.ops[0]) == field:
                        self.counters.add(field)
                        st.q = (None, st.q[1])

    def on_return(self, st, inst, val):
        self.paths += 1
        self.settle(st, inst, "the function returns normally")

    handlers = {"spawn_create": h_create, "spawn_set_nowait": h_nowait, "spawn_do": h_do, "spawn_exit_code": h_code,
                "spawn_pid": lambda self, st, inst, args: [(self.fresh(st, inst, "pid", 1), st)],
                "wait": h_wait, "waitpid": h_wait, "wait3": h_wait}

    def on_icall(self, st, inst, field, args):
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    def merge_key(self, q):
        return q


def callers(ctx):
    ctx.rule("caller", "on every path after a command could not be started or exited with failure, the process is ended or the failure "
             "is counted before the next command and before the function returns; the exit code is looked at")
    roots = roots_of(ctx, "spawn_do")
    ctx.require(len(roots), 4, "functions that run commands")
    counters, sites = {}, set()
    for root in roots:
        fn = ctx.m.fn(root)
        e = Caller(ctx)
        e.root, e.paths, e.counters, e.sites, e.counters_async = root, 0, set(), set(), set()
        h = dict(ulist_models())
        h.update(e.handlers)
        e.handlers = h
        e.run(fn, None, q=(None, False))
        for c in e.counters:
            counters.setdefault(c, set()).add(root)
        sites |= e.sites
        finish(ctx, e, "caller", root, fn, "%d paths" % e.paths)
        ctx.count("caller paths", e.paths)
    ctx.require(len(sites), len(ctx.model.direct_calls("spawn_do")), "calls that run a command analysed")
    return counters


class Counted(Rule):
    max_states = 60

    def on_icall(self, st, inst, field, args):
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    def h_resolve(self, st, inst, args):
        # the rule's action ran: failures may have been counted
        self.opaque_effects(st, inst, "node_resolve", args)
        for k in list(st.mem):
            if st.fields.get(k) == self.counter:
                del st.mem[k]
                del st.fields[k]
        st.q = "resolved"
        st.mem.pop(("CNT", 0), None)
        return [(TOP, st)]

    def on_load(self, st, inst, ptr, val, field):
        if field == self.counter:
            return S("CNT") if st.q == "resolved" else None
        return None

    def on_return(self, st, inst, val):
        if st.q == "resolved":
            self.paths += 1
            lo, hi, ne = self.fact(st, "CNT")
            if not (lo == 0 and hi == 0):
                self.report("counted", "%s %s" % (self.root, self.counter), "returns normally although failures may have been counted", st, inst)

    handlers = {"node_resolve": h_resolve}


def counted(ctx, counters):
    ctx.rule("counted", "a rule that counts failures ends the process before its build callback returns, unless the count is zero")
    for counter in counters:
        # callbacks registered together with the action that counts
        n = 0
        for root in roots_of(ctx, "node_resolve"):
            fn = ctx.m.fn(root)
            own = own_functions(ctx, root)
            acts = {n for n, sites in ctx.model.callbacks("node_resolve.on_resolve").items()
                    if n in counters[counter] and any(i.fn.name in own for i in sites)}
            if not acts:
                continue
            e = Counted(ctx)
            e.root, e.counter, e.paths = root, counter, 0
            e.run(fn, None, q=None, facts={"CNT": (None, None, frozenset())})
            if e.paths:
                n += 1
            finish(ctx, e, "counted", root, fn, "%d paths after the action" % e.paths)
        ctx.require(n, 1, "callers of actions that count failures in " + counter)


class Ender(Rule):
    def h_exit(self, st, inst, args):
        self.n += 1
        if self.nonzero(st, args[0]) is not True:
            self.report("ender", self.root, "the process may end with success", st, inst)
        return []

    def h_abort(self, st, inst, args):
        self.n += 1
        return []

    def on_stop(self, st, inst, name, args):
        self.n += 1

    handlers = {"exit": h_exit, "_exit": h_exit, "_Exit": h_exit, "quick_exit": h_exit, "abort": h_abort, "__assert_fail": h_abort}

    def on_return(self, st, inst, val):
        self.report("ender", self.root, "the function returns", st, inst)


def enders(ctx):
    ctx.rule("ender", "a function that reports a fatal error ends the process with a failure code")
    names = [f for f in ctx.m.defined() if ctx.model.noreturn(f.name) and f.name not in ("main", "_usage")]
    ctx.require(len(names), 3, "functions that end the process")
    for fn in names:
        e = Ender(ctx)
        e.root, e.n = fn.name, 0
        facts = {}
        e.run(fn, None, q=None)
        if not e.n and not e.bad:
            e.report("ender", fn.name, "no path ends the process")
        finish(ctx, e, "ender", fn.name, fn, "%d ends" % e.n)


def run(ctx):
    exit_code(ctx)
    spawn(ctx)
    cs = callers(ctx)
    counted(ctx, cs)
    enders(ctx)
