"""P10: parallel compile jobs.  The compile rule is followed with a bound of jobs, sources that are lists, and waits that return any of
the running processes; starts, ends and the recorded outcomes are events of a path."""
from rules.p04 import Dep, Judge, show, is_deps, T, FILE, FILE_OUTDATED, scenarios, play, NULL
from sa.ruleset import *
from sa.lib import Rule, roots_of

TECHNIQUE = "path-sensitive abstract interpretation of LLVM IR: event automaton of starting and reaping processes, all completion orders"
LEVEL_NOTE = ("cc/cxx with one, two and three sources and job limits 1, 2, 3, 0 and -1; every order in which the processes end, every combination of "
              "success, failure, killed or not startable; whole and partial rebuilds. The scheduling loop is one loop over sources and running jobs, so the "
              "small bounds cover filling, draining and refilling; larger numbers of sources are not enumerated.")


class Jobs(Dep):
    force = None

    def outcome(self, st, kind, t):
        if kind == "access":
            return True
        return Dep.outcome(self, st, kind, t)

    def m_do(self, st, inst, args):
        if sum(x[0] in ("run", "runfail") for x in st.q) > 3:
            self.stops.append((st.copy_full(), "start", args, inst))
            return []
        return Play.handlers["spawn_do"](self, st, inst, args)

    def m_close(self, st, inst, args):
        f = self.get_cell(st, args[0], "deps", "file")
        if f != H("RFILE"):
            self.ev(st, "close")
        self.set_cell(st, args[0], "deps", "file", NULL)
        return [(NULL, st)]

    def m_open(self, st, inst, args):
        return [x for x in Play.handlers["deps_open"](self, st, inst, args) if not (x[1].q and x[1].q[-1][0] == "openfail")]

    def m_rename(self, st, inst, args):
        self.ev(st, "rename", self.text(st, args[0]), self.text(st, args[1]))
        return [(NULL, st)]


Jobs.handlers = dict(Play.handlers, spawn_do=Jobs.m_do, deps_close=Jobs.m_close, deps_open=Jobs.m_open, rename=Jobs.m_rename, utils_rename_file=Jobs.m_rename)


def src_of(j, sc, q, s):
    """source a command compiles"""
    ps = [j.abs(j.e.const(x), j.dir) for x in sc.sources]
    hit = [p for x in q if x[0] == "arg" and x[1] == s for p in ps if j.abs(x[2]) == p]
    return hit[0] if len(set(hit)) == 1 else None


def problems(r, sc, st, final, limit):
    out = []
    j = Judge(r, st)
    q = st.q
    run, started, done = [], {}, {}
    nowait = {x[1] for x in q if x[0] == "nowait"}
    for x in q:
        if x[0] in ("run", "runfail"):
            s = src_of(j, sc, q, x[1])
            if s is None:
                out.append(("once", "a compile command does not name exactly one source"))
            if s in started:
                out.append(("once", "%s is compiled more than once in a run" % show(r.e, s)))
            started[s] = x[1]
            if x[0] == "run":
                if x[1] in nowait:
                    run.append(x[1])
                if len(run) > limit:
                    out.append(("bound", "%d compile processes run at the same time with a limit of %d" % (len(run), limit)))
            else:
                done[x[1]] = False
        elif x[0] == "reaped":
            if x[1] in run:
                run.remove(x[1])
            else:
                out.append(("reaped", "a process is taken for one that is not running"))
        elif x[0] in ("exit0", "exit1"):
            if x[1] in done:
                continue
            if x[1] in nowait:
                w = [y for y in q if y[0] == "wstatus" and y[1] == x[1]]
                if not w or w[-1][2] != T("status", x[1]):
                    out.append(("own", "the outcome of a compile process is judged by a status that is not its own"))
            done[x[1]] = x[0] == "exit0"
    vis = any(x[0] == "rename" and is_deps(x[2]) for x in q)
    if not final and q and q[-1] == ("waitfail",) and not run:
        out.append(("reaped", "the rule fails because it waits although no process is running"))
    ends = final or vis
    if ends and run:
        out.append(("reaped", "the rule ends while a compile process is still running"))
    if ends:
        rec = [x[1:] for x in q if x[0] == "add"]
        for s, c in started.items():
            if c not in done:
                out.append(("own", "the outcome of a compile process is never looked at"))
        for x in sc.sources:
            p = j.abs(r.e.const(x), j.dir)
            good = any(a[0][1] == FILE and j.abs(a[2]) == p for a in rec)
            bad = any(a[0][1] == FILE_OUTDATED and j.abs(a[2]) == p for a in rec)
            fail = p in started and done.get(started[p]) is False
            if fail and (good or not bad):
                out.append(("own", "the failed compilation of %s is not recorded as failed" % show(r.e, p)))
            if p in started and not fail and bad and started[p] in done:
                out.append(("own", "the successful compilation of %s is recorded as failed" % show(r.e, p)))
            if not good and not bad:
                out.append(("own", "the outcome of %s is not recorded" % show(r.e, p)))
    if final and False in done.values():
        out.append(("lost", "the rule ends normally although a compilation failed"))
    if final and any(x[0] == "waitfail" for x in q):
        out.append(("lost", "the rule ends normally although waiting for a process failed"))
    return out


TEXT = {"bound": "before each start fewer processes run than the limit of jobs (at least one is allowed)",
        "reaped": "every started process is waited for before the rule ends or its record becomes visible",
        "once": "every source is handed to at most one command per run",
        "own": "the outcome recorded for a source is that of its own process",
        "lost": "any failed compilation, in any position and order, makes the rule end with failure",
        "setting": "the configured number of jobs is clamped to 1..16"}


def run(ctx):
    for k, v in TEXT.items():
        ctx.rule(k, v)
    ctx.assume("wait() returns any of the running children, or fails")
    ctx.assume("the number of jobs is given by the setting; the scheduling loop is explored with limits up to three")
    setting(ctx)
    total = 0
    todo = []
    for sc in scenarios(ctx):
        if sc.kind != "cc":
            continue
        if "two sources" in sc.label and "one job" not in sc.label:
            todo += [(sc, 2), (sc, 3)]
        elif "two sources" in sc.label:
            todo += [(sc, 1), (sc, 0), (sc, -1)]
        elif "three" in sc.label:
            todo += [(sc, 2), (sc, 1)]
        elif "one source" in sc.label:
            todo += [(sc, 2)]
    seen = 0
    for sc, jobs in todo:
        sc.jobs = jobs
        limit = max(jobs, 1)
        runs = [("", ())]
        rec = None
        while runs:
            label, recs = runs.pop(0)
            r = play(ctx, sc, type("J", (Jobs,), {"force": True if not recs else False, "lines": 1}), recs=recs, tweak=lambda e: setattr(e, "lines", []))
            bad, n = {}, 0
            for st, final, inst in [(x, True, None) for x in r.finals] + [(x[0], False, x[3]) for x in r.stops]:
                n += 1
                for k, w in problems(r, sc, st, final, limit):
                    bad.setdefault((k, w), (st, inst))
                seen = max(seen, len({x[1] for x in st.q if x[0] == "nowait"}))
            if not r.finals:
                bad[("lost", "the rule never ends normally")] = (None, None)
            sub = "%s, limit %d%s" % (sc.label, jobs, label)
            for k in TEXT:
                if k == "setting":
                    continue
                b = [(w, v) for (kk, w), v in bad.items() if kk == k]
                for w, (st, inst) in b:
                    ctx.ob(k, sub, False, w, inst.loc() if inst else "", path=st.lines() if st else [])
                if not b:
                    ctx.ob(k, sub, True, "%d paths" % n)
                    total += n
            if not recs and r.finals and not bad:
                es = [e[1:] for e in r.finals[0].q if e[0] == "add"]
                ks = [k for k, x in enumerate(es) if x[1] == ("i", 115) and x[0][1] == FILE]
                for k in ks:
                    runs.append((", source %d outdated" % ks.index(k), [tuple(x) + (int(i == k),) for i, x in enumerate(es)]))
                if len(ks) > 1:
                    runs.append((", all sources outdated", [tuple(x) + (int(i in ks),) for i, x in enumerate(es)]))
    ctx.require(seen, 2, "compile processes started without waiting on one path")
    ctx.require(total, 400, "paths x rules")


FIELD = "env.max_parallel_jobs"


def setting(ctx):
    """where a build can be started, the limit of jobs in the settings is within 1..16"""
    def touches(f, op):
        return any(i.op == op and ctx.model.ptr_field(i.ops[1 if op == "store" else 0]) == FIELD for i in f.insts())
    direct = {f.name for f in ctx.m.defined() if touches(f, "store")}
    users = {f.name for f in ctx.m.defined() if touches(f, "load")} - direct
    ctx.require(len(direct), 1, "functions that store the limit of jobs")
    ctx.require(len(users), 1, "functions that use the limit of jobs")
    roots = set()
    for n in direct:
        roots |= set(roots_of(ctx, n)) if ctx.model.should_inline(ctx.m.functions[n]) and ctx.model.callers(n) else {n}
    for name in sorted(roots):
        fn = ctx.m.functions[name]
        e = Limit(ctx)
        e.direct, e.users = direct, users
        e.reaches = {f.name for f in ctx.m.defined() if ctx.model.reach([f.name]) & users}
        e.stores = {f.name for f in ctx.m.defined() if ctx.model.reach([f.name]) & direct}
        e.out = {}
        e.run(fn, [S("a%d" % k) for k in range(len(fn.args))])
        ctx.require(len(e.out), 1, "starts of a build seen from %s" % name)
        for (where, lo, hi), (st, inst) in sorted(e.out.items(), key=str):
            ok = lo is not None and lo >= 1 and hi is not None and hi <= 16
            ctx.ob("setting", "%s, call of %s" % (inst.fn.name, where), ok, "the limit of jobs is between %s and %s where the build is started" % (lo, hi), inst.loc(),
                   path=st.lines())


class Limit(Rule):
    handlers = {}

    def inline(self, fn, inst, st):
        return fn.name in self.stores and fn.name not in self.users

    def on_call(self, st, inst, name, args):
        if name in self.reaches and name not in self.stores:
            v = self.get_cell(st, ("p", ("g", "g_env"), 0), "env", "max_parallel_jobs")
            lo, hi = self.interval(st, v) if v is not None else (None, None)
            self.out.setdefault((name, lo, hi), (st.copy_full(), inst))
        return None
