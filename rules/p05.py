"""P05: a dependency record becomes visible only after the work succeeded.  The order of the observable steps (removal of temporaries,
commands, record writing, renames) is checked on every path through the actions of every kind of rule."""
from rules.p04 import Dep, is_deps, show, sc_last, T, FILE, FILE_OUTDATED, ALIAS, NODE_VAL, scenarios, play, NULL
from sa.ruleset import Play

TECHNIQUE = "path-sensitive typestate analysis of LLVM IR: event automaton of record writing over small abstract rule trees"
LEVEL_NOTE = ("Every kind of rule with a dependency record, all paths including failing commands, failing starts, failing record writes and failing "
              "renames; first run and re-run. The crash points are the positions between two observable steps of a path.")


class Order(Dep):
    def outcome(self, st, kind, t):
        if kind == "access":
            if self.tmp_of(t, ".deps.tmp"):
                return any(e[0] == "open" and e[1] == t for e in st.q)
            return None
        return Dep.outcome(self, st, kind, t)

    def tmp_of(self, t, suffix):
        s = self.string(t)
        if s is None and t[0] == "s" and t[1][1] == "cat" and isinstance(t[1][-1], str):
            s = t[1][-1]
        return s is not None and s.endswith(suffix)


FAIL = ("exit1", "runfail", "waitfail", "closefail", "openfail", "renamefail", "wbuffail")
NAMES = {"exit1": "a command exits with failure", "runfail": "a command cannot be started", "waitfail": "waiting for a command fails",
         "closefail": "the record cannot be written completely", "openfail": "the record cannot be created", "renamefail": "a rename fails",
         "wbuffail": "the cached output cannot be written"}


def suffix(e, t, s):
    return e.tmp_of(t, s)


def problems(e, sc, q, final):
    """violations of the order on one path"""
    out = []
    q = sc_last(q)
    dep = [k for k, x in enumerate(q) if x[0] == "rename" and is_deps(x[2])]
    envs = [k for k, x in enumerate(q) if x[0] == "rename" and suffix(e, x[2], ".env")]
    opens = [k for k, x in enumerate(q) if x[0] == "open"]
    runs = [k for k, x in enumerate(q) if x[0] in ("run", "runfail")]
    for k in opens:
        p = q[k][1]
        if not suffix(e, p, ".tmp"):
            out.append(("atomic", "a record is written in place (%s), not to a temporary file" % show(e, p)))
        gone = [i for i, x in enumerate(q) if x[0] == "unlink" and x[1] == p]
        if not gone or gone[0] > min(opens + runs):
            out.append(("stale", "a temporary record of an earlier run is not removed before the rule is executed"))
    for k in dep + envs:
        src = q[k][1]
        if not any(x[0] == "unlink" and x[1] == src for x in q[:k]):
            out.append(("stale", "%s of an earlier run may be taken over" % ("exported values" if k in envs else "a temporary record")))
    for x in q:
        if x[0] == "fopen" and x[2] != NULL and (e.string(x[2]) or "r")[0] in "wa" and (is_deps(x[1]) or suffix(e, x[1], ".env")):
            out.append(("atomic", "a record is written in place (%s)" % show(e, x[1])))
        if x[0] == "wbuf" and is_deps(x[1]):
            out.append(("atomic", "a record is written in place (%s)" % show(e, x[1])))
    failed = {x[1] for x in q if x[0] in ("exit1", "runfail")}
    for d in dep[:1]:
        before = q[:d]
        for x in before:
            if x[0] in FAIL:
                if sc.kind == "cc" and x[0] in ("exit1", "runfail"):
                    continue
                out.append(("after-success", "the record becomes visible although %s" % NAMES[x[0]]))
        lastopen = [k for k in opens if k < d]
        if not lastopen:
            out.append(("after-success", "a record becomes visible that was not written in this run"))
        else:
            o = lastopen[-1]
            cl = [k for k, x in enumerate(before) if x[0] == "close" and k > o]
            if not cl:
                out.append(("after-success", "the record becomes visible before it is completely written"))
            elif any(x[0] == "add" for x in q[cl[-1]:]):
                out.append(("after-success", "entries are added after the record was finished"))
            if q[d][1] != q[o][1]:
                out.append(("atomic", "the record is not the file that was written"))
        for k, x in enumerate(q):
            if k > d and x[0] in ("run", "runfail", "cmd", "wbuf", "wbuffail", "reaped", "inst"):
                out.append(("after-success", "work of the rule is done after its record became visible (%s)" % x[0]))
        if any(k > d for k in envs):
            out.append(("exports", "the exported values are published after the record"))
        if sc.kind == "check" and not envs and not any(x[0] == "unlink" and suffix(e, x[1], ".env") for x in before):
            out.append(("exports", "values exported by an earlier run survive a run that exports none"))
        if any(x[0] == "renamefail" for x in q) and final:
            out.append(("after-success", "a failing rename is followed by a normal end"))
    if sc.kind == "cc" and failed:
        rec = [x for x in q if x[0] == "add"]
        for s in failed:
            args = [x[2] for x in q if x[0] == "arg" and x[1] == s]
            if dep:
                ok = [x for x in rec if x[1][1] == FILE and x[2] == ("i", 115) and x[3] in args]
                bad = [x for x in rec if x[1][1] == FILE_OUTDATED and x[3] in args]
                if ok or not bad:
                    out.append(("failed-source", "a source whose compilation failed is recorded as up to date"))
        if final:
            out.append(("failed-source", "the rule ends normally although a compilation failed"))
    elif final and any(x[0] in ("exit1", "runfail", "closefail", "openfail", "wbuffail") for x in q):
        bad = [x for x in q if x[0] in FAIL][0]
        out.append(("after-success", "the rule ends normally although %s" % NAMES[bad[0]]))
    return out


TEXT = {"stale": "a temporary record or export file of an earlier run is removed before the rule's commands run and the record is written",
        "atomic": "records are only written to their temporary file and become visible by renaming exactly that file",
        "after-success": "the rename follows the successful end of all commands and the successful close of the record; nothing of the rule is done after it, and a "
                         "failure ends the build",
        "exports": "exported values are published, or outdated ones removed, before the record becomes visible",
        "failed-source": "a source whose compilation failed is recorded as outdated and the build stops"}


def run(ctx):
    for k, v in TEXT.items():
        ctx.rule(k, v)
    ctx.assume("a rename replaces its target atomically; what a failing call leaves behind is not used")
    total = 0
    for sc in scenarios(ctx):
        if "three" in sc.label and ctx.tier == "quick":
            continue
        bad, n = {}, 0
        runs = [()]
        if sc.kind in ("cc", "configure", "install", "run"):
            runs.append(None)
        rec = None
        for recs in runs:
            if recs is None:
                if not rec:
                    continue
                recs = rec
            r = play(ctx, sc, type("O", (Order,), {"force": None if not recs else False}), recs=recs)
            ends = [(st, True, "") for st in r.finals] + [(x[0], False, x[3]) for x in r.stops]
            for st, final, inst in ends:
                n += 1
                for rule, what in problems(r.e, sc, st.q, final):
                    bad.setdefault((rule, what), (st, inst))
            if not recs and r.finals:
                a = [x for x in r.finals if any(e[0] == "rename" for e in x.q)]
                if a:
                    es = [e[1:] for e in a[0].q if e[0] == "add"]
                    ks = [k for k, x in enumerate(es) if x[1] == ("i", 115)] or [0]
                    rec = [tuple(x) + (int(k == ks[0]),) for k, x in enumerate(es)]
        if n < 2:
            ctx.ob("after-success", sc.label, False, "the rule has no path to its end")
        for rule in TEXT:
            if rule == "failed-source" and sc.kind != "cc" or rule == "exports" and sc.kind != "check":
                continue
            b = [(w, v) for (k, w), v in bad.items() if k == rule]
            for w, (st, inst) in b:
                ctx.ob(rule, sc.label, False, w, inst.loc() if inst else "", path=st.lines())
            if not b:
                ctx.ob(rule, sc.label, True, "%d paths" % n)
                total += n
    ctx.require(total, 500, "paths x rules")
