"""P09: consumed products are built first.  Every lookup of a product, every build of another rule, every test of a consumed path and
every command of the consuming rule is an event of a path; their order is checked for each consumed path."""
from rules.p04 import Judge, show, sc_last, T, FILE, scenarios, play, NULL, H
from sa.ruleset import Play

TECHNIQUE = "path-sensitive event-order analysis of LLVM IR over small abstract rule trees"
LEVEL_NOTE = ("consumes lists (constants, evaluated texts, lists, foreach items), source lists of cc/cxx/configure and the files of install; each path "
              "may be a product of another rule or not, may exist in the cache, in the sources, or nowhere; with and without an up-to-date record.")


class Cons(Play):
    force = True

    def outcome(self, st, kind, t):
        if kind == "exist":
            s = self.string(t)
            if s is not None:
                return (None if s.startswith("/prj/") else False) if self.watched(s) else True
            return None
        return {"access": True, "argstart": False, "fopen": True, "var": True, "dir": (self.string(t) or "").startswith("/prefix") if self.sc.kind == "install" else None}.get(kind)

    def watched(self, s):
        return any(s.endswith("/" + x) for x in self.names)

    def product(self, st, t):
        return None

    def pick_open(self, ok, fail, out):
        return [out[0]] if self.force else [out[1]]

    # commands and records succeed here: their failures are P01 and P05
    def ok(self, *ev):
        def h(self, st, inst, args):
            self.ev(st, ev[0], args[0]) if args and len(ev) else None
            return [(NULL, st)]
        return h

    def m_do(self, st, inst, args):
        self.ev(st, "run", args[0])
        return [(NULL, st)]

    def m_code(self, st, inst, args):
        return [(NULL, st)]

    def m_close(self, st, inst, args):
        self.set_cell(st, args[0], "deps", "file", NULL)
        return [(NULL, st)]

    def m_rename(self, st, inst, args):
        return [(NULL, st)]


Cons.handlers = dict(Play.handlers, spawn_do=Cons.m_do, spawn_exit_code=Cons.m_code, deps_close=Cons.m_close, rename=Cons.m_rename, utils_rename_file=Cons.m_rename)


def first(q, f):
    for k, x in enumerate(q):
        if f(x):
            return k
    return None


def run(ctx):
    ctx.rule("looked-up", "every consumed path is looked up among the products before the path is tested and before the rule's record is read or a command runs")
    ctx.rule("built", "when a consumed path is the product of another rule, that rule is built before the path is tested, the record is read or a command runs")
    ctx.rule("unresolved", "a consumed path that exists neither in the cache nor in the sources stops the build")
    ctx.assume("node_build brings the rule of a product up to date or does not return (P01, P05, P07)")
    total = 0
    for sc in scenarios(ctx):
        if "three" in sc.label or "two sources" == sc.label[-11:] and ctx.tier == "quick":
            continue
        if not (sc.consumed or sc.sources):
            continue
        for force in (True, False):
            cls = type("C", (Cons,), {"force": force, "names": [n.value for n in sc.consumed if n.kind == "value"] + [s.split("/")[-1] for s in sc.sources]})
            recs = () if force else ((("i", FILE), ("i", 0), T("rec"), NULL, NULL, 0),)
            r = play(ctx, sc, cls, recs=recs)
            bad, n = {}, 0
            fin = [st for st in r.finals]
            for st in fin:
                n += 1
                for k, v in check(r, sc, st):
                    bad.setdefault((k, v), st)
            stops = [x for x in r.stops]
            if not any(missing(r, sc, x[0]) for x in stops):
                bad[("unresolved", "no path stops the build because of a missing consumed file")] = None
            for rule in ("looked-up", "built", "unresolved"):
                b = [(w, st) for (k, w), st in bad.items() if k == rule]
                sub = sc.label + ("" if force else ", with a record")
                for w, st in b:
                    ctx.ob(rule, sub, False, w, path=st.lines() if st is not None else [])
                if not b:
                    ctx.ob(rule, sub, True, "%d paths" % n)
                    total += n
            if not fin:
                ctx.ob("built", sc.label, False, "the rule never ends normally")
    ctx.require(total, 200, "paths x rules")


def consumed(j, sc):
    """(text, candidates in the order they may be used)"""
    out = []
    for t in [j.val(n) for n in sc.consumed] + list(getattr(sc, "consumed_texts", [])):
        if t is None or t == NULL or j.e.items(t) is not None:
            continue
        out.append((t, [j.abs(t), j.abs(t, j.dir)]))
    for s in sc.sources:
        t = j.e.const(s)
        out.append((t, [j.abs(t, j.dir)]))
    return out


def missing(r, sc, st):
    j = Judge(r, st)
    for t, cands in consumed(j, sc):
        if ("is", "exist", cands[-1], 0) in st.q and not any(("is", "exist", c, 1) in st.q for c in cands):
            return True
    return False


def check(r, sc, st):
    out = []
    j = Judge(r, st)
    q = sc_last(st.q) if sc.kind != "cc" else st.q
    q = st.q
    use = first(q, lambda x: x[0] in ("read", "noread", "run"))
    use = len(q) if use is None else use
    for t, cands in consumed(j, sc):
        what = show(r.e, t)
        c = cands[0]
        lk = first(q, lambda x: x[0] == "prod" and x[1] == c)
        tests = [first(q, lambda x: x[0] == "is" and x[1] == "exist" and x[2] == x_) for x_ in cands]
        ex = [x for x in cands if ("is", "exist", x, 1) in q]
        if lk is None or lk > use or any(t_ is not None and t_ < lk for t_ in tests):
            out.append(("looked-up", "%s is used without looking for the rule that produces it first" % what))
        else:
            p = q[lk][2]
            if p != NULL:
                b = first(q, lambda x: x[0] == "build" and x[1] == p)
                if b is None:
                    out.append(("built", "the rule producing %s is not built" % what))
                elif b > use:
                    out.append(("built", "the rule producing %s is built after the record was read or a command ran" % what))
                elif any(t_ is not None and t_ < b for t_ in tests):
                    out.append(("built", "%s is tested before the rule producing it is built" % what))
        ts = [t_ for t_ in tests if t_ is not None]
        if not ex:
            out.append(("unresolved", "%s exists nowhere and the rule ends normally" % what))
        elif not ts or min(ts) > use:
            out.append(("unresolved", "the existence of %s is not tested before the rule is executed" % what))
    return out
