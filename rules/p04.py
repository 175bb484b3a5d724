"""P04: dependency records are complete.  Every kind of rule is put into a small abstract tree, its actions are followed through the
real code on all paths, and the entries written to the record are compared with what the rule consumed, evaluated and looked up."""
import posixpath
from sa.ruleset import *

TECHNIQUE = "path-sensitive abstract interpretation of LLVM IR over small abstract rule trees; set inclusion between uses and recorded entries"
LEVEL_NOTE = ("Every kind of rule with a dependency record (run, run-on-install, cc, cxx, configure, check, cached substitution, install), in the root "
              "script and in an included one, with constant and evaluated parts, lists, foreach items, existing and missing cache files; all paths. "
              "Second pass: the record just derived is given back with each entry outdated in turn, so partial re-runs are covered. Bounds: up to two "
              "sources or items per rule, up to two enclosing scripts.")


class Dep(Play):
    in_cache = True
    var_known = True

    def outcome(self, st, kind, t):
        if kind == "exist":
            s = self.string(t)
            if s is not None:
                return self.in_cache or not s.startswith("/prj/cache/")
            if isinstance(t[1], tuple) and t[1][1] == "norm" and len(t[1]) > 3:
                return self.in_cache or not (self.string(t[1][3]) or "").startswith("/prj/cache")
            return True
        return {"access": True, "argstart": False, "fopen": True, "var": self.var_known, "dir": self.dir(st, t)}.get(kind)

    def dir(self, st, t):
        return None

    def product(self, st, t):
        return NULL

    def pick_open(self, ok, fail, out):
        if self.force is None:
            return out
        return [out[0]] if self.force else [out[1]]
    force = None


def adds(q):
    """entries of the record that becomes visible, None if none does"""
    out, cur = None, []
    for e in q:
        if e[0] == "open":
            cur = []
        elif e[0] == "add":
            cur.append(e[1:])
        elif e[0] == "rename":
            s = e[2]
            if is_deps(s):
                out = list(cur)
    return out


def is_deps(t):
    if t[0] == "p" and isinstance(t[1][1], str):
        return t[1][1].endswith(".deps")
    if t[0] == "s" and t[1][1] == "cat" and isinstance(t[1][-1], str):
        return t[1][-1].endswith(".deps")
    return False


def show(e, t):
    s = e.string(t)
    if s is not None:
        return "'%s'" % s
    if t[0] == "s" and isinstance(t[1], tuple):
        a = t[1]
        if a[1] == "val":
            return "the value of node %s" % a[2]
        return "%s(%s)" % (a[1], ", ".join(show(e, x) if isinstance(x, tuple) else str(x) for x in a[2:]))
    return str(t)


class Judge:
    """compares one record with the uses of one path"""
    def __init__(self, r, st):
        self.r, self.sc, self.e, self.st, self.q = r, r.sc, r.e, st, st.q
        self.rec = adds(st.q)
        self.cache = self.e.const(self.e.unit_paths(self.sc.unit)["cache_dir"])
        self.dir = self.e.const(self.e.unit_paths(self.sc.unit)["dir"])
        self.checked = set()

    def abs(self, t, cwd=None):
        from sa.scen import norm
        return norm(self.e, self.st, t, cwd or self.cache)

    def has(self, types, res=None, alias=None, flags=None):
        for t, f, x, a, s in self.rec:
            if t[1] in types and (res is None or x == res or self.abs(x) == res) and (alias is None or a == alias or self.abs(a) == alias) \
                    and (flags is None or f[1] in flags):
                return True
        return False

    def val(self, n):
        v = self.e.values.get(n.id)
        if v is None:
            return self.e.const(n.value) if n.kind == "value" else T("val", n.id)
        return None if callable(v) or isinstance(v, list) else v

    def mentioned(self, x, types=(NODE_VAL, ENV, SYS_ENV)):
        return any(t[1] in types and mentions(v, x) for t, f, v, a, s in self.rec)

    def missing(self):
        """[(key, what)] of everything used and not recorded"""
        out = []
        sc, e = self.sc, self.e

        def need(key, what, ok):
            self.checked.add(key)
            if not ok:
                out.append((key, what))
        for k, u in enumerate(reversed(sc.units)):
            p = e.const(e.unit_paths(u)["source_path"])
            need("script %d" % k, "the %s %s" % ("build script" if not k else "enclosing build script", show(e, p)), self.has((FILE,), p))
        files = [self.val(n) for n in sc.consumed] + list(getattr(sc, "consumed_texts", []))
        for k, t in enumerate(files):
            if t is None or e.items(t) is not None or t == NULL:
                continue
            cands = [self.abs(t), self.abs(t, self.dir)]
            found = [c for c in cands if ("is", "exist", c, 1) in self.q] or cands
            need("consumed %d" % k, "the consumed file %s" % show(e, t), any(self.has((FILE,), c) for c in found))
        for k, n in enumerate(sc.values):
            t = self.val(n)
            if t is None:
                continue
            if e.items(t) is not None:
                need("value %d" % k, "the evaluated value %s" % show(e, t), self.has((NODE_VAL,), t))
            else:
                need("value %d" % k, "the evaluated value %s (argument %d of the rule)" % (show(e, t), k + 1), self.mentioned(t))
        # all symbolic texts handed to commands
        for ev in self.q:
            if ev[0] in ("cmd", "arg"):
                for x in texts(ev[2]):
                    if x[1][1] == "var":
                        need("command variable", "the variable %s used in a command" % show(e, x[1][2]),
                             self.mentioned(x) or self.has((ENV, SYS_ENV), None, x[1][2]))
                    elif x[1][1] == "val":
                        need("command value", "%s used in a command" % show(e, x), self.mentioned(x, (NODE_VAL, ENV, SYS_ENV, FILE)))
        for ev in sc_last(self.q):
            if ev[0] == "getvar" and sc.kind in ("configure", "cc"):
                need("variable", "the variable %s" % show(e, ev[1]), self.has((ENV, SYS_ENV), None, ev[1]) or self.mentioned(T("var", ev[1])))
        if sc.kind == "configure":
            for k in KEYS:
                for _ in [0]:
                    if any(ev[0] == "fopen" for ev in self.q):
                        need("variable", "the variable '%s' used by a template" % k, self.has((ENV, SYS_ENV), None, e.const(k)))
        for s in sc.sources:
            p = self.abs(e.const(s), self.dir)
            need("source", "the source %s" % show(e, p), self.has((FILE,), p) or self.has((FILE_OUTDATED,), p))
            if sc.kind == "cc":
                for h in HEADERS:
                    need("header", "the header '%s' the compiler reported for %s" % (h, show(e, p)), self.has((ALIAS,), p, self.abs(e.const(h))))
        if sc.kind == "check":
            x = [ev for ev in self.q if ev[0] == "cmd"]
            need("check script", "the check script", all(self.has((FILE,), ev[2]) for ev in x))
        if sc.kind == "subst":
            wr = [ev for ev in self.q if ev[0] == "wbuf"]
            for ev in wr:
                need("output", "the cached output %s" % show(e, ev[1]), self.has((FILE,), ev[1]))
            if not wr and self.rec:
                need("output", "the cached output", False)
        if sc.kind == "install":
            need("prefix", "the install prefix", self.has((ENV, SYS_ENV), e.const("/prefix"), e.const("INSTALL_PREFIX")) or self.mentioned(e.const("/prefix")))
            for k, n in enumerate(sc.consumed):
                t = self.val(n)
                src = self.found(t)
                need("destination", "the installed copy of %s" % show(e, t), any(self.dest(a, src) for ty, f, x, a, s in self.rec
                                                                                if ty[1] == ALIAS and self.abs(x) == src))
        return out

    def found(self, t):
        for c in (self.abs(t), self.abs(t, self.dir)):
            if ("is", "exist", c, 1) in self.q:
                return c
        return self.abs(t)

    def dest(self, a, src):
        """a names the file in the destination directory that src is installed as"""
        s = self.e.string(a)
        if s is not None:
            return s.startswith("/prefix/")
        d = self.val(self.sc.rule.children[0])
        base = T("base", src)
        if self.e.string(src) is not None:
            base = posixpath.basename(self.e.string(src))
        ps = self.e.parts(a)
        ok = ps[-1] == base or isinstance(ps[-1], str) and isinstance(base, str) and ps[-1].endswith("/" + base)
        return ok and (mentions(a, d) or mentions(a, self.e.const("/prefix")) or str(ps[0]).startswith("/prefix"))


def texts(t):
    out = []

    def go(t):
        if not isinstance(t, tuple):
            return
        if t[:1] == ("s",) and isinstance(t[1], tuple) and t[1][:1] == ("T",):
            if t[1][1] in ("val", "var"):
                out.append(t)
                return
        for x in t:
            go(x)
    go(t)
    return out


def sc_last(q):
    """events since the record is being worked on"""
    for k, e in enumerate(q):
        if e[0] == "unlink" and k and q[k - 1][0] != "unlink":
            return q[k:]
    return q


def judge(ctx, rule, label, r, st, bad, seen):
    j = Judge(r, st)
    if j.rec is None:
        bad.setdefault(("record", "no dependency record becomes visible although the rule ended normally"), (label, st))
        return
    for key, what in j.missing():
        bad.setdefault((key, "%s is not recorded" % what), (label, st))
    seen |= j.checked


def worked(q):
    """the rule was executed in this run"""
    return any(e[0] in ("open", "run") for e in sc_last(q))


def run(ctx):
    ctx.rule("first", "whatever a rule consumed, evaluated for its command or looked up is an entry of the record written by its first execution")
    ctx.rule("again", "when any single entry of a complete record is outdated, the rule runs again and the new record is complete as well")
    ctx.rule("fresh", "when no entry is outdated a rule with a record is not executed, unless it asks for it")
    ctx.assume("texts, files, variables and exit codes are symbolic; lists have up to two items; the compiler's dependency file names three headers")
    nobl = 0
    for sc in scenarios(ctx):
        if "three" in sc.label:
            continue
        base = None
        variants = [("", {})]
        if sc.consumed and sc.kind != "install":
            variants.append((", consumed files in the source tree", {"in_cache": False}))
        if sc.kind == "configure":
            variants.append((", variables undefined", {"var_known": False}))
        bad, seen, n = {}, set(), 0
        for label, attrs in variants:
            cls = type("Dep1", (Dep,), dict(attrs, force=None))
            if sc.kind == "install":
                cls.in_cache = True
            r = play(ctx, sc, cls)
            for st in r.finals:
                if not worked(st.q):
                    continue
                n += 1
                judge(ctx, "first", sc.label + label, r, st, bad, seen)
                if base is None and not bad and attrs == {}:
                    if all(x[0] not in ("exit1",) for x in st.q):
                        base = (r, adds(st.q))
        for (key, what), (label, st) in sorted(bad.items(), key=str):
            ctx.ob("first", "%s: %s" % (sc.label, key), False, "%s%s" % (what, "" if label == sc.label else " (%s)" % label[len(sc.label) + 2:]), path=st.lines())
        for key in sorted(seen):
            if not any(k == key for k, _ in bad):
                ctx.ob("first", "%s: %s" % (sc.label, key), True, "recorded on all %d paths" % n)
                nobl += 1
        if n == 0:
            ctx.ob("first", "%s: executes" % sc.label, False, "no path on which the rule is executed and ends normally")
        if bad or base is None or sc.always and sc.kind == "run":
            continue
        again(ctx, sc, base[1])
    ctx.require(nobl, 40, "recorded inputs")


def again(ctx, sc, rec):
    """give the record back, each entry outdated in turn"""
    items = [tuple(x) + (0,) for x in rec]
    ks = list(range(len(items)))
    if sc.kind == "cc" and len(sc.sources) > 1 and ctx.tier == "quick" and "one job" not in sc.label:
        ks = []
    groups = [(k,) for k in ks] + [()]
    if ks:
        src = [k for k in ks if items[k][1] == ("i", 115)]
        groups += [(a, b) for a in src for b in src if a < b] if ctx.tier != "quick" or len(src) < 4 else [(src[0], src[-1])]
    bad, seen, n = {}, set(), 0
    for g in groups:
        recs = []
        for k, x in enumerate(items):
            x = list(x)
            if k in g:
                x[5] = 1
                if x[0] == ("i", NODE_VAL):
                    x[2] = T("old", k)
            recs.append(tuple(x))
        # a failing compile leaves an always outdated entry
        cls = type("Dep2", (Dep,), {"force": False})
        r = play(ctx, sc, cls, recs=recs)
        what = ", ".join("%s entry %d" % (chr(items[k][0][1]), k) for k in g)
        for st in r.finals:
            n += 1
            if not g:
                if worked(st.q) and not getattr(sc, "always", False):
                    ctx.ob("fresh", sc.label, False, "the rule is executed although no entry of its record is outdated", path=st.lines())
                    break
                continue
            if not worked(st.q):
                bad.setdefault(("run", "the rule is not executed again"), (what, st))
                continue
            judge(ctx, "again", what, r, st, bad, seen)
            j = Judge(r, st)
            for k in g:
                if sc.kind in ("cc", "configure", "install") and items[k][1] == ("i", 115) and items[k][0][1] in (FILE, ALIAS):
                    if not redone(j, items[k]):
                        bad.setdefault(("redo", "the outdated source %s is not processed again" % show(r.e, items[k][2])), (what, st))
        else:
            if not g:
                ctx.ob("fresh", sc.label, True, "%d paths" % len(r.finals))
        if g and not r.finals:
            bad.setdefault(("run", "the rule cannot end normally"), (what, r.e.pre[0]))
    for (key, w), (what, st) in sorted(bad.items(), key=str):
        ctx.ob("again", "%s: %s" % (sc.label, key), False, "%s when %s is outdated" % (w, what), path=st.lines())
    for key in sorted(seen | {"run"}):
        if not any(k == key for k, _ in bad) and ks:
            ctx.ob("again", "%s: %s" % (sc.label, key), True, "%d entries outdated in turn, %d paths" % (len(items), n))


def redone(j, item):
    src = j.abs(item[2])
    if j.sc.kind == "install":
        return any(e[0] in ("inst",) and j.abs(e[1]) == src for e in j.q) or not any(e[0] == "inst" for e in j.q)
    if j.sc.kind == "configure":
        return any(e[0] == "fopen" and j.abs(e[1]) == src for e in j.q)
    return any(e[0] == "arg" and j.abs(e[2]) == src for e in j.q)
