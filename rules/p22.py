"""P22: install copies whole files.  The install rule is followed through all its phases with a fault model of file operations."""
from sa.ruleset import *
from sa.io import *
from sa.io import HANDLERS
from sa.scen import N, V

TECHNIQUE = "path-sensitive abstract interpretation of LLVM IR with a fault model of file operations; content tracked as marked bytes"
LEVEL_NOTE = ("regular files, links (new and already present), directories, fifos, sockets and devices; constant, evaluated and absolute targets, one and two "
              "files, whole and partial installs; one failing operation combined with one short and one interrupted transfer on every path; contents of "
              "two blocks. Attributes other than content, permission bits and link texts are not claimed.")
KINDS = {"file": S_IFREG | 0o751, "read-only file": S_IFREG | 0o444, "set-id file": S_IFREG | 0o4755, "link": S_IFLNK | 0o777, "directory": S_IFDIR | 0o755,
         "fifo": S_IFIFO | 0o644, "socket": 0o140000 | 0o644, "device": 0o020000 | 0o644, "block device": 0o060000 | 0o644}


class Inst(IO, Play):
    GHOST = Scen.GHOST + ("D",)
    kind = KINDS["file"]
    old = False
    faults = {"eintr": 1, "short": 1, "fail": 1}

    def done(self, st):
        return ()

    def mode_of(self, st, path, follow):
        s = self.string(path) or ""
        if s.startswith("/prefix") or s.startswith("/abs"):
            return S_IFDIR | 0o755 if s.endswith(("/bin", "/abs/t")) else None
        if self.kind & 0o170000 == S_IFLNK and follow:
            return S_IFREG | 0o644
        return self.kind

    def outcome(self, st, kind, t):
        s = self.string(t) or ""
        if kind == "exist":
            return True
        if kind == "dir":
            return s.endswith(("/bin", "/abs/t")) or self.kind & 0o170000 == S_IFDIR
        return {"access": True, "var": True}.get(kind)

    def product(self, st, t):
        return NULL

    def pick_open(self, ok, fail, out):
        return [out[1] if self.recs else out[0]]

    def m_ok(self, st, inst, args):
        return [(NULL, st)]

    def m_close(self, st, inst, args):
        self.set_cell(st, args[0], "deps", "file", NULL)
        return [(NULL, st)]

    def m_open(self, st, inst, args):
        return [x for x in Play.handlers["deps_open"](self, st, inst, args) if not (x[1].q and x[1].q[-1][0] == "openfail")]


Inst.handlers = dict(Play.handlers, **HANDLERS)
Inst.handlers.update({"deps_close": Inst.m_close, "deps_open": Inst.m_open, "rename": Inst.m_ok, "utils_rename_file": Inst.m_ok, "unlink": io_unlink})


def trees():
    ph = ("init", "setup", "build", "post_build")
    out = []

    def sc(label, target, files, dsts, dyn=None, depth=1):
        r = N("install", "install", target, *files)
        s = Sc(label, "install", nest(r, depth=depth), r, ph, units=["U%d" % k for k in range(depth)], dyn=dyn or {})
        s.dsts = dsts
        out.append(s)
    sc("install", V("bin"), [V("prog")], {"/prj/cache/prog": "/prefix/bin/prog"})
    sc("install to an absolute directory", V("/abs/t"), [V("d/prog")], {"/prj/cache/d/prog": "/abs/t/prog"})
    d, x = var("D"), var("X")
    sc("install with evaluated parts in an included script", d, [x], {"/prj/cache/sub1/prog": "/prefix/bin/prog"}, {d: ["list", "bin"], x: ["list", "prog"]}, 2)
    sc("install of two files", V("bin"), [V("p1"), V("p2")], {"/prj/cache/p1": "/prefix/bin/p1", "/prj/cache/p2": "/prefix/bin/p2"})
    return out


def judge(r, sc, kind, srcs):
    """violations over all ends"""
    e, bad = r.e, {}
    okind = KINDS[kind] & 0o170000
    for st in r.finals:
        q = st.q
        for x in q:
            if x[0] == "fault":
                bad.setdefault(("failure", "the rule ends normally although %s failed for %s" % (x[1], e.string(x[2]) or x[2])), st)
        if okind not in (S_IFREG, S_IFLNK):
            bad.setdefault(("refused", "a %s is accepted" % kind), st)
            continue
        for s, d in sc.dsts.items():
            if s not in srcs:
                continue
            s, d = e.const(s), e.const(d)
            if okind == S_IFREG:
                whole = ("B",) + tuple(e.content(s))
                if e.get(st, d, "content") != whole:
                    bad.setdefault(("content", "%s is not a complete copy" % e.string(d)), st)
                m = e.get(st, d, "mode")
                if m is None or m[0] != "i" or m[1] & 0o7777 != KINDS[kind] & 0o7777:
                    bad.setdefault(("mode", "%s does not get the permission bits of its source" % e.string(d)), st)
                if not any(x[0] == "closed" and x[1] == d and x[2] != ("s", "r") and x[2] != "r" for x in q):
                    bad.setdefault(("failure", "%s is never closed" % e.string(d)), st)
                if e.get(st, d, "link") is not None:
                    bad.setdefault(("content", "%s is a link" % e.string(d)), st)
            else:
                if e.get(st, d, "link") != T("linktext", s):
                    bad.setdefault(("link", "%s is not a link with the text of its source" % e.string(d)), st)
                if e.get(st, d, "content") is not None and not e.old:
                    bad.setdefault(("link", "the target of a link is copied"), st)
        for x in q:
            if x[0] == "opened" and x[2] != "r" and (e.string(x[1]) or "").startswith("/prj/cache/") and not x[1] == T:
                if (e.string(x[1]) or "") in sc.dsts:
                    bad.setdefault(("content", "a source is opened for writing"), st)
    return bad


def run(ctx):
    T_ = {"content": "an installed regular file has the complete content of its source", "mode": "an installed file gets the permission bits of its source",
          "link": "a symbolic link is recreated with the same text, also over an older link", "refused": "other kinds of file are refused",
          "failure": "when an operation on an installed file fails the build stops", "request": "nothing is installed unless installation was requested"}
    for k, v in T_.items():
        ctx.rule(k, v)
    ctx.assume("a source does not change while it is copied")
    n = 0
    for sc in trees():
        two = "two" in sc.label
        for kind in KINDS:
            if (two or "absolute" in sc.label) and kind not in ("file", "link", "directory"):
                continue
            for old in ((False, True) if kind in ("file", "link") and not two else (False,)):
                cls = type("I", (Inst,), {"kind": KINDS[kind], "old": old, "faults": {"fail": 1} if two else Inst.faults})

                def pre(e, s):
                    if old:
                        for d in sc.dsts.values():
                            if kind == "link":
                                e.put(s, e.const(d), link=e.const("/old"))
                            else:
                                e.put(s, e.const(d), content=("B", ("old", 0), ("old", 1)))
                runs = [("", ())]
                while runs:
                    label, recs = runs.pop(0)
                    r = play(ctx, sc, cls, recs=recs, before=pre)
                    sub = "%s, %s%s%s" % (sc.label, kind, ", present" if old else "", label)
                    srcs = set(sc.dsts)
                    if recs:
                        srcs = {sorted(sc.dsts)[0]}
                    bad = judge(r, sc, kind, srcs)
                    if KINDS[kind] & 0o170000 in (S_IFREG, S_IFLNK) and not r.finals:
                        bad[("content", "a %s is never installed" % kind)] = None
                    for k in T_:
                        if k == "request":
                            continue
                        hit = [(w, st) for (kk, w), st in bad.items() if kk == k]
                        for w, st in hit:
                            ctx.ob(k, sub, False, w, path=st.lines() if st else [])
                        if not hit:
                            ctx.ob(k, sub, True, "%d ends, %d stops" % (len(r.finals), len(r.stops)))
                    n += len(r.finals) + len(r.stops)
                    if two and not recs and r.finals and kind == "file":
                        es = [x[1:] for x in r.finals[0].q if x[0] == "add"]
                        first = sorted(sc.dsts)[0]
                        ks = [i for i, x in enumerate(es) if x[1] == ("i", 115) and r.e.string(x[2]) == first]
                        if ks:
                            runs.append((", one file outdated", [tuple(x) + (int(i == ks[0]),) for i, x in enumerate(es)]))
    for label, en, pre in (("not requested", 0, "/prefix"), ("no prefix", 1, None), ("not requested, no prefix", 0, None)):
        for sc in trees():
            def prep(e, s):
                e.genv(s, "install.enabled", ("i", en))
                e.genv(s, "install.prefix_dir", e.const(pre) if pre else NULL)
            r = play(ctx, sc, type("I", (Inst,), {}), prepare=prep)
            bad = [st for st in r.finals + [x[0] for x in r.stops] if any(x[0] == "opened" and x[2] != "r" for x in st.q) or
                   any(k[0][0] == "D" and k[1] == "link" for k in st.mem)]
            ctx.ob("request", "%s, %s" % (sc.label, label), not bad, "files are installed" if bad else "", path=bad[0].lines() if bad else [])
    ctx.require(n, 100, "ends of installs")
