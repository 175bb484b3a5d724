"""P26: moving a file never loses it.  The move is followed with every operation succeeding, failing, being interrupted or short."""
from sa.io import *

TECHNIQUE = "path-sensitive abstract interpretation of LLVM IR with a fault model of file operations; content tracked as marked bytes"
LEVEL_NOTE = ("every combination of one failing operation with one short or interrupted transfer, for renames that succeed, cross a device or fail otherwise; "
              "content of two blocks of different length. Larger contents repeat the same loop.")


class Move(Files):
    faults = {"eintr": 1, "short": 1, "fail": 1, "rename": 2}

    def inline(self, fn, inst, st):
        return not fn.decl and fn.file and fn.file.endswith(("utils.c",)) or Scen.inline(self, fn, inst, st)


def run(ctx):
    ctx.rule("kept", "the original is removed only when the copy has the whole content and was closed without an error")
    ctx.rule("reported", "any failure of the move is reported to the caller")
    ctx.rule("moved", "after a successful move the content is at the new place and the original is gone")
    roots = [n for n in ("utils_rename_file",) if n in ctx.m.functions]
    ctx.require(len(roots), 1, "move function")
    e = Move(ctx)
    a, b = e.const("/a/src"), e.const("/b/dst")
    whole = ("B",) + tuple(e.content(a))
    fin = e.call_fn(e.state(), "utils_rename_file", [a, b])
    n = {"direct": 0, "copied": 0, "failed": 0}
    bad = {}
    for st, v in fin:
        q = st.q
        ok = self_zero(e, st, v)
        faults = [x for x in q if x[0] == "fault"]
        other = [x for x in q if x[0] == "norename" and x[3] != ("i", EXDEV)]
        moved = any(x == ("moved", a, b) for x in q)
        removed = [x for x in q if x[0] == "removed" and x[1] == a]
        copied = e.get(st, b, "content") == whole
        for x in q:
            if x[0] == "removed" and x[1] == a:
                i = q.index(x)
                if b not in x[2]:
                    bad.setdefault(("kept", "the original is removed before the copy is closed"), st)
                if any(y[0] == "fault" for y in q[:i]):
                    bad.setdefault(("kept", "the original is removed although the copy failed (%s)" % [y[1] for y in q[:i] if y[0] == "fault"][0]), st)
                if not copied:
                    bad.setdefault(("kept", "the original is removed although the copy is not complete"), st)
            if x[0] == "opened" and x[1] == a and x[2] != "r":
                bad.setdefault(("kept", "the original is opened for writing"), st)
        if moved:
            n["direct"] += 1
            if ok is not True:
                bad.setdefault(("moved", "a successful rename is reported as a failure"), st)
            if removed:
                bad.setdefault(("kept", "a file is removed after it was renamed"), st)
            continue
        if ok is not False:
            if faults:
                bad.setdefault(("reported", "success is reported although %s failed" % faults[0][1]), st)
            if other and not copied:
                bad.setdefault(("reported", "success is reported although the file could not be renamed"), st)
            if not copied:
                bad.setdefault(("moved", "success is reported but the new file is not a complete copy"), st)
            if not removed:
                bad.setdefault(("moved", "success is reported but the original is still there"), st)
            n["copied"] += 1
        else:
            n["failed"] += 1
            if not faults and not other:
                bad.setdefault(("moved", "a move across devices fails without a cause"), st)
    for st, name, args, inst in e.stops:
        if any(x[0] == "removed" and x[1] == a for x in st.q) and e.get(st, b, "content") != whole:
            bad.setdefault(("kept", "the original is removed and the build stops before the copy is complete"), st)
    for r in ("kept", "reported", "moved"):
        hit = [(k, st) for k, st in bad.items() if k[0] == r]
        for (k, w), st in hit:
            ctx.ob(r, "utils_rename_file", False, w, path=st.lines())
        if not hit:
            ctx.ob(r, "utils_rename_file", True, "%d ends: %s" % (len(fin), n))
    ctx.require(n["direct"], 1, "direct renames")
    ctx.require(n["copied"], 1, "completed copies")
    ctx.require(sum(any(x[0] == "fault" for x in s.q) for s, _ in fin), 4, "moves with a failing operation")


def self_zero(e, st, v):
    r = e.nonzero(st, v)
    return None if r is None else not r
