"""P31: path arithmetic.  path_normalize_cwd, path_relativize_cwd, path_is_prefix_for, path_basename and their pool variants are interpreted byte by byte
on paths whose parts are '.', '..', nothing, or names of arbitrary bytes, and what they give is compared with the lexical meaning of the paths."""
from itertools import product
from sa.bytes import *
from rules.p36 import h_strdup, h_strndup, xs_clear, const, word

TECHNIQUE = "abstract interpretation of LLVM IR with byte-accurate texts of symbolic bytes: result of path arithmetic against the lexical meaning of the path"
LEVEL_NOTE = ("All paths of the functions for every path of up to four parts, each of '.', '..', empty, a name of arbitrary bytes, or a name that begins with one or two dots, absolute and "
              "relative, with and without '/' at the end, against root and other current directories; pairs of absolute paths of up to three parts with every "
              "length of common beginning, names that begin with each other included. Longer paths behave alike as far as the code looks at one part at a time.")

SL, DOT = ("i", 47), ("i", 46)


class Paths(Bytes):
    special = frozenset([0, 46, 47])
    max_steps = 400000

    def inline(self, fn, inst, st):
        return not self.model.noreturn(fn.name) and fn.file and not fn.file.endswith("log.c") and fn.name not in self.handlers

    def decide(self, st, pred, a, b):
        if pred in ("eq", "ne") and a[0] == "s" and b[0] == "s":
            x, y = base(a[1]), base(b[1])
            if x and y:
                return (x == y) == (pred == "eq")       # bytes of names are pairwise different
        return super().decide(st, pred, a, b)


def base(sid):
    """the byte behind a symbol, sign extensions removed"""
    while isinstance(sid, tuple) and len(sid) == 3 and sid[0] == "e" and isinstance(sid[2], tuple) and sid[2][0] == "s":
        sid = sid[2][1]
    return sid if isinstance(sid, str) and sid.startswith("b:") else None


def cmp_names(e, a, b):
    if a[0] == "s" and b[0] == "s" and base(a[1]) and base(b[1]):
        return base(a[1]) == base(b[1])
    if a[0] == "i" and b[0] == "i":
        return a[1] == b[1]
    s, i = (a, b) if a[0] == "s" else (b, a)
    return False if s[0] == "s" and base(s[1]) and i[0] == "i" and i[1] in Paths.special else None


def find(e, hay, need):
    for k in range(len(hay) - len(need) + 1):
        rs = [cmp_names(e, x, y) for x, y in zip(hay[k:], need)]
        if False in rs:
            continue
        if None in rs:
            return -2
        return k
    return -1


def h_strstr(e, st, inst, args):
    t, s = e.get(st, args[0]), e.get(st, args[1])
    if t is None or s is None:
        return None
    k = find(e, t, s)
    return None if k == -2 else [(NULL if k < 0 else e.add_off(args[0], k), st)]


def h_strncat(e, st, inst, args):
    a, b, n = e.get(st, args[0]), e.get(st, args[1]), e.const(args[2])
    if a is None or b is None or n is None:
        return None
    e.place(st, args[0], a + b[:n])
    return [(args[0], st)]


def h_strncmp(e, st, inst, args):
    a, b = e.get(st, args[0]), e.get(st, args[1])
    n = e.const(args[2]) if len(args) > 2 else None
    if a is None or b is None or (len(args) > 2 and n is None):
        return None
    a, b = (a + (I0,))[:n], (b + (I0,))[:n]
    for x, y in zip(a, b):
        r = cmp_names(e, x, y)
        if r is None:
            return None
        if not r:
            return [(("i", 1), st)]
    return [(NULL if len(a) == len(b) else ("i", 1), st)]


CWD = [word(2, "c"), word(1, "d")]


def h_getcwd(e, st, inst, args):
    e.place(st, args[0], joined(CWD))
    return [(args[0], st)]


Paths.handlers = {"strstr": h_strstr, "strncat": h_strncat, "strcmp": h_strncmp, "strncmp": h_strncmp, "free": const(TOP), "xstr_clear": xs_clear,
                  "xstr_destroy": const(TOP), "xstrdup": h_strdup(0), "strdup": h_strdup(0), "strndup": h_strndup(0), "xstrndup": h_strndup(0),
                  "pool_strdup": h_strdup(1), "pool_strndup": h_strndup(1), "getcwd": h_getcwd}


def joined(parts):
    out = ()
    for p in parts:
        out += (SL,) + p
    return out or (SL,)


def parts_of(t):
    out, cur = [], []
    for b in t + (SL,):
        if b == SL:
            if cur:
                out.append(tuple(cur))
            cur = []
        else:
            cur.append(b)
    return out


def meaning(t, cwd):
    """names from the root to the place that the path names"""
    out = [] if t[:1] == (SL,) else list(cwd)
    for p in parts_of(t):
        if p == (DOT, DOT):
            out = out[:-1]
        elif p != (DOT,):
            out.append(p)
    return out


def shown(t):
    if t is None:
        return "unknown"
    return "'%s'" % "".join("<%s>" % b[1][2:] if b[0] == "s" else chr(b[1]) for b in t)


def texts(thorough):
    kinds = [("name", None), (".", (DOT,)), ("..", (DOT, DOT)), ("", ()), (".name", None), ("..name", None)]
    for n in range(0, 5):
        for ks in product(range(len(kinds) if n < 4 or thorough else 4), repeat=n):
            ps = []
            for k, i in enumerate(ks):
                name, p = kinds[i]
                if p is None:
                    p = (DOT,) * name.count(".") + word(1 + k % 2, "p%d" % k)
                ps.append(p)
            rel = ()
            for k, p in enumerate(ps):
                rel += ((SL,) if k else ()) + p
            yield (SL,) + rel
            if n and rel and rel[:1] != (SL,):
                yield rel
                if n < 4 and ps[-1]:
                    yield rel + (SL,)


def pairs():
    """absolute normal paths with every length of common beginning, and with names that begin with each other"""
    for c in range(0, 4):
        com = [word(2 - k % 2, "k%d" % k) for k in range(c)]
        for a in range(0, 3):
            for b in range(0, 3):
                left = [word(1 + k % 2, "l%d" % k) for k in range(a)]
                right = [word(1 + k % 2, "r%d" % k) for k in range(b)]
                yield com + left, com + right
                if a and b:
                    yield com + [word(1, "m") + left[0]] + left[1:], com + [word(1, "m") + right[0]] + right[1:]
                    yield com + [word(1, "m") + left[0]] + left[1:], com + [word(1, "m")] + right[1:]
                    yield com + [word(1, "m")] + left[1:], com + [word(1, "m") + right[0]] + right[1:]


def run(ctx):
    ctx.rule("normal", "normalising gives the absolute path of the place that the path names, without '.', '..', empty parts or '/' at the end")
    ctx.rule("relative", "the relative path leads from the one place to the other without needless steps")
    ctx.rule("prefix", "a directory contains a path exactly if the path begins with all of its parts; the rest of the path is given")
    ctx.rule("name", "the name of a path is its last part")
    ctx.assume("paths fit into PATH_MAX; the bytes of names are pairwise different unless they are the same byte of the same name")
    total = [0]

    def go(rule, name, args, judge, subject):
        e = Paths(ctx)
        st = State()
        st.esc = frozenset()
        vals = []
        for k, a in enumerate(args):
            vals.append(a if a == NULL or a[:1] == ("p",) else e.new_text(st, "arg%d" % k, a))
        fn = ctx.m.fn(name)
        ends = e.call_fn(st, name, vals)
        bad = [("it gives no result", None)] if not ends else []
        for s, v in ends:
            total[0] += 1
            why = judge(e, s, v, vals)
            if why:
                bad.append((why, s))
        if bad:
            ctx.ob(rule, subject, False, bad[0][0], fn.loc(), path=bad[0][1].lines() if bad[0][1] else [])
            return 1
        return 0

    def text(e, s, v):
        return e.get(s, v) if v is not None and e.obj_of(v) else None

    OUT = ("p", ("h", "OUT"), 0)
    limit = 8
    # normalising
    for name in ("path_normalize_cwd", "path_normalize_cwd_pool", "path_normalize", "path_normalize_pool"):
        f = ctx.m.functions.get(name)
        if f is None or not f.blocks:
            continue
        n = bad = 0
        own = "cwd" in name
        last = ("p", ("h", "POOL"), 0) if "pool" in name else OUT
        for cwd in ([], CWD) if own else (CWD,):
            for t in texts(ctx.tier == "thorough"):
                if not t or (name != "path_normalize_cwd" and len(parts_of(t)) > 2):
                    continue
                want = joined(meaning(t, cwd))

                def judge(e, s, v, vals):
                    got = text(e, s, v)
                    if got != want:
                        return "the result is %s instead of %s" % (shown(got), shown(want))
                    if last == OUT and text(e, s, OUT) != want:
                        return "the buffer holds %s instead of %s" % (shown(text(e, s, OUT)), shown(want))
                n += 1
                bad += go("normal", name, [t] + ([joined(cwd)] if own else []) + [last], judge, "%s of %s in %s" % (name, shown(t), shown(joined(cwd))))
                if bad > limit:
                    break
        if not bad:
            ctx.ob("normal", name, True, "%d paths" % n, f.loc())
        if name == "path_normalize_cwd":
            ctx.require(n, 500, "paths that are normalised")
    # relative paths
    n = bad = 0
    for a, b in pairs():
        for cwd, ta, tb in ((CWD, joined(a), joined(b)), (a, NULL, joined(b)), (a, NULL, tuple(joined(b)[1:]) if b[:len(a)] != a else None)):
            if tb is None or tb == ():
                continue
            to = b if tb[:1] == (SL,) else a + b
            c = 0
            while c < min(len(a), len(to)) and a[c] == to[c]:
                c += 1

            def judge(e, s, v, vals):
                got = text(e, s, v)
                if got is None or got[:1] == (SL,):
                    return "the result is %s, not a relative path" % shown(got)
                if meaning(got, a) != to:
                    return "the result is %s, which leads to %s" % (shown(got), shown(joined(meaning(got, a))))
                if a and len(parts_of(got)) > len(a) + len(to) - 2 * c:
                    return "the result is %s, which takes needless steps" % shown(got)
            n += 1
            bad += go("relative", "path_relativize_cwd", [ta, tb, joined(cwd)], judge,
                      "from %s to %s in %s" % ("the current directory" if ta == NULL else shown(ta), shown(tb), shown(joined(cwd))))
            if bad > limit:
                break
    if not bad:
        ctx.ob("relative", "path_relativize_cwd", True, "%d pairs" % n, ctx.m.fn("path_relativize_cwd").loc())
    ctx.require(n, 100, "pairs of paths")
    # containment
    n = bad = 0
    for a, b in pairs():
        for end in ((), (SL,)):
            for cwd, tb in ((CWD, joined(b)), (a, tuple(joined(b)[1:]))):
                if not a or tb == ():
                    continue
                to = b if tb[:1] == (SL,) else cwd + b
                inside = to[:len(a)] == a and (len(to) > len(a) or not end)

                def judge(e, s, v, vals):
                    if to == a:
                        return None             # not documented whether a directory contains itself
                    if not inside:
                        return None if v == NULL else "the path is not below the directory, but the result says so"
                    got = text(e, s, v)
                    if got is None or parts_of(got) != to[len(a):] or got[:1] == (SL,):
                        return "the result is %s instead of %s" % ("no" if v == NULL else shown(got), shown(joined(to[len(a):])[1:]))
                n += 1
                bad += go("prefix", "path_is_prefix_for", [joined(a) + end, tb, joined(cwd)], judge,
                          "%s below %s in %s" % (shown(tb), shown(joined(a) + end), shown(joined(cwd))))
                if bad > limit:
                    break
    if not bad:
        ctx.ob("prefix", "path_is_prefix_for", True, "%d pairs" % n, ctx.m.fn("path_is_prefix_for").loc())
    ctx.require(n, 100, "pairs of directory and path")
    # last part
    n = bad = 0
    for t in texts(False):
        ps = parts_of(t)
        if not ps or len(ps) > 3:
            continue

        def judge(e, s, v, vals):
            got = text(e, s, v)
            return None if got == ps[-1] else "the result is %s instead of %s" % (shown(got), shown(ps[-1]))
        n += 1
        bad += go("name", "path_basename", [t], judge, "name of %s" % shown(t))
        if bad > limit:
            break
    if not bad:
        ctx.ob("name", "path_basename", True, "%d paths" % n, ctx.m.fn("path_basename").loc())
    ctx.require(total[0], 800, "paths of the functions")
