"""P16: writes into fixed-size buffers.  Every operation that writes into an array of the program (a local, a member of a
structure, a global, or one of these handed to a function) is an obligation `offset + bytes written <= size of the array`.
Upper bounds come from a demand-driven bounds analysis over the dominating comparisons, joins, arithmetic and function results
(sa/bounds.py); what a function writes through a parameter becomes an obligation of every caller.  A second rule requires that
a buffer filled by an operation which does not terminate its text is terminated before it is used as one."""
from sa.lib import *
from sa.bounds import Bounds, shift, tight

TECHNIQUE = "demand-driven symbolic upper bounds over SSA with interprocedural buffer requirements (array-bound check elimination turned checker)"
LEVEL_NOTE = ("Every write into an array whose size is visible; a write whose size or place is computed by a loop-carried pointer walk "
              "or by a comparison the bounds do not follow is counted as undecided and raises no alarm.")

# callee -> (index of the destination, index of the number of bytes, bytes beyond it)
SIZED = {"llvm.memcpy": (0, 2, 0), "llvm.memmove": (0, 2, 0), "llvm.memset": (0, 2, 0), "memcpy": (0, 2, 0), "memmove": (0, 2, 0),
         "memset": (0, 2, 0), "fgets": (0, 1, 0), "snprintf": (0, 1, 0), "vsnprintf": (0, 1, 0), "read": (1, 2, 0), "pread": (1, 2, 0),
         "readlink": (1, 2, 0), "readlinkat": (2, 3, 0), "recv": (1, 2, 0), "getcwd": (0, 1, 0), "strncpy": (0, 2, 0), "gethostname": (0, 1, 0),
         "stpncpy": (0, 2, 0), "bcopy": (1, 2, 0), "strftime": (0, 1, 0), "getline": None}
PATHMAX = 4096
# results are not terminated by these (dst, size)
RAW = {"strncpy": 0, "readlink": 1, "readlinkat": 2, "read": 1, "pread": 1, "recv": 1, "llvm.memcpy": 0, "memcpy": 0, "llvm.memmove": 0, "memmove": 0}
# positions at which a buffer is not read as a text
WRITTEN = {"snprintf": {0}, "vsnprintf": {0}, "strncpy": {0}, "strcpy": {0}, "fgets": {0}, "getcwd": {0}, "realpath": {1}, "stat": {1}, "lstat": {1}, "fstat": {1},
           "readlink": {1}, "read": {1}, "pread": {1}, "recv": {1}, "fread": {0}}
COUNTED = {"write", "fwrite", "memcmp", "memchr", "send", "close", "free", "fstatat", "pipe", "pipe2", "poll", "utimensat", "futimens", "clock_gettime",
           "memcpy", "memmove", "memset"}


def cname(i):
    n = i.callee.name if isinstance(i.callee, Function) else None
    if n and n.startswith("llvm."):
        n = ".".join(n.split(".")[:2])
    return n


class Checker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = Bounds(ctx.m, ctx.model)
        self.needs = {}        # (fn, arg idx) -> [(bounds or None, loc, what)]
        self.sites = 0
        self.undecided = []
        self.todo = []

    def total(self, off, size):
        if off is None or size is None:
            return None
        out = {}
        if None in off:
            out = tight(out, shift(size, off[None]))
        if None in size:
            out = tight(out, shift(off, size[None]))
        # a difference: (x - len) + len
        return out

    def exact(self, i, dst, sizev, more):
        """offset + size as one sum, so that what is subtracted from the size cancels what is added to the place"""
        b = self.b
        t, c = ({}, more) if sizev is None else b.terms(sizev)
        if sizev is not None:
            c += more
        p = dst
        while isinstance(p, Inst) and p.op in ("gep", "bitcast"):
            if p.op == "gep":
                f = b.field(p)
                c += (p.off or 0) - (sum(x[1] for x in p.path) if f else 0)
                for x, s in p.var or []:
                    y, d = b.terms(x)
                    t, c = b.plus(t, y, s), c + s * d
                if f:
                    return b.most(t, c, i.block)
            p = p.ops[0]
        if not isinstance(p, (Arg, GVar)) and not (isinstance(p, Inst) and p.op in ("alloca", "call")):
            return None
        return b.most(t, c, i.block)

    def closed(self, key, fn):
        """a key made of the function's parameters only"""
        if not isinstance(key, tuple):
            return False
        if key[0] == "arg":
            return key[1] == fn
        if key[0] == "c":
            return True
        return key[0] in ("add", "sub", "len", "mul") and all(self.closed(x, fn) for x in key[1:])

    def judge(self, i, dst, size, what, sizev=None, more=0):
        """dst: pointer value; size: upper bounds of the bytes written there"""
        b = self.b
        ex = self.exact(i, dst, sizev, more if sizev is not None else size[None]) if sizev is not None or set(size) == {None} else None
        for o, off in b.place(dst, i.block):
            if isinstance(o, Arg):
                fn = i.fn.name
                if off is None:
                    if i.op == "store" or what == "walk":
                        item = ((), "walk", False)
                        l = self.needs.setdefault((fn, o.idx), [])
                        if item not in [x[:3] for x in l]:
                            l.append(item + (i,))
                            self.todo.append((fn, o.idx, item + (i,)))
                    continue
                t = self.total(off, size)
                t = {k: v for k, v in (t or {}).items() if k is None or self.closed(k, fn)}
                if ex is not None:
                    t = tight(t, {None: ex})
                g = self.is_guarded(i, dst, sizev)
                item = (tuple(sorted(t.items(), key=repr)), what, g)
                l = self.needs.setdefault((fn, o.idx), [])
                if item not in [x[:3] for x in l]:
                    l.append(item + (i,))
                    self.todo.append((fn, o.idx, item + (i,)))
                continue
            vla = isinstance(o, Inst) and o.op == "alloca" and o.size is None
            cap = b.capacity(o)
            if cap is None and not vla:
                continue
            if isinstance(o, Inst) and o.op != "alloca" and cap is None:
                continue
            if isinstance(o, GVar) and o.typ.kind != "array":
                continue
            self.sites += 1
            subj = "%s %s" % (i.fn.name, what)
            t = self.total(off, size)
            if vla and (off is None or what == "walk") and (o.asize.size or 1) == 1:
                key, k = b.lin(o.ops[0])
                if key is not None and key[0] == "len":
                    # a text is written piece by piece into an array as long as another text
                    self.ctx.ob("bounded", "%s walk" % i.fn.name, k >= 1, "" if k >= 1 else "the array has no room for the terminator of the text written into it", i.loc())
                    continue
            if off is None or t is None or what == "walk":
                self.note(subj, i, "the place is a pointer that walks along the buffer")
                continue
            if vla:
                el = o.asize.size or 1
                key, k = b.lin(o.ops[0])
                if el == 1 and key is not None and key in t:
                    ok = t[key] <= k
                    self.ctx.ob("bounded", subj, ok, "" if ok else "up to %d byte(s) are written past the end of the array of computed size" % (t[key] - k), i.loc())
                elif None in t and t[None] <= k * el:
                    self.ctx.ob("bounded", subj, True, "", i.loc())
                else:
                    self.note(subj, i, "not comparable with the computed size of the array")
                continue
            n = t.get(None)
            if ex is not None:
                n = ex if n is None else min(n, ex)
            if n is not None and n <= cap:
                self.ctx.ob("bounded", subj, True, "", i.loc())
            elif n is not None:
                self.ctx.ob("bounded", subj, False, "up to %d bytes are written into a buffer of %d bytes" % (n, cap), i.loc())
            elif self.is_guarded(i, dst, sizev):
                self.note(subj, i, "compared, but the bound was not derived")
            elif self.inner(sizev):
                self.note(subj, i, "the length of a text the function made itself")
            else:
                self.ctx.ob("bounded", subj, False, "nothing bounds what is written into a buffer of %d bytes" % cap, i.loc())

    def inner(self, v):
        t, _ = self.b.terms(v) if isinstance(v, (Inst, Arg)) else ({}, 0)
        for k, f in t.items():
            r = self.b.rep.get(k)
            if f > 0 and not (isinstance(r, Inst) and r.op == "call" and cname(r) == "strlen" and not self.outside(r.ops[0])):
                return False
        return bool(t)

    def is_guarded(self, i, dst, sizev):
        vs = [sizev] if isinstance(sizev, (Inst, Arg)) else []
        p = dst
        while isinstance(p, Inst) and p.op in ("gep", "bitcast"):
            if p.op == "gep":
                vs += [x for x, _ in p.var or [] if isinstance(x, (Inst, Arg))]
            p = p.ops[0]
        return any(self.b.guarded(v, i.fn) for v in vs)

    def note(self, subj, i, why):
        if (subj, why) not in self.undecided:
            self.undecided.append((subj, why))

    # ---- the operations
    def text_len(self, p, block):
        """upper bounds of the length of a text"""
        if isinstance(p, (GVar, CGep)):
            g = p.base if isinstance(p, CGep) else p
            if isinstance(g, GVar) and g.string is not None and g.const:
                return {None: len(g.string) - (p.off if isinstance(p, CGep) else 0)}
        c = self.b.cap_of_text(p)
        d = {("len", self.b.key(p)): 0}
        # what is compared with strlen(p)
        d = tight(d, self.b._ub(("len", self.b.key(p)), block, frozenset(), 0))
        if c:
            d = tight(d, {None: c - 1})
        return d

    def op(self, i):
        b = self.b
        n = cname(i)
        if i.op == "store":
            p = i.ops[1]
            if not isinstance(p, (Inst, CGep)):
                return
            v = i.ops[0]
            sz = getattr(getattr(v, "ty", None), "size", None)
            if sz is None:
                sz = (v.bits + 7) // 8 if isinstance(v, Const) and v.bits else 8 if isinstance(v, (GVar, CGep, Function)) or isinstance(v, Const) else None
            if sz is None:
                return
            if isinstance(p, Inst) and p.op == "alloca":
                return
            if isinstance(p, Inst) and p.op == "gep" and p.path and not (p.var or b.field(p)):
                return
            self.judge(i, p, {None: sz}, "store")
            return
        if n is None:
            return
        if n in SIZED and SIZED[n]:
            d, s, more = SIZED[n]
            if s < len(i.ops):
                self.judge(i, i.ops[d], shift(b.ub(i.ops[s], i.block), more), n.replace("llvm.", ""), i.ops[s], more)
        elif n == "fread":
            if isinstance(i.ops[1], Const):
                u = b.ub(i.ops[2], i.block)
                self.judge(i, i.ops[0], {k: v * i.ops[1].v for k, v in u.items() if k is None or i.ops[1].v == 1}, n)
        elif n == "realpath":
            self.judge(i, i.ops[1], {None: PATHMAX}, n)
        elif n in ("strcpy", "stpcpy"):
            self.judge(i, i.ops[0], shift(self.text_len(i.ops[1], i.block), 1), n)
        elif n == "strncat":
            self.strncat(i)
        elif n == "strcat":
            self.strcat(i)
        elif n in ("sprintf", "vsprintf", "gets"):
            self.sprintf(i, n)

    def length_of(self, i, p):
        """the length a text has at instruction i as a (key, k), from strlen and the terminator stored last"""
        b = self.b
        obj = b.bases(p)
        best = None
        for x in i.fn.insts():
            if x is i or not b.dominates(x.block, i.block, i.fn):
                continue
            if x.block is i.block and x.block.insts.index(x) > i.block.insts.index(i):
                continue
            if x.op == "call" and cname(x) == "strlen" and b.bases(x.ops[0]) == obj:
                best = (b.key(x), 0)
            elif x.op == "store" and isinstance(x.ops[0], Const) and x.ops[0].v == 0 and b.bases(x.ops[1]) == obj:
                g = x.ops[1]
                if isinstance(g, Inst) and g.op == "gep" and len(g.var or []) == 1 and b.bases(g.ops[0]) == obj:
                    kk, c = b.lin(g.var[0][0])
                    best = (kk, c + (g.off or 0))
                elif isinstance(g, Inst) and (g.op == "alloca" or g.op == "gep" and not g.var):
                    best = (None, g.off or 0 if g.op == "gep" else 0)
        return best

    def strncat(self, i):
        b = self.b
        l = self.length_of(i, i.ops[0])
        t, c = b.terms(i.ops[2])
        if l is not None:
            t = dict(t)
            if l[0] is not None:
                t[l[0]] = t.get(l[0], 0) + 1
            c += l[1] + 1
            t = {k: f for k, f in t.items() if f}
            if not t:
                self.judge_whole(i, i.ops[0], {None: c}, "strncat")
                return
            if all(f > 0 for f in t.values()):
                tot = c
                cap = self.b.cap_of_text(i.ops[0])
                if cap is None:
                    cs = [self.b.capacity(o) for o in b.bases(i.ops[0])]
                    cap = cs[0] if cs else None
                for k, f in t.items():
                    u = self.b._ub(k, i.block, frozenset(), 0).get(None)
                    if u is None and k == l[0] and cap:
                        u = cap - 1
                    tot = None if u is None or tot is None else tot + f * u
                if tot is not None:
                    self.judge_whole(i, i.ops[0], {None: tot}, "strncat")
                    return
        # at the least, the room left has to be computed from the length of the text
        if not t and l is None:
            self.judge_whole(i, i.ops[0], {None: c + 1}, "strncat")
        else:
            self.note("%s strncat" % i.fn.name, i, "the length of the text so far is not known")

    def judge_whole(self, i, p, size, what):
        for o in self.b.bases(p):
            if isinstance(o, Arg):
                item = (tuple(size.items()), what, False, i)
                l = self.needs.setdefault((i.fn.name, o.idx), [])
                l.append(item)
                self.todo.append((i.fn.name, o.idx, item))
            else:
                cap = self.b.capacity(o)
                if cap:
                    self.sites += 1
                    ok = size[None] <= cap
                    self.ctx.ob("bounded", "%s %s" % (i.fn.name, what), ok,
                                "" if ok else "up to %d bytes are written into a buffer of %d bytes" % (size[None], cap), i.loc())

    def outside(self, p):
        """a text that comes from outside the function as it is: a parameter, a result, the environment"""
        for o in self.b.bases(p):
            if isinstance(o, Arg):
                return True
            if isinstance(o, Inst) and o.op == "call" and not self.ctx.model.is_alloc(self.ctx.model.base(cname(o) or "")):
                return True
            if isinstance(o, Inst) and o.op == "load" and self.ctx.model.ptr_field(o.ops[0]):
                return True
        return False

    def strcat(self, i):
        b = self.b
        src = i.ops[1]
        caps = [b.capacity(o) for o in b.bases(i.ops[0]) if not (isinstance(o, Inst) and o.op == "call")]
        caps = [c for c in caps if c and c < 1 << 40]
        subj = "%s strcat" % i.fn.name
        if not caps or not self.outside(src):
            self.note(subj, i, "appending to a text of unknown length")
            return
        self.sites += 1
        k = ("len", b.key(src))
        looked = any(x.op == "icmp" and x.pred not in ("eq", "ne") and any(self.mentions(o, k) for o in x.ops) for x in i.fn.insts())
        if looked:
            self.note(subj, i, "compared, but the bound was not derived")
        else:
            self.ctx.ob("bounded", subj, False, "a text of any length is appended to a buffer of %d bytes" % min(caps), i.loc())

    def mentions(self, v, k, d=0):
        if d > 6 or not isinstance(v, (Inst, Arg)):
            return False
        if self.b.key(v) == k:
            return True
        return isinstance(v, Inst) and v.op in ("add", "sub", "zext", "sext", "trunc") and any(self.mentions(o, k, d + 1) for o in v.ops)

    def sprintf(self, i, n):
        for o in self.b.bases(i.ops[0]):
            cap = self.b.capacity(o)
            if cap is None or cap >= 1 << 40:
                continue
            self.sites += 1
            if n == "sprintf":
                f = i.ops[1]
                f = f.base if isinstance(f, CGep) else f
                if isinstance(f, GVar) and f.string is not None and "%s" not in f.string and "%" in f.string or \
                   isinstance(f, GVar) and f.string is not None and "%" not in f.string and len(f.string) < cap:
                    self.note("%s %s" % (i.fn.name, n), i, "the width of numbers is not computed")
                    continue
                if isinstance(f, GVar) and f.string is not None:
                    tot = len(f.string) - 2 * f.string.count("%s") + 1
                    for a in i.ops[2:]:
                        u = self.text_len(a, i.block)
                        tot = tot + u[None] if tot is not None and None in u else None
                    if tot is not None and f.string.count("%") == f.string.count("%s") and tot <= cap:
                        self.ctx.ob("bounded", "%s %s" % (i.fn.name, n), True, "", i.loc())
                        continue
            self.ctx.ob("bounded", "%s %s" % (i.fn.name, n), False, "texts are printed into a buffer of %d bytes without a limit" % cap, i.loc())

    # ---- what functions need from their callers
    def propagate(self):
        done = set()
        m = self.ctx.m
        while self.todo:
            fn, idx, (t, what, g, src) = self.todo.pop()
            k = (fn, idx, t, what)
            if k in done or len(done) > 4000:
                continue
            done.add(k)
            for c in self.b.callers_.get(fn, []):
                if idx >= len(c.ops) or isinstance(c.ops[idx], (Const, Function)):
                    continue
                size = {}
                sv, mo = None, 0
                for key, kk in t:
                    if key is None:
                        size = tight(size, {None: kk})
                        continue
                    r = self.b.subst(key, c)
                    if r is None:
                        continue
                    if r[0] is None:
                        size = tight(size, {None: r[1] + kk})
                    elif r[0][0] == "len" and key[0] == "len" and key[1][0] == "arg":
                        size = tight(size, shift(self.text_len(c.ops[key[1][2]], c.block), kk))
                    else:
                        size = tight(size, shift(self.b._ub(r[0], c.block, frozenset(), 0), r[1] + kk))
                        if key[0] == "arg" and (sv is None or isinstance(c.ops[key[2]], Inst)):
                            sv, mo = c.ops[key[2]], kk
                if what == "walk":
                    self.judge(c, c.ops[idx], {None: 1}, "walk")
                    continue
                if not t and g:
                    continue
                if not t:
                    # unbounded in the callee: a guard of the caller may be what bounds it
                    if any(isinstance(a, (Inst, Arg)) and a.ty.kind == "int" and self.b.guarded(a, c.fn) for a in c.ops):
                        continue
                self.judge(c, c.ops[idx], size, "-> %s" % self.ctx.model.base(fn), sv, mo)


def is_len(a):
    return isinstance(a, (Inst, Arg)) and a.ty.kind == "int" and a.ty.bits >= 32 or isinstance(a, Const) and a.kind == "int" and a.bits >= 32


def closes(ck, x, o):
    """x stores a terminator into o, or replaces its text by a terminated one"""
    b = ck.b
    if x.op == "store":
        return isinstance(x.ops[0], Const) and x.ops[0].kind == "int" and x.ops[0].v == 0 and x.ops[0].bits == 8 and o in b.bases(x.ops[1])
    if x.op != "call" or not isinstance(x.callee, Function):
        return False
    n = cname(x)
    if n in ("snprintf", "vsnprintf", "strcpy", "fgets", "getcwd"):
        return o in b.bases(x.ops[0])
    if n == "llvm.memset":
        return o in b.bases(x.ops[0]) and isinstance(x.ops[1], Const) and x.ops[1].v == 0
    if n == "realpath":
        return o in b.bases(x.ops[1])
    if n in ("llvm.memcpy", "memcpy") and o in b.bases(x.ops[0]):
        return with_nul(ck, x, o)
    if not x.callee.decl and any(o in b.bases(a) for a in x.ops if isinstance(a, (Inst, Arg))):
        # a function that is told a length may terminate the text itself
        return any(is_len(a) for a in x.ops)
    return False


def with_nul(ck, i, o):
    """the copy takes the terminator along"""
    b = ck.b
    s = i.ops[2]
    if isinstance(s, Const):
        return True
    kk, c = b.lin(s)
    if kk is not None and (kk[0] == "len" or isinstance(b.rep.get(kk), Inst) and b.rep[kk].op == "call" and cname(b.rep[kk]) == "strlen"):
        return c >= 1
    if isinstance(o, Inst) and o.op == "alloca" and o.size is None:
        key, k = b.lin(o.ops[0])
        offs = [x for _, x in b.place(i.ops[0], i.block)]
        if key == kk and offs and offs[0] and offs[0].get(None, 0) + c >= k:
            # up to the very end of the array of computed size
            return kk is None or kk[0] != "len" or k - offs[0].get(None, 0) >= 1
    return False


def reads_text(ck, fn, k, depth=0):
    """the function reads its parameter k up to a terminator"""
    key = (fn.name, k)
    memo = ck.__dict__.setdefault("reads", {})
    if key not in memo:
        memo[key] = False
        if k < len(fn.args) and not fn.decl and depth < 4:
            memo[key] = any(uses(ck, x, fn.args[k], depth + 1) for x in fn.calls())
    return memo[key]


def uses(ck, x, o, depth=0):
    """x reads o as a text"""
    b = ck.b
    if x.op != "call":
        return False
    n = cname(x)
    if n is not None and (n.startswith("llvm.") or n in COUNTED):
        return False
    f = x.callee if isinstance(x.callee, Function) else None
    for k, a in enumerate(x.ops):
        if not isinstance(a, (Inst, Arg)) or a.ty.kind != "ptr" or o not in b.bases(a):
            continue
        if n in WRITTEN and k in WRITTEN[n]:
            continue
        nxt = x.ops[k + 1] if k + 1 < len(x.ops) else None
        if (f is None or not f.decl) and is_len(nxt):
            # handed on with its length, unless the length is not what ends the reading
            fs = [f] if f is not None else [ck.ctx.m.functions[t] for t in ck.ctx.model.targets(x) if t in ck.ctx.m.functions]
            if not any(reads_text(ck, t, k, depth) for t in fs):
                continue
        return True
    return False


def open_path(ck, fn, o, blk, at, to_use):
    """a path from a place to a use of the text (or to a return) on which no terminator is stored, or None;
    paths on which a size parameter is known to be zero need none"""
    b = ck.b
    succ = b._cfg(fn)[3]
    seen = set()
    st = [(blk, at, [])]
    while st:
        blk, at, lines = st.pop()
        if blk in seen and at == 0:
            continue
        if at == 0:
            seen.add(blk)
        done = False
        for x in blk.insts[at:]:
            if to_use and uses(ck, x, o):
                return lines + [x.loc()]
            if closes(ck, x, o):
                done = True
                break
        if done:
            continue
        lines = lines + [blk.insts[-1].loc()]
        if blk.insts[-1].op == "ret" and not to_use:
            return lines
        for s in succ.get(blk, []):
            fs = b._edge(blk, s)
            if any(kb is None and k <= 0 and ka is not None and ka[0] == "arg" and getattr(b.rep.get(ka), "ty", None) is not None
                   and b.rep[ka].ty.kind == "int" for ka, kb, k in fs):
                continue
            st.append((s, 0, lines))
    return None


def is_text(o):
    if isinstance(o, Arg):
        return True
    if not (isinstance(o, Inst) and o.op == "alloca"):
        return False
    at = o.asize
    el = at.elem if at.kind == "array" else at
    return el is not None and el.kind == "int" and el.bits == 8 and (at.kind == "array" or o.size is None)


def overwrites_end(ck, i):
    """a character other than the terminator is stored at the place of the terminator: text[strlen(text)] = c"""
    b = ck.b
    v, g = i.ops[0], i.ops[1]
    if isinstance(v, Const) and (v.v == 0 or v.bits != 8) or not (isinstance(g, Inst) and g.op == "gep" and len(g.var or []) == 1):
        return None
    if getattr(getattr(v, "ty", None), "bits", 8) != 8:
        return None
    k, c = b.lin(g.var[0][0])
    r = b.rep.get(k)
    if c + (g.off or 0) == 0 and isinstance(r, Inst) and r.op == "call" and cname(r) == "strlen" and b.key(r.ops[0]) == b.key(g.ops[0]):
        bs = b.bases(g.ops[0])
        return next(iter(bs)) if len(bs) == 1 else None
    return None


def terminated(ctx, ck):
    """buffers filled without a terminator and used as texts"""
    b = ck.b
    n = 0
    for fn in ctx.m.defined():
        if fn.file and fn.file.startswith("scriptx."):
            continue
        reach = b._cfg(fn)[2]
        for i in fn.insts():
            if i.block not in reach:
                continue
            nm = cname(i) if i.op == "call" else None
            objs = []
            if nm in RAW:
                s = i.ops[SIZED[nm][1]]
                if nm.endswith(("memcpy", "memmove")) and isinstance(s, Const):
                    continue
                objs = [o for o in b.bases(i.ops[RAW[nm]]) if is_text(o) and not (nm.endswith(("memcpy", "memmove")) and with_nul(ck, i, o))]
                what = nm.replace("llvm.", "")
            elif i.op == "store":
                o = overwrites_end(ck, i)
                objs = [o] if o is not None and is_text(o) else []
                what = "last character"
            for o in objs:
                subj = "%s %s" % (ctx.model.base(fn.name), what)
                at = i.block.insts.index(i) + 1
                n += 1
                p = open_path(ck, fn, o, i.block, at, True)
                ctx.ob("terminated", subj, p is None, "" if p is None else "the text put here is used without having been terminated", i.loc(), p or [])
                if isinstance(o, Arg) and nm in ("llvm.memcpy", "memcpy", "llvm.memmove", "memmove", "strncpy"):
                    for start in ((fn.blocks[0], 0), (i.block, at)):
                        p = open_path(ck, fn, o, start[0], start[1], False)
                        ctx.ob("terminated", subj + " on return", p is None,
                               "" if p is None else "a path leaves the text it was to fill without a terminator", i.loc(), p or [])
    return n


def run(ctx):
    ctx.rule("bounded", "offset + number of bytes written <= size of the array, for every write into an array of visible size")
    ctx.rule("terminated", "a buffer filled without a terminator is terminated in the function before it is used as a text")
    ck = Checker(ctx)
    for fn in ctx.m.defined():
        if fn.file and fn.file.startswith("scriptx."):
            continue
        for i in fn.insts():
            if i.op in ("call", "store"):
                ck.op(i)
    ck.propagate()
    n = terminated(ctx, ck)
    ctx.require(ck.sites, 70, "writes into arrays")
    ctx.require(n, 4, "unterminated fills")
    ctx.count("undecided writes", len(ck.undecided))
    for s, why in ck.undecided:
        ctx.notes.append("undecided: %s: %s" % (s, why))
    ctx.assume("Reading a text stops at its terminator, so a text in a buffer of n bytes is at most n-1 long; arithmetic on sizes does not wrap.")
    ctx.assume("The parser generated by leg from scriptx.leg keeps its own growing buffers and is not examined.")
    ctx.assume("PATH_MAX is 4096, as on the Linux target.")
