"""Demand-driven symbolic upper bounds over SSA (after ABCD, Bodik et al.), and the capacities of fixed-size buffers.

`ub(v, block)` is a set of facts v <= key + k, where the key is None (a constant) or the key of another value (a parameter,
the length of a text, ...).  Bounds come from arithmetic, from the comparisons that dominate the place, from phi joins, from
what functions return, and from the places a parameter is given a value.  Keys are structural, so two computations of the same
expression have the same key.  Nothing is executed, and no solver is involved."""
from .ir import Inst, Arg, Const, GVar, CGep, Function

CASTS = ("zext", "sext", "trunc", "freeze", "bitcast")
NEG = {"ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "eq": "ne", "ne": "eq"}
INF = None


def shift(d, k):
    return {b: x + k for b, x in d.items()}


def tight(*ds):
    out = {}
    for d in ds:
        for b, k in d.items():
            if b not in out or k < out[b]:
                out[b] = k
    return out


class Bounds:
    def __init__(self, m, model):
        self.m, self.model = m, model
        self._key = {}
        self.rep = {}
        self._dom = {}
        self._facts = {}
        self._cmp = {}
        self._ret = {}
        self._cap = {}
        self._arg = {}
        self.callers_ = {}
        for f in m.defined():
            for i in f.insts():
                if i.op == "call" and isinstance(i.callee, Function):
                    self.callers_.setdefault(i.callee.name, []).append(i)

    # ---- control flow without the paths that never return
    def _cfg(self, fn):
        r = self._dom.get(fn.name)
        if r is not None:
            return r
        succ = {}
        for b in fn.blocks:
            dead = any(i.op == "call" and isinstance(i.callee, Function) and self.model.noreturn(i.callee.name) for i in b.insts)
            succ[b] = [] if dead else list(b.succs)
        order, seen = [], set()

        def walk(b):
            st = [(b, iter(succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    st.pop()
                    order.append(x)
        walk(fn.blocks[0])
        order.reverse()
        num = {b: k for k, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x is not y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) is not new:
                    idom[b] = new
                    ch = True
        r = self._dom[fn.name] = (idom, preds, order, succ)
        return r

    def dominates(self, a, b, fn):
        idom, _, order, _ = self._cfg(fn)
        if b not in idom:
            return True
        while True:
            if a is b:
                return True
            if idom[b] is b:
                return False
            b = idom[b]

    # ---- structural keys
    def key(self, v):
        if isinstance(v, Const):
            return ("c", v.v if v.kind == "int" else v.kind)
        if isinstance(v, Arg):
            k = ("arg", v.fn if isinstance(v.fn, str) else v.fn.name, v.idx)
            self.rep.setdefault(k, v)
            return k
        if isinstance(v, GVar):
            return ("g", v.name)
        if isinstance(v, CGep):
            return ("cg", self.key(v.base), v.off)
        if isinstance(v, Function):
            return ("f", v.name)
        if not isinstance(v, Inst):
            return ("?", id(v))
        k = self._key.get(v)
        if k is not None:
            return k
        self._key[v] = ("v", v.fn.name, v.uid)
        if v.op in CASTS or v.op == "ptrtoint":
            k = self.key(v.ops[0])
        elif v.op in ("add", "sub", "mul", "and", "shl", "lshr", "udiv", "sdiv", "urem", "srem"):
            k = (v.op, self.key(v.ops[0]), self.key(v.ops[1]))
        elif v.op == "gep":
            k = ("gep", self.key(v.ops[0]), v.off or 0, tuple((self.key(x), s) for x, s in (v.var or [])))
        elif v.op == "load":
            r = self._same_load(v)
            k = self.key(r) if r is not None else ("v", v.fn.name, v.uid)
        elif v.op == "call" and isinstance(v.callee, Function) and v.callee.name in ("strlen", "utils_strlen"):
            k = ("len", self.key(v.ops[0])) if self._stable(v.ops[0]) else ("v", v.fn.name, v.uid)
        else:
            k = ("v", v.fn.name, v.uid)
        self._key[v] = k
        self.rep.setdefault(k, v)
        return k

    def _stable(self, p):
        """a text that the function itself does not rewrite"""
        if isinstance(p, Arg):
            return True
        if isinstance(p, Inst):
            if p.op == "load" or p.op == "call":
                return True
            if p.op in ("gep", "bitcast"):
                return self._stable(p.ops[0])
        return False

    def _same_load(self, v):
        pk = self.key(v.ops[0])
        ins = v.block.insts
        at = ins.index(v)
        best = None
        for j in range(at - 1, -1, -1):
            x = ins[j]
            if x.op == "load" and x.ty is v.ty and self.key(x.ops[0]) == pk:
                best = x
            elif x.op == "store":
                if self.key(x.ops[1]) == pk or not (self._local(x.ops[1]) or self._local(v.ops[0])):
                    break
                if self._obj(x.ops[1]) is not None and self._obj(x.ops[1]) is self._obj(v.ops[0]):
                    break
            elif x.op == "call":
                n = x.callee.name if isinstance(x.callee, Function) else ""
                if n.startswith("llvm.mem"):
                    o = self._obj(x.ops[0])
                    if o is None or o is self._obj(v.ops[0]):
                        break
                    continue
                if not n.startswith("llvm."):
                    break
        return best

    def _obj(self, p, d=0):
        while isinstance(p, Inst) and p.op in ("gep", "bitcast") and d < 20:
            p = p.ops[0]
            d += 1
        return p if isinstance(p, Inst) and p.op == "alloca" else None

    def _local(self, p):
        return self._obj(p) is not None

    def lin(self, v):
        """v as key + constant"""
        k = 0
        for _ in range(40):
            if isinstance(v, Const):
                return (None, k + v.v) if v.kind == "int" else (("c", v.kind), k)
            if isinstance(v, Inst):
                if v.op in CASTS or v.op == "ptrtoint":
                    v = v.ops[0]
                    continue
                if v.op in ("add", "sub") and isinstance(v.ops[1], Const) and v.ops[1].kind == "int":
                    k += v.ops[1].v if v.op == "add" else -v.ops[1].v
                    v = v.ops[0]
                    continue
                if v.op == "add" and isinstance(v.ops[0], Const) and v.ops[0].kind == "int":
                    k += v.ops[0].v
                    v = v.ops[1]
                    continue
            break
        return self.key(v), k

    # ---- conditions
    def le(self, a, b, k):
        """the comparison a <= b + k as (key of a, key of b, k); a key is None for a constant"""
        ka, ca = self.lin(a)
        kb, cb = self.lin(b)
        return (ka, kb, cb + k - ca)

    def cond(self, c, truth, depth=0):
        """[(key a, key b, k)] with a <= b + k, implied by c being `truth`"""
        if depth > 8 or not isinstance(c, Inst):
            return []
        if c.op in ("zext", "trunc", "freeze", "sext"):
            return self.cond(c.ops[0], truth, depth + 1)
        if c.op == "icmp":
            p = c.pred if truth else NEG[c.pred]
            a, b = c.ops
            if isinstance(b, Const) and b.kind == "int" and b.v == 0 and isinstance(a, Inst) and a.ty.kind == "int" and p in ("ne", "eq"):
                x = a
                while isinstance(x, Inst) and x.op in CASTS:
                    x = x.ops[0]
                if isinstance(x, Inst) and x.op in ("icmp", "xor", "and", "or", "phi", "select", "call"):
                    r = self.cond(x, p == "ne", depth + 1)
                    if r:
                        return r
            if p in ("ult", "slt"):
                r = [(a, b, -1)]
            elif p in ("ule", "sle"):
                r = [(a, b, 0)]
            elif p in ("ugt", "sgt"):
                r = [(b, a, -1)]
            elif p in ("uge", "sge"):
                r = [(b, a, 0)]
            elif p == "eq":
                r = [(a, b, 0), (b, a, 0)]
            else:
                r = []
            return [self.le(*x) for x in r]
        if c.op == "xor" and isinstance(c.ops[1], Const) and c.ops[1].v in (1, -1):
            return self.cond(c.ops[0], not truth, depth + 1)
        if c.op == "and" and truth or c.op == "or" and not truth:
            return self.cond(c.ops[0], truth, depth + 1) + self.cond(c.ops[1], truth, depth + 1)
        if c.op == "select":
            out = []
            for want, o in ((True, 1), (False, 2)):
                other = c.ops[3 - o]
                if isinstance(other, Const) and other.kind == "int" and bool(other.v) != truth:
                    out += self.cond(c.ops[0], want, depth + 1) + self.cond(c.ops[o], truth, depth + 1)
            return out
        if c.op == "phi":
            live = [(v, b) for v, b in c.incoming if not (isinstance(v, Const) and v.kind == "int" and bool(v.v) != truth)]
            if len(live) == 1:
                v, b = live[0]
                return self.cond(v, truth, depth + 1) + list(self.facts(b)) + self._edge(b, c.block)
            return []
        if c.op == "call" and isinstance(c.callee, Function) and not c.callee.decl:
            rs = [i for i in c.callee.insts() if i.op == "ret" and i.ops]
            if len(rs) == 1:
                out = []
                for a, b, k in self.cond(rs[0].ops[0], truth, depth + 1):
                    x = self.subst(a, c) if a is not None else None
                    y = self.subst(b, c) if b is not None else None
                    if (a is None or x is not None) and (b is None or y is not None):
                        x, cx = x if x is not None else (None, 0)
                        y, cy = y if y is not None else (None, 0)
                        out.append((x, y, k + cy - cx))
                return out
        return []

    def subst(self, key, call):
        """a key of the called function in terms of the caller: (key, constant), or None"""
        if not isinstance(key, tuple):
            return None
        if key[0] == "arg":
            if key[1] == call.callee.name and key[2] < len(call.ops):
                return self.lin(call.ops[key[2]])
            return None
        if key[0] == "c":
            return (None, key[1]) if isinstance(key[1], int) else None
        if key[0] in ("add", "sub", "mul", "len"):
            parts = []
            for x in key[1:]:
                r = self.subst(x, call)
                if r is None:
                    return None
                parts.append(r)
            if key[0] == "len":
                return (("len", parts[0][0]), 0) if parts[0][1] == 0 and parts[0][0] is not None else None
            (x, cx), (y, cy) = parts
            if key[0] == "mul":
                return (None, cx * cy) if x is None and y is None else None
            sg = 1 if key[0] == "add" else -1
            if y is None:
                return (x, cx + sg * cy)
            if x is None:
                x = ("c", 0)
            return ((key[0], x, y), cx + sg * cy)
        if key[0] == "gep":
            r = self.subst(key[1], call)
            return (("gep", r[0], key[2], key[3]), 0) if r and r[1] == 0 and not key[3] else None
        if key[0] in ("g", "cg", "f"):
            return (key, 0)
        return None

    def _edge(self, p, b):
        t = p.insts[-1]
        if t.op == "br" and t.ops and len(t.succs) == 2 and t.succs[0] is not t.succs[1]:
            return self.cond(t.ops[0], t.succs[0] is b)
        return []

    def facts(self, b):
        """comparisons known to hold on entry of block b"""
        r = self._facts.get(b)
        if r is not None:
            return r
        self._facts[b] = []
        idom, preds, order, succ = self._cfg(b.fn)
        out = []
        if b in idom:
            x = b
            while True:
                ps = preds[x]
                if len(ps) == 1:
                    out += self._edge(ps[0], x)
                if idom[x] is x:
                    break
                x = idom[x]
        self._facts[b] = out
        return out

    def known(self, fs, key):
        """bounds of the value with this key from a list of comparisons: [(key b, k)] with key <= b + k"""
        return [(b, k) for a, b, k in fs if a == key and a is not None]

    def least(self, fs, key):
        """the greatest known lower bound of a key (sizes and lengths are not negative)"""
        return max([0] + [-k for a, b, k in fs if a is None and b == key])

    # ---- upper bounds
    def ub(self, v, block, busy=frozenset(), depth=0, extra=()):
        key, k = self.lin(v)
        if key is None:
            return {None: k}
        return shift(self._ub(key, block, busy, depth, extra), k)

    def _ub(self, key, block, busy, depth, extra=()):
        out = {key: 0}
        if depth > 24:
            return out
        if (key, block) in busy or len(busy) > 60:
            return out
        b2 = busy | {(key, block)}
        fs = list(self.facts(block)) + list(extra) if block is not None else list(extra)
        for kb, k in self.known(fs, key)[:8]:
            if kb is None:
                out = tight(out, {None: k})
            elif kb != key:
                out = tight(out, shift(self._ub(kb, block, b2, depth + 1, extra), k))
        v = self.rep.get(key)
        if v is None and isinstance(key, tuple) and key[0] == "sub":
            out = tight(out, self._diff(self.rep.get(key[1]), self.rep.get(key[2])))
        elif v is None and isinstance(key, tuple) and key[0] == "len" and key[1] in self.rep:
            c = self.cap_of_text(self.rep[key[1]])
            out = tight(out, {None: c - 1} if c else {})
        out = tight(out, self._def(v, block, b2, depth + 1, extra))
        return out

    def _def(self, v, block, busy, depth, extra):
        if isinstance(v, Arg):
            return {}
        if not isinstance(v, Inst):
            return {}
        op = v.op
        if op == "sub":
            d = self._ptrdiff(v, block, busy, depth)
            r = self.ub(v.ops[0], block, busy, depth, extra)
            if isinstance(v.ops[0], Inst) and v.ops[0].op == "ptrtoint":
                r = {}
            lk, lc = self.lin(v.ops[0])
            return tight(r, d)
        if op == "and":
            for o in v.ops:
                if isinstance(o, Const) and o.kind == "int" and o.v >= 0:
                    return {None: o.v}
            return {}
        if op in ("urem", "srem") and isinstance(v.ops[1], Const) and v.ops[1].kind == "int":
            return {None: abs(v.ops[1].v) - 1}
        if op in ("udiv", "sdiv", "lshr", "ashr"):
            a = self.ub(v.ops[0], block, busy, depth, extra)
            if isinstance(v.ops[1], Const) and v.ops[1].kind == "int" and None in a:
                dv = v.ops[1].v if op in ("udiv", "sdiv") else 1 << v.ops[1].v
                if dv > 0:
                    return tight(a, {None: a[None] // dv})
            return a
        if op == "mul":
            for x, y in ((0, 1), (1, 0)):
                if isinstance(v.ops[y], Const) and v.ops[y].kind == "int" and v.ops[y].v >= 0:
                    a = self.ub(v.ops[x], block, busy, depth, extra)
                    if None in a:
                        return {None: a[None] * v.ops[y].v}
            return {}
        if op == "add":
            a = self.ub(v.ops[0], block, busy, depth, extra)
            b = self.ub(v.ops[1], block, busy, depth, extra)
            out = {}
            if None in a:
                out = tight(out, shift(b, a[None]))
            if None in b:
                out = tight(out, shift(a, b[None]))
            return out
        if op == "select":
            r = []
            for o, t in ((1, True), (2, False)):
                ex = tuple(extra) + tuple(self.cond(v.ops[0], t))
                r.append(self.ub(v.ops[o], block, busy, depth, ex))
            return self._join(r)
        if op == "phi":
            web = self._web(v)
            keys = {self.key(x) for x in web}
            r, fss = [], []
            for w in web:
                for x, p in w.incoming:
                    k, c = self.lin(x)
                    if k in keys and c <= 0:
                        continue
                    ex = tuple(self._edge(p, w.block))
                    fs = list(self.facts(p)) + list(ex)
                    d = {}
                    if k in keys:
                        for kb, kk in self.known(fs, k):
                            if kb is None:
                                d = tight(d, {None: kk + c})
                            elif kb not in keys:
                                d = tight(d, shift(self._ub(kb, p, busy, depth + 1, ex), kk + c))
                    else:
                        d = self.ub(x, p, busy, depth, ex)
                    r.append({b: kk for b, kk in d.items() if b not in keys})
                    fss.append(fs)
            r = self._join(r, fss)
            if None not in r:
                c = self._progress(v)
                if c:
                    r = tight(r, {None: c})
            return r
        if op == "load":
            return {}
        if op == "call":
            return self._call(v, block, busy, depth, extra)
        return {}

    def _progress(self, v):
        """a counter that goes up by one at most as often as a pointer moves along a text of known capacity"""
        if v.ty.kind != "int":
            return None
        me = self.key(v)
        web, work, up = set(), [v], False
        while work:
            x = work.pop()
            if x in web:
                continue
            web.add(x)
            for y, _ in x.incoming:
                for _ in range(12):
                    if isinstance(y, Inst) and y.op in ("add", "sub") and isinstance(y.ops[1], Const) and y.ops[1].kind == "int":
                        d = y.ops[1].v if y.op == "add" else -y.ops[1].v
                        if d > 1:
                            return None
                        up = up or d == 1
                        y = y.ops[0]
                    elif isinstance(y, Inst) and y.op in CASTS:
                        y = y.ops[0]
                    else:
                        break
                if isinstance(y, Inst) and y.op == "phi":
                    work.append(y)
                elif not (isinstance(y, Const) and y.kind == "int" and y.v <= 0):
                    return None
        if not up:
            return None
        best = None
        for i in v.block.insts:
            if i.op == "phi" and i.ty.kind == "ptr" and self._walks(i):
                bs = self.bases(i)
                c = self.capacity(next(iter(bs))) if len(bs) == 1 else None
                if c and c < (1 << 40):
                    best = c - 1 if best is None else min(best, c - 1)
        return best

    def _web(self, v):
        """the phis that hand their values on to v, constants apart"""
        web, work = [], [v]
        while work:
            x = work.pop()
            if x in web or len(web) > 12:
                continue
            web.append(x)
            for y, _ in x.incoming:
                for _ in range(12):
                    if isinstance(y, Inst) and (y.op in CASTS or y.op in ("add", "sub") and isinstance(y.ops[1], Const)):
                        y = y.ops[0]
                    else:
                        break
                if isinstance(y, Inst) and y.op == "phi":
                    work.append(y)
        return web

    def _join(self, ds, fss=None):
        if not ds:
            return {}
        fss = fss or [()] * len(ds)
        keys = set(b for d in ds for b in d)
        out = {}
        for b in keys:
            # sizes and lengths are not negative, so a constant bound is also one relative to any of them
            ks = [d[b] if b in d else d[None] - (self.least(fs, b) if b is not None else 0) if None in d else None for d, fs in zip(ds, fss)]
            if None not in ks:
                out[b] = max(ks)
        return out

    READS = {"read": 2, "readlink": 2, "pread": 2, "recv": 2, "write": 2, "fread": None, "readlinkat": 3, "fwrite": None}

    def _call(self, v, block, busy, depth, extra):
        if not isinstance(v.callee, Function):
            return {}
        n = v.callee.name
        if n in self.READS:
            if n in ("fread", "fwrite"):
                return self.ub(v.ops[2], block, busy, depth, extra)
            return self.ub(v.ops[self.READS[n]], block, busy, depth, extra)
        if n == "strnlen":
            return self.ub(v.ops[1], block, busy, depth, extra)
        if n in ("strlen", "strcspn", "strspn"):
            c = self.cap_of_text(v.ops[0])
            return {None: c - 1} if c else {}
        if v.callee.decl:
            return {}
        s = self.ret_ub(v.callee)
        out = {}
        for b, k in s.items():
            if b is None:
                out = tight(out, {None: k})
            elif b[0] == "arg" and b[1] == v.callee.name and b[2] < len(v.ops):
                out = tight(out, shift(self.ub(v.ops[b[2]], block, busy, depth, extra), k))
        return out

    def ret_ub(self, fn):
        r = self._ret.get(fn.name)
        if r is not None:
            return r
        self._ret[fn.name] = {}
        ds = []
        if fn.ret_ty.kind == "int":
            for i in fn.insts():
                if i.op == "ret" and i.ops:
                    ds.append(self.ub(i.ops[0], i.block))
        r = {b: k for b, k in self._join(ds).items() if b is None or b[0] == "arg"} if ds else {}
        self._ret[fn.name] = r
        return r

    def _ptrdiff(self, v, block, busy, depth):
        a, b = v.ops
        if not (isinstance(a, Inst) and a.op == "ptrtoint" and isinstance(b, Inst) and b.op == "ptrtoint"):
            return {}
        return self._diff(a.ops[0], b.ops[0])

    def _diff(self, a, b):
        """the distance of two pointers into one object is less than its size"""
        if a is None or b is None:
            return {}
        ra, rb = self.bases(a), self.bases(b)
        if len(ra) == 1 and ra == rb:
            c = self.capacity(next(iter(ra)))
            if c and c < 1 << 40:
                return {None: c - 1}
        return {}

    # ---- sums
    def terms(self, v):
        """a sum as ({key: factor}, constant)"""
        if isinstance(v, Const):
            return {}, (v.v if v.kind == "int" else 0)
        if isinstance(v, Inst):
            if v.op in ("zext", "sext", "trunc", "freeze"):
                return self.terms(v.ops[0])
            if v.op in ("add", "sub") and not (isinstance(v.ops[0], Inst) and v.ops[0].op == "ptrtoint"):
                x, c = self.terms(v.ops[0])
                y, d = self.terms(v.ops[1])
                return self.plus(x, y, 1 if v.op == "add" else -1), c + d * (1 if v.op == "add" else -1)
        return {self.key(v): 1}, 0

    def plus(self, x, y, s=1):
        x = dict(x)
        for k, f in y.items():
            x[k] = x.get(k, 0) + s * f
        return {k: f for k, f in x.items() if f}

    def most(self, t, c, block, depth=0):
        """the least constant upper bound found for a sum, or None"""
        best = c
        for k, f in t.items():
            if f > 0:
                u = self._ub(k, block, frozenset(), 0).get(None)
                best = None if best is None or u is None else best + f * u
        if depth < 3 and len(t) > 1:
            for k, f in t.items():
                if f <= 0:
                    continue
                for kb, kk in self._ub(k, block, frozenset(), 0).items():
                    if kb is None or kb == k:
                        continue
                    v = self.rep.get(kb)
                    y, d = self.terms(v) if isinstance(v, Inst) else ({kb: 1}, 0)
                    r = dict(t)
                    del r[k]
                    z = self.most(self.plus(r, y, f), c + f * (kk + d), block, depth + 1)
                    if z is not None and (best is None or z < best):
                        best = z
        return best

    # ---- objects
    def bases(self, p, seen=None):
        """the objects a pointer may point into, as far as they are visible in the function"""
        seen = seen if seen is not None else set()
        if isinstance(p, (CGep, GVar)):
            return {p.base if isinstance(p, CGep) else p}
        if isinstance(p, Arg):
            return {p}
        if isinstance(p, Const):
            return set()
        if not isinstance(p, Inst) or p in seen:
            return set()
        seen.add(p)
        if p.op == "gep":
            f = self.field(p)
            return {f} if f else self.bases(p.ops[0], seen)
        if p.op in ("bitcast", "freeze", "inttoptr"):
            return self.bases(p.ops[0], seen)
        if p.op == "phi":
            out = set()
            for x, _ in p.incoming:
                out |= self.bases(x, seen)
            return out
        if p.op == "select":
            return self.bases(p.ops[1], seen) | self.bases(p.ops[2], seen)
        if p.op == "call" and isinstance(p.callee, Function):
            n = p.callee.name
            if n in ("fgets", "strcpy", "strcat", "strncat", "strncpy", "getcwd", "strchr", "strrchr", "strstr", "memcpy", "realpath", "strpbrk",
                     "memchr", "basename", "dirname") and n != "realpath":
                return self.bases(p.ops[0], seen)
            if n == "realpath":
                return self.bases(p.ops[1], seen) or {p}
            if not p.callee.decl:
                a = self.returns(p.callee)
                if a is not None:
                    out = set()
                    for k in a:
                        if k < len(p.ops):
                            out |= self.bases(p.ops[k], seen)
                    return out
            return {p}
        return {p}

    def returns(self, fn):
        """the parameters a function's pointer result points into, or None if it may return something else"""
        k = ("ret", fn.name)
        if k in self._cap:
            return self._cap[k]
        self._cap[k] = None
        if fn.ret_ty.kind != "ptr":
            return None
        out = set()
        for i in fn.insts():
            if i.op == "ret" and i.ops:
                for b in self.bases(i.ops[0]):
                    if isinstance(b, Arg):
                        out.add(b.idx)
                    else:
                        return None
        self._cap[k] = out
        return out

    def field(self, g):
        """(struct, offset, size) when a gep addresses an array that is a member of a struct"""
        if not g.path:
            return None
        sn, off = g.path[-1]
        for t in self.m._types.values():
            if t.kind == "struct" and t.sname == sn and t.offs:
                for j, o in enumerate(t.offs):
                    if o == off and t.fields[j].kind == "array" and t.fields[j].n > 1:
                        return ("field", sn, off, t.fields[j].size)
        return None

    def capacity(self, o):
        """bytes of an object whose size is a constant, else None"""
        if isinstance(o, tuple) and o and o[0] == "field":
            return o[3]
        if isinstance(o, GVar):
            return o.size or None
        if isinstance(o, Inst) and o.op == "alloca":
            return o.size
        if isinstance(o, Inst) and o.op == "call" and isinstance(o.callee, Function):
            n = self.model.base(o.callee.name)
            if n in ("xmalloc", "malloc", "alloca") and isinstance(o.ops[0], Const):
                return o.ops[0].v
            if n in ("pool_alloc", "pool_calloc") and len(o.ops) > 1 and isinstance(o.ops[1], Const):
                return o.ops[1].v
            if n in ("xcalloc", "calloc") and isinstance(o.ops[0], Const) and isinstance(o.ops[1], Const):
                return o.ops[0].v * o.ops[1].v
            return None
        if isinstance(o, Arg):
            return self.arg_cap(o)
        return None

    def arg_cap(self, a):
        """the least capacity of what a parameter is given, over every call that gives an object of known size"""
        fn = a.fn if isinstance(a.fn, str) else a.fn.name
        k = ("cap", fn, a.idx)
        if k in self._cap:
            return self._cap[k]
        self._cap[k] = None
        if fn in self.m.address_taken:
            return None
        best, unknown = None, False
        for c in self.callers_.get(fn, []):
            if a.idx >= len(c.ops):
                return None
            x = c.ops[a.idx]
            if isinstance(x, Const):
                continue
            for b in self.bases(x):
                if isinstance(b, Arg) and (b.fn if isinstance(b.fn, str) else b.fn.name) == fn and b.idx == a.idx:
                    continue
                n = self.capacity(b) if not (isinstance(b, GVar) and b.const) else None
                if n is None:
                    unknown = True
                else:
                    best = n if best is None else min(best, n)
        if best is None and not unknown:
            best = 1 << 40        # no call gives it anything
        self._cap[k] = best
        return best

    def cap_of_text(self, p):
        bs = self.bases(p)
        c = None
        for b in bs:
            if isinstance(b, Arg) and not self.written(b):
                return None
            n = self.capacity(b)
            if n is None or n >= 1 << 40:
                return None
            c = n if c is None else max(c, n)
        return c

    def written(self, a):
        """the function writes into what the parameter points to"""
        k = ("wr", a.fn if isinstance(a.fn, str) else a.fn.name, a.idx)
        if k not in self._cap:
            self._cap[k] = False
            fn = self.m.functions[k[1]]
            for i in fn.insts():
                p = None
                if i.op == "store":
                    p = i.ops[1]
                elif i.op == "call" and isinstance(i.callee, Function) and i.ops:
                    n = i.callee.name
                    if n.startswith(("llvm.mem", "memcpy", "memmove", "strcpy", "strcat", "strncat", "strncpy", "snprintf", "fgets", "getcwd")) or \
                            self.model.base(n) in ("utils_strncpy", "utils_strnncpy"):
                        p = i.ops[0]
                if isinstance(p, (Inst, Arg)) and a in self.bases(p):
                    self._cap[k] = True
                    break
        return self._cap[k]

    # ---- offset of a pointer inside an object
    def place(self, p, block, depth=0):
        """[(object, upper bounds of the byte offset or None if unknown)]"""
        if depth > 12:
            return []
        if isinstance(p, CGep):
            return [(p.base, {None: p.off})]
        if isinstance(p, (GVar, Arg)):
            return [(p, {None: 0})]
        if not isinstance(p, Inst):
            return []
        if p.op == "alloca":
            return [(p, {None: 0})]
        if p.op == "gep":
            f = self.field(p)
            d = {None: 0}
            c = p.off or 0
            if f:
                c -= sum(x[1] for x in p.path)
                base = [(f, {None: 0})]
            else:
                base = self.place(p.ops[0], block, depth + 1)
            out = []
            for o, bo in base:
                if bo is None:
                    out.append((o, None))
                    continue
                r = shift(bo, c)
                for x, s in p.var or []:
                    u = self.ub(x, block)
                    u = {b: k for b, k in u.items()} if s == 1 else {b: k * s for b, k in u.items() if b is None}
                    if set(r) == {None}:
                        r = shift(u, r[None])
                    elif None in u:
                        r = shift(r, u[None])
                    else:
                        r = {}
                out.append((o, r))
            return out
        if p.op in ("bitcast", "freeze"):
            return self.place(p.ops[0], block, depth + 1)
        if p.op == "select":
            return self.place(p.ops[1], block, depth + 1) + self.place(p.ops[2], block, depth + 1)
        if p.op == "phi":
            out = []
            walk = self._walks(p)
            for x, b in p.incoming:
                for o, r in self.place(x, b, depth + 4) if not walk else [(o, None) for o in self.bases(x)]:
                    if (o, r) not in out:
                        out.append((o, r))
            return out
        if p.op == "call":
            bs = self.bases(p)
            if bs == {p}:
                return [(p, {None: 0})]
            n = p.callee.name if isinstance(p.callee, Function) else ""
            if n in ("fgets", "strcpy", "strcat", "strncat", "strncpy", "getcwd", "realpath") and p.ops:
                return self.place(p.ops[1 if n == "realpath" else 0], block, depth + 1)
            return [(o, None) for o in bs]
        return []

    def _walks(self, p):
        """the phi moves along an object (depends on itself)"""
        seen, work = set(), [x for x, _ in p.incoming]
        while work:
            x = work.pop()
            if x is p:
                return True
            if isinstance(x, Inst) and x not in seen:
                seen.add(x)
                if x.op in ("gep", "bitcast"):
                    work.append(x.ops[0])
                elif x.op == "phi":
                    work += [y for y, _ in x.incoming]
                elif x.op == "select":
                    work += x.ops[1:3]
        return False

    # ---- is a value compared with anything at all?
    def guarded(self, v, fn, depth=0):
        """some comparison of magnitude in the function mentions the value or what it is computed from"""
        sl, work = set(), [v]
        while work:
            x = work.pop()
            k, _ = self.lin(x)
            if k is None or k in sl or len(sl) > 60:
                continue
            sl.add(k)
            r = self.rep.get(k)
            if isinstance(r, Inst):
                if r.op in ("add", "sub", "mul", "select", "and", "udiv", "lshr"):
                    work += [o for o in r.ops if isinstance(o, (Inst, Arg))]
                elif r.op == "phi":
                    work += [o for o, _ in r.incoming if isinstance(o, (Inst, Arg))]
                elif r.op == "load":
                    sl.add(("mem", self.key(r.ops[0])))
        for i in fn.insts():
            if i.op == "icmp" and i.pred not in ("eq", "ne"):
                for o in i.ops:
                    k, _ = self.lin(o)
                    if k is None:
                        continue
                    if k in sl:
                        other = i.ops[1] if o is i.ops[0] else i.ops[0]
                        if isinstance(other, Const) and other.kind == "int" and other.v in (0, -1, 1):
                            continue
                        return True
                    r = self.rep.get(k)
                    if isinstance(r, Inst) and r.op == "load" and ("mem", self.key(r.ops[0])) in sl:
                        other = i.ops[1] if o is i.ops[0] else i.ops[0]
                        if isinstance(other, Const) and other.kind == "int" and other.v in (0, -1, 1):
                            continue
                        return True
            elif i.op == "call" and isinstance(i.callee, Function) and not i.callee.decl and i.callee.ret_ty.kind == "int":
                for o in i.ops:
                    if isinstance(o, (Inst, Arg)) and getattr(o, "ty", None) is not None and o.ty.kind == "int" and self.lin(o)[0] in sl:
                        return True
        return False
