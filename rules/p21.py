"""P21: allocation failure.  Every function that calls an allocator of the C library is explored with the allocation
failing at that call: the null result may only be tested; it must not be dereferenced, stored, handed to another function
or returned, and the process must end with a message.  (Callers of the program's own allocation wrappers are covered by
this: the wrappers are shown never to return null.)"""
from sa.lib import *

TECHNIQUE = "path-sensitive null-flow analysis of LLVM IR with fault injection at every allocator call site"
LEVEL_NOTE = "All paths after each failing allocator call. A resize that keeps the old block on failure is accepted when only bookkeeping is skipped."

ALLOC = {"malloc", "calloc", "realloc", "reallocarray", "strdup", "strndup", "aligned_alloc", "posix_memalign", "memalign", "valloc"}
TOLERANT = {"free", "realloc"}


class NullFlow(Rule):
    """q: None | ('failed', site uid)"""
    max_states = 40
    max_steps = 300000

    def inline(self, fn, inst, st):
        return st.q is not None and self.model.should_inline(fn)

    def h_alloc(self, st, inst, args):
        if st.q is not None or inst is not self.site:
            self.opaque_effects(st, inst, None, args)
            o = ("h", st.ctx, inst.fn.name, inst.uid)
            return [(("p", o, 0), st)]
        self.hits += 1
        s = st.copy()
        st.q = ("failed", inst.uid)
        st.facts["NULLP"] = (0, 0, frozenset())
        return [(S("NULLP"), st), (("p", ("h", st.ctx, inst.fn.name, inst.uid), 0), s)]

    def q_syms(self, q):
        return frozenset(["NULLP"])

    def is_null(self, v):
        return v == S("NULLP") or (v[0] == "p" and v[1] == ("o", "NULLP"))

    def on_load(self, st, inst, ptr, val, field):
        if self.is_null(ptr):
            self.report("use", self.root, "the result of a failed allocation is dereferenced", st, inst)
        return None

    def on_store(self, st, inst, ptr, val, field):
        if self.is_null(ptr):
            self.report("use", self.root, "the result of a failed allocation is written through", st, inst)
        if self.is_null(val):
            self.report("use", self.root, "the result of a failed allocation is stored before it is known to be non-null", st, inst)

    def on_call(self, st, inst, name, args):
        if name in ALLOC:
            if name == "realloc" and st.q is not None:
                return [(("p", ("h", st.ctx, inst.fn.name, inst.uid), 0), st)]
            return self.h_alloc(st, inst, args)
        if any(self.is_null(a) for a in args):
            f = self.m.functions.get(name)
            if name in TOLERANT:
                return [(TOP, st)]
            if f is None or f.decl or not self.model.should_inline(f):
                self.report("use", self.root, "the result of a failed allocation is handed to %s" % name, st, inst)
        return None

    def on_icall(self, st, inst, field, args):
        if any(self.is_null(a) for a in args):
            self.report("use", self.root, "the result of a failed allocation is handed to a callback", st, inst)
        return None

    def on_stop(self, st, inst, name, args):
        if st.q is None:
            return
        self.ends += 1
        f = self.m.functions.get(name)
        if name == "akfatal2" and args and args[0] == NULL:
            self.report("ends", self.root, "the process ends without a message", st, inst)

    def on_return(self, st, inst, val):
        if st.q is None:
            return
        self.rets += 1
        fn = inst.fn
        if self.is_null(val) or (fn.ret_ty.kind == "ptr" and self.nonzero(st, val) is False):
            self.report("use", self.root, "null is returned to the caller when an allocation fails", st, inst)
        elif not self.tolerated:
            self.report("ends", self.root, "the function carries on when an allocation fails", st, inst)


def skipped_only_bookkeeping(site):
    """realloc: everything that only happens when it succeeded is bookkeeping of the new block"""
    f = site.fn
    tests = [i for i in f.insts() if i.op == "icmp" and site in i.ops]
    if not tests:
        return False
    for t in tests:
        for br in f.insts():
            if br.op != "br" or not br.ops or br.ops[0] is not t:
                continue
            yes, no = (br.succs[0], br.succs[1]) if t.pred == "ne" else (br.succs[1], br.succs[0])

            def reach(b):
                seen, w = set(), [b]
                while w:
                    x = w.pop()
                    if x not in seen:
                        seen.add(x)
                        w.extend(x.succs)
                return seen
            for b in reach(yes) - reach(no):
                for i in b.insts:
                    if i.op == "call" and not (isinstance(i.callee, Function) and i.callee.name.startswith("llvm.memset")):
                        return False
    return True


def run(ctx):
    ctx.rule("use", "the result of an allocator is only tested until it is known to be non-null")
    ctx.rule("ends", "when an allocation fails the process ends with a message")
    sites = [i for n in sorted(ALLOC) for i in ctx.model.direct_calls(n)]
    ctx.require(len(sites), 5, "allocator calls")
    taken = [n for n in ALLOC if n in ctx.m.address_taken]
    ctx.ob("use", "allocators by pointer", not taken, "allocators called through a pointer: " + ", ".join(taken) if taken else "")
    for s in sites:
        e = NullFlow(ctx)
        e.site, e.hits, e.ends, e.rets = s, 0, 0, 0
        e.root = ctx.model.base(s.fn.name)
        e.tolerated = s.callee.name in ("realloc", "reallocarray") and skipped_only_bookkeeping(s)
        e.run(s.fn, None, q=None)
        if not e.hits:
            ctx.ob("use", "%s %s" % (e.root, s.callee.name), True, "unreachable", s.loc())
            continue
        finish(ctx, e, "use", "%s %s" % (e.root, s.callee.name), s.fn, "%d ends, %d returns" % (e.ends, e.rets))
        if not e.bad:
            ctx.ob("ends", "%s %s" % (e.root, s.callee.name), True, "", s.loc())
