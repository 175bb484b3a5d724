"""Phase drivers: abstract trees whose rule actions are stand-ins with a given list of calls, played through the real node_* drivers."""
import glob, os, re
from .ruleset import *
from .absint import Frame
from .build import AnalysisBroken, REPO

PHASES = ("init", "setup", "build", "post_build")
FLAG = {"init": 2, "setup": 4, "build": 0x10, "post_build": 0x20}


def enum(name):
    """value of an enumeration constant"""
    for h in sorted(glob.glob(os.path.join(REPO, "*.h"))):
        for m in re.finditer(r"enum\b[^{;]*\{([^}]*)\}", re.sub(r"/\*.*?\*/|//[^\n]*", "", open(h).read(), flags=re.S)):
            v = -1
            for it in m.group(1).split(","):
                mm = re.match(r"\s*(\w+)\s*(?:=\s*(-?\w+))?\s*$", it)
                if not mm:
                    continue
                try:
                    v = int(mm.group(2), 0) if mm.group(2) else v + 1
                except ValueError:
                    break
                if mm.group(1) == name:
                    return v
    return None


class Tree(Scen):
    """`progs`: (phase, node id) -> list of (function, [args]) the action calls; actions are events ("cb", phase, node, cwd, units) .. ("end", ...)"""
    max_states = 10 ** 9
    max_steps = 500000
    rec_limit = 8
    watch = ()
    max_actions = 40

    def __init__(self, ctx, **kw):
        self.inl = INL | {"node_init", "node_setup", "node_build", "node_post_build", "node_value", "node_reset", "script_build"}
        super().__init__(ctx, **kw)
        self.handlers = {k: v for k, v in self.handlers.items() if k not in self.inl}
        self.progs = {}

    # trees are constant: states are neither merged nor compared
    serial = 0

    def hash_state(self, st):
        self.serial += 1
        return self.serial

    def gc(self, st):
        if self.serial % 200 == 0:
            super().gc(st)

    def act(self, node, *phases, **progs):
        for ph in phases:
            node.cells[ph] = ("fn", "sa.cb.%s.%s" % (ph, "%d" % id(node)))
            self.byid["%d" % id(node)] = node
        for ph, p in progs.items():
            node.cells[ph] = ("fn", "sa.cb.%s.%s" % (ph, "%d" % id(node)))
            self.byid["%d" % id(node)] = node
            self.progs[(ph, "%d" % id(node))] = p
    byid = {}

    def on_call(self, st, inst, name, args):
        if name.startswith("sa.cb."):
            return self.step(st, inst, name, args)
        return super().on_call(st, inst, name, args)

    def invoke(self, st, inst, fname, args):
        """run a function as if called by the stand-in; the call instruction is then executed again"""
        fn = self.m.functions.get(fname)
        if fn is None or fn.decl:
            raise AnalysisBroken("function %s not found" % fname)
        for b in inst.fn.blocks:
            if inst in b.insts:
                idx = b.insts.index(inst)
                break
        ctx = st.ctx + (inst.uid,)
        nf = Frame(fn, (), {}, (inst, b, idx - 1), ctx)
        for a in fn.args:
            nf.env[a] = args[a.idx] if a.idx < len(args) else TOP
        st.frames = st.frames + [nf]
        for k in list(st.mem):
            if k[0][0] == "al" and k[0][1] == ctx or (k[0] == "zero" and k[1][0] == "al" and k[1][1] == ctx):
                del st.mem[k]
                st.fields.pop(k, None)
        self.on_enter(st, fn, args)
        self.push(st, fn.blocks[0], None)
        return []

    def step(self, st, inst, name, args):
        _, _, ph, nid = name.split(".")
        node = self.byid[nid]
        key = (("C", "step", name, st.ctx), 0)
        v = st.mem.get(key)
        k = v[1] if v else 0
        if k == 0:
            self.ev(st, "cb", ph, node.ptr, self.cwd(st), tuple(self.units(st)))
            if sum(e[0] == "cb" for e in st.q) > self.max_actions:
                self.stops.append((st.copy_full(), "endless", args, inst))
                return []
        prog = self.progs.get((ph, nid), [])
        if k < len(prog):
            st.mem[key] = ("i", k + 1)
            f, a = prog[k]
            if f == "switch":
                self.ev(st, "cd", a)
                st.mem[(("C", "cwd"), 0)] = self.const(a)
                return self.step(st, inst, name, args)
            a = [x.ptr if isinstance(x, N) else x for x in a]
            if f in self.inl:
                return self.invoke(st, inst, f, a)
            raise AnalysisBroken("cannot invoke " + f)
        st.mem.pop(key, None)
        self.ev(st, "end", ph, node.ptr, self.cwd(st), tuple(self.units(st)))
        return [(TOP if inst.ty.kind == "void" else self.result(st, ph, node), st)]

    def result(self, st, ph, node):
        return T("got", node.id)

    def default_call(self, st, i, name, args):
        if self.model.base(name) in self.inl or name in self.inl:
            self.stops.append((st.copy_full(), "endless", args, i))
            return None
        return super().default_call(st, i, name, args)


def play_tree(ctx, e, root, calls):
    """calls: list of (function, node)"""
    st = e.state()
    e.plant(st, root)
    e.genv(st, "max_parallel_jobs", ("i", 2))
    sts = [st]
    for f, n in calls:
        sts = e.chain(sts, f, [n.ptr])
    return sts
