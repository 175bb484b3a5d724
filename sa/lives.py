"""Life cycles of the containers, at the level of malloc and free: from creation through sequences of operations to the end."""
from .own import *

A, B = S("a"), S("b")
STR = S("text")


class Kind:
    """one container: how it is created, what may be done with it, how it ends"""

    def __init__(self, name, files, family, create, ops, ends, depth=2, exact=False):
        self.exact = exact
        self.name, self.files, self.family, self.create, self.ops, self.ends, self.depth = name, files, family, create, ops, ends, depth


def C(n):
    return ("i", n)


SELF = ("self",)
KINDS = [
    Kind("xstr", ("xstr.c",), ("xstr",), [("xstr_create", (S("n"),)), ("xstr_create_empty", ())], [
        ("xstr_cat", (SELF, STR)), ("xstr_cat2", (SELF, STR, S("n"))), ("xstr_printf", (SELF, STR)),
        ("xstr_insert", (SELF, S("pos"), STR)), ("xstr_unshift", (SELF, STR, S("n"))), ("xstr_cat_repeat", (SELF, S("ch"), S("n"))),
        ("xstr_shift", (SELF, S("n"))), ("xstr_pop", (SELF, S("n"))), ("xstr_clear", (SELF,)), ("xstr_ptr", (SELF,)), ("xstr_size", (SELF,))],
        [[("xstr_destroy", (SELF,))], [("xstr_destroy_keep_ptr", (SELF,)), ("free", "value")]]),
    Kind("ulist", ("ulist.c",), ("list",), [("ulist_init", (SELF, S("n"), S("unit"))), ("ulist_create", (S("n"), S("unit")))], [
        ("ulist_push", (SELF, A)), ("ulist_insert", (SELF, S("i"), A)), ("ulist_unshift", (SELF, A)), ("ulist_remove", (SELF, S("i"))),
        ("ulist_remove_by", (SELF, A)), ("ulist_pop", (SELF,)), ("ulist_shift", (SELF,)), ("ulist_clear", (SELF,)), ("ulist_reset", (SELF,)),
        ("ulist_set", (SELF, S("i"), A)), ("ulist_get", (SELF, S("i"))), ("ulist_find", (SELF, A)), ("ulist_to_vlist", (SELF,), "heap"),
        ("ulist_clone", (SELF,), "ulist")], [[("ulist_destroy_keep", (SELF,))], [("ulist_destroy", ("&self",))]]),
    Kind("pool", ("pool.c",), ("pool",), [("pool_create", (NULL,)), ("pool_create_empty", ()), ("pool_create_preallocated", (S("n"),))], [
        ("pool_alloc", (SELF, S("n"))), ("pool_calloc", (SELF, S("n"))), ("pool_strdup", (SELF, STR)), ("pool_strndup", (SELF, STR, S("n"))),
        ("pool_printf", (SELF, STR))], [[("pool_destroy", (SELF,))]]),
    Kind("map", ("map.c",), ("map",), [("map_create_str", (("fn", "map_kv_free"),)), ("map_create_str", (("fn", "map_k_free"),))], [
        ("map_put_str", (SELF, A, B)), ("map_get", (SELF, A)), ("map_remove", (SELF, A)), ("map_count", (SELF,))],
        [[("map_destroy", (SELF,))]], 2, True),
    Kind("spawn", ("spawn.c",), ("spawn",), [("spawn_create", (STR, S("data")))], [
        ("spawn_arg_add", (SELF, A)), ("spawn_env_set", (SELF, A, B)), ("spawn_env_path_prepend", (SELF, A)), ("spawn_arg_exists", (SELF, A)),
        ("spawn_arg_starts_with", (SELF, A))], [[("spawn_destroy", (SELF,))]]),
    Kind("deps", ("deps.c",), ("deps",), [("deps_open", (STR, S("mode"), SELF))], [
        ("deps_cur_next", (SELF,)), ("deps_add", (SELF, S("type"), S("flags"), A, S("serial"))), ("deps_add_alias", (SELF, S("flags"), A, B)),
        ("deps_add_env", (SELF, S("flags"), A, B))], [[("deps_close", (SELF,))]]),
]




class Container(Life):
    def __init__(self, ctx, k, summ=None):
        self.inside, self.files = k.family, k.files
        super().__init__(ctx, summ)
        self.kind = k
        self.root = k.name
        self.n_seq = 0
        self.ops_run = set()
        self.ordered, self.max_states, self.max_shapes, self.max_steps = True, 6, 6, 400000
        self.limit = 12
        if k.exact:
            self.h["__same_hash"] = lambda e, st, inst, args: [(C(0), st)]
            self.ordered, self.max_states, self.max_shapes = False, 400, 400

    def allocator(self, name):
        fn = self.m.functions.get(name)
        if fn is not None and not fn.decl and fn.file and os.path.basename(fn.file) in self.files:
            return False
        return super().allocator(name)

    pinned = ((('g', '__self'), 0),)


def life(ctx, k, first=None, summ=None, depth=None):
    """every sequence create, up to k.depth operations, end"""
    e = Container(ctx, k, summ)
    SUB = ("h", "SUBJECT")
    for cname, cargs in k.create:
        embedded = SELF in cargs
        s0 = State()
        s0.q = frozenset()
        if embedded:
            s0.mem[("zero", SUB)] = C(1)
        for nm in ("a", "b", "text"):
            s0.facts[nm] = (1, None, frozenset())

        def real(args, me):
            return [me if a == SELF else S("b%d" % len(e.ctx0 and range(e.ctx0[0]))) if a == B else a for a in args]
        if cname not in ctx.m.functions or ctx.m.functions[cname].decl:
            continue
        me = {"v": ("p", SUB, 0)}

        def pick(v, s):
            if embedded:
                if k.name == "deps" and not (v == NULL or e.nonzero(s, v) is False):
                    f = e.get_cell(s, me["v"], "deps", "file")
                    # a failed open leaves nothing behind
                    e.end([s], "%s failed" % cname)
                    return None
                s.mem[(("g", "__self"), 0)] = me["v"]
                return s
            if e.nonzero(s, v) is False or v[0] != "p":
                e.end([s], "%s failed" % cname)
                return None
            s.mem[(("g", "__self"), 0)] = v
            if k.exact:
                # every key has the same hash: all entries are in one bucket and each of them is followed exactly
                for c, x in list(s.mem.items()):
                    if x[0] == "fn" and x[1] in ctx.m.functions and len(ctx.m.functions[x[1]].args) == 1 and not ctx.m.functions[x[1]].decl:
                        s.mem[c] = ("fn", "__same_hash")
            return s
        e.root, e.ctx0 = "%s: %s" % (k.name, cname), ()
        states = e.step([s0], cname, real(cargs, me["v"]), pick)

        def self_of(s):
            return s.mem[(("g", "__self"), 0)]

        def do(states, op, label, depth=0):
            name, args = op[0], op[1]
            res = op[2] if len(op) > 2 else None
            e.root = label
            e.steps = 0
            vals = []

            def p(v, s):
                if res:
                    ob = e.obj_of(v)
                    x = e.find(s, ob[0]) if ob else None
                    if x and x[2] == "live":
                        if res == "ulist":
                            arr = e.get_cell(s, v, "ulist", "array")
                            ao = e.obj_of(arr) if arr else None
                            if ao and ao != e.obj_of(e.get_cell(s, self_of(s), "ulist", "array") or NULL):
                                e.drop(s, ao[0])
                        e.drop(s, ob[0])
                return s
            e.ctx0 = (depth,)
            if name not in ctx.m.functions or ctx.m.functions[name].decl:
                return states
            e.ops_run.add(name)
            return e.step(states, name, lambda s: real(args, self_of(s)), p)

        def finish(states, label):
            for end in k.ends:
                name, args = end[0]
                if args == ("&self",) and embedded or (args != ("&self",) and k.name == "ulist" and not embedded):
                    continue
                e.root = label + ", " + name
                e.steps = 0
                if args == ("&self",):
                    def a(s):
                        s.mem[(("h", "SLOT"), 0)] = self_of(s)
                        return [("p", ("h", "SLOT"), 0)]
                else:
                    def a(s, args=args):
                        return real(args, self_of(s))

                def p(v, s):
                    if len(end) > 1:
                        ob = e.obj_of(v)
                        x = e.find(s, ob[0]) if ob else None
                        if x and x[2] == "rel":
                            e.report("use", e.root, "the result of %s was released" % name, s)
                        if x and x[2] in ("live", "held"):
                            e.drop(s, ob[0])
                    return s
                res = e.step(list(states), name, a, p)
                for s in res:
                    s.mem.pop((("g", "__self"), 0), None)
                e.n_seq += len(res)
                e.end(res, e.root)
        e.ctx0 = (9,)
        finish(states, "%s: %s" % (k.name, cname))

        def deeper(states, label, left, ops):
            for op in ops:
                l = "%s, %s" % (label, op[0])
                s1 = do(list(states), op, l, left)
                if not s1:
                    continue
                e.ctx0 = (9,)
                finish(s1, l)
                if left > 1:
                    deeper(s1, l, left - 1, k.ops)
        deeper(states, "%s: %s" % (k.name, cname), depth or k.depth, [op for op in k.ops if first is None or op[0] == first])
    return e


def everything(ctx, depth=None):
    """all obligations of ownership: functions alone, nodes through their callbacks, containers through their operations.
    [(subject kind, subject, undecided, [bad...], counts)]"""
    from . import par
    out, summ = survey(ctx)
    closed = survey.closed
    res = []
    for n, e in sorted(out.items()):
        res.append(("function", n, bool(e.over), list(e.bad), {"paths": e.rets, "sites": sorted("%s %s" % a for a in e.acquired)}))
    jobs = [("node", f) for f in sorted(ctx.m.functions) if f.startswith("node_") and f.endswith("_setup") and
            not ctx.m.functions[f].decl and len(ctx.m.functions[f].args) == 1 and f != "node_setup" and not f.startswith("node_setup")]
    jobs += [(k.name, op[0]) for k in KINDS for op in (k.ops[:1] if k.exact else k.ops) if op[0] in ctx.m.functions and not ctx.m.functions[op[0]].decl]
    kinds = {k.name: k for k in KINDS}

    def run(job):
        try:
            if job[0] == "node":
                e = node_life(ctx, summ, closed, job[1])
                return ("node", job[1], False, list(e.bad), {"paths": e.ended, "sites": sorted("%s %s" % a for a in e.acquired)})
            e = life(ctx, kinds[job[0]], job[1], None, depth)
            return ("container", "%s (%s)" % job, False, list(e.bad), {"paths": e.n_seq, "sites": sorted("%s %s" % a for a in e.acquired)})
        except Limit:
            return ("node" if job[0] == "node" else "container", "%s %s" % job, True, [], {"paths": 0, "sites": []})
    return res + par.results(run, jobs)
