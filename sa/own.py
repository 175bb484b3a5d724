"""Ownership of what a function acquires: files, directories, descriptors, memory, strings, lists, maps, pools, processes.

The automaton state is the set of entries (R, kind, status, owner, field):
  live   acquired here, known only to this function        held    recorded in memory that outlives the function
  rel    released                                          ok/stale  storage inside a container, valid / moved or released
R is an object of the abstract memory, ("fd", symbol) for a descriptor, ("L", object, offset) for a container embedded in
another object (struct ulist, struct deps).  A resource whose whereabouts the analysis loses (stored at an unknown place,
given to a function that keeps it) is dropped from the set: nothing is claimed about it any more."""
import heapq, os
from .lib import *
from .absint import Limit

CONT = ("xstr", "list", "pool", "map", "spawn", "deps")
NAMES = {"heap": "memory", "file": "an open file", "fd": "an open descriptor", "dir": "an open directory", "xstr": "a dynamic string",
         "list": "the storage of a list", "pool": "a memory pool", "map": "a map", "spawn": "a process description",
         "deps": "an open record file", "script": "a script"}


def _acq(kind, null=False, zero=False):
    def h(self, st, inst, args):
        return self.acquire(st, inst, kind, null, zero)
    return h


def _rel(kind, k=0):
    def h(self, st, inst, args):
        self.release(st, inst, args[k], kind)
        return self.rc(st, inst)
    return h


def _h_realloc(null):
    def h(self, st, inst, args):
        outs = []
        if null:
            s2 = st.copy()
            outs.append((NULL, s2))
        R = self.obj_of(args[0])
        live = R and R[1] == 0 and self.find(st, R[0])
        gen = 1 - (R[0][4] if live and len(R[0]) > 4 and R[0][:4] == ("h", st.ctx, inst.fn.name, inst.uid) else 1)
        held = live and live[2] == "held"
        self.release(st, inst, args[0], "heap")
        outs += self.acquire(st, inst, "heap", gen=gen)
        if held:
            pass
        return outs
    return h


def _h_open(self, st, inst, args):
    f = st.copy()
    v = self.new_fd(st, inst, 0)
    return [(v, st), (("i", -1), f)]


def _h_pipe(self, st, inst, args):
    o = self.obj_of(args[0])
    f = st.copy()
    for k in (0, 1):
        v = self.new_fd(st, inst, k)
        if o and isinstance(o[1], int):
            st.mem[(o[0], o[1] + 4 * k)] = v
        else:
            self.drop(st, ("fd", v[1]))
    return [(NULL, st), (("i", -1), f)]


def _h_close(self, st, inst, args):
    v = args[0]
    if v[0] == "s":
        self.release_R(st, inst, ("fd", v[1]), "fd")
    return self.rc(st, inst)


def _h_fdopen(self, st, inst, args):
    v = args[0]
    f = st.copy()
    if v[0] == "s":
        self.drop(st, ("fd", v[1]))
    return self.acquire(st, inst, "file") + [(NULL, f)]


def _h_keep_ptr(self, st, inst, args):
    if self.nonzero(st, args[0]) is False:
        return [(NULL, st)]
    self.release(st, inst, args[0], "xstr")
    return self.acquire(st, inst, "heap")


def _h_ptr(self, st, inst, args):
    return self.derive(st, inst, args[0], "text")


def _h_elem(self, st, inst, args):
    return self.derive(st, inst, args[0], "elem")


def _h_list_init(self, st, inst, args):
    self.embed(st, inst, args[0], "list", fresh=True)
    return [(TOP, st)]


def _h_list_grow(self, st, inst, args):
    self.mutated(st, inst, args[0], args[1:])
    self.take_cells(st, args[1:])
    self.embed(st, inst, args[0], "list")
    _recount(self, st, inst, args[0], 1)
    return [(TOP, st)]


def _recount(self, st, inst, v, least):
    ob = self.obj_of(v)
    if ob and ob[0][0] in ("al", "h"):
        try:
            self.set_cell(st, v, "ulist", "num", self.fresh(st, inst, "num", least))
            self.set_cell(st, v, "ulist", "array", self.fresh(st, inst, "array", 1 if least else 0))
        except AnalysisBroken:
            pass


def _h_list_shrink(self, st, inst, args):
    self.mutated(st, inst, args[0], args[1:])
    _recount(self, st, inst, args[0], 0)
    return self.rc(st, inst)


def _h_list_destroy(self, st, inst, args):
    self.unembed(st, inst, args[0], "list")
    return [(TOP, st)]


def _h_deps_open(self, st, inst, args):
    f = st.copy()
    self.embed(st, inst, args[2], "deps", fresh=True)
    if self.obj_of(args[2]):
        _deps_file(self, st, args[2], ("p", ("h", "deps-file"), 0))
        _deps_file(self, f, args[2], NULL)
    return [(NULL, st), (self.fresh(f, inst, "fail", ne=frozenset([0])), f)]


def _deps_file(self, st, v, val):
    try:
        self.set_cell(st, v, "deps", "file", val)
    except AnalysisBroken:
        pass


def _h_deps_next(self, st, inst, args):
    R = self.ckey(args[0])
    x = R and self.find(st, ("L",) + R)
    outs = self.effects(st, inst, inst.callee.name, args)
    if not x:
        return outs
    res = []
    for v, s2 in outs:
        f = s2.copy()
        _deps_file(self, s2, args[0], ("p", ("h", "deps-file"), 0))
        _deps_file(self, f, args[0], NULL)
        if self.find(s2, x[0]) is None:
            self.put(s2, x[0], x[1], x[2])
        self.drop(f, x[0])
        res += [(v, s2), (("i", 1), f)]
    return res


def _h_deps_close(self, st, inst, args):
    self.unembed(st, inst, args[0], "deps")
    return self.rc(st, inst)


def _h_xgrow(self, st, inst, args):
    self.mutated(st, inst, args[0], args[1:])
    return self.rc(st, inst)


def _h_pool_alloc(self, st, inst, args):
    return self.derive(st, inst, args[0], "block", zero=self.name_of(inst).startswith("pool_calloc"))


def _h_map_put(self, st, inst, args):
    self.give(st, args[1:])
    return self.rc(st, inst)


def _h_realpath(self, st, inst, args):
    if self.nonzero(st, args[1]) is False:
        f = st.copy()
        return self.acquire(st, inst, "heap") + [(NULL, f)]
    f = st.copy()
    return [(args[1], st), (NULL, f)]


def _h_getcwd(self, st, inst, args):
    if self.nonzero(st, args[0]) is False:
        f = st.copy()
        return self.acquire(st, inst, "heap") + [(NULL, f)]
    return None


def _h_poll(self, st, inst, args):
    ob = self.obj_of(args[0])
    if ob:
        for k in list(st.mem):
            if k[0] == ob[0] and st.fields.get(k, "").endswith("revents"):
                del st.mem[k]
    return [(self.typed_fresh(st, inst), st)]


def _h_fgets(self, st, inst, args):
    f = st.copy()
    ob = self.obj_of(args[0])
    if ob and isinstance(ob[1], int) and args[1][0] == "i":
        for k in [k for k in st.mem if k[0] == ob[0] and (not isinstance(k[1], int) or ob[1] <= k[1] < ob[1] + args[1][1])]:
            del st.mem[k]
            st.fields.pop(k, None)
    elif ob:
        self.lost_inside(st, ob[0])
        self.clobber_obj(st, ob[0])
    return [(args[0], st), (NULL, f)]


def _h_inside(self, st, inst, args):
    """a position inside the text, or none"""
    ob = self.obj_of(args[0])
    if not ob or not self.find(st, ob[0]):
        return None
    return [(("p", ob[0], None), st), (NULL, st.copy())]


def _quiet(self, st, inst, args):
    return self.rc(st, inst)


def _h_fork(self, st, inst, args):
    c = st.copy()
    c.q = frozenset(x for x in c.q if x[1] != "fd")
    f = st.copy()
    return [(NULL, c), (("i", -1), f), (self.fresh(st, inst, 0, 1), st)]


LIBC = {
    "fopen": _acq("file", True), "tmpfile": _acq("file", True), "fdopen": _h_fdopen, "fclose": _rel("file"),
    "opendir": _acq("dir", True), "closedir": _rel("dir"), "open": _h_open, "creat": _h_open, "dup": _h_open, "mkstemp": _h_open,
    "open64": _h_open, "fopen64": _acq("file", True), "pipe": _h_pipe, "pipe2": _h_pipe, "close": _h_close,
    "malloc": _acq("heap", True), "calloc": _acq("heap", True, True), "strdup": _acq("heap", True), "strndup": _acq("heap", True),
    "realloc": _h_realloc(True), "xmalloc": _acq("heap"), "xcalloc": _acq("heap", False, True), "xstrdup": _acq("heap"),
    "xrealloc": _h_realloc(False), "free": _rel("heap"), "realpath": _h_realpath, "getcwd": _h_getcwd, "poll": _h_poll,
    "fork": _h_fork, "fgets": _h_fgets, "strchr": _h_inside, "strrchr": _h_inside, "strstr": _h_inside, "strpbrk": _h_inside,
    "memchr": _h_inside, "path_basename": _h_inside, "strchrnul": _h_inside, "popen": _acq("file", True), "pclose": _rel("file"), "fdopendir": _acq("dir", True),
}

API = {
    "xstr": {"xstr_create": _acq("xstr"), "xstr_create_empty": _acq("xstr"), "xstr_destroy": _rel("xstr"),
             "xstr_destroy_keep_ptr": _h_keep_ptr, "xstr_ptr": _h_ptr, "xstr_cat": _h_xgrow, "xstr_cat2": _h_xgrow,
             "xstr_printf": _h_xgrow, "xstr_printf_va": _h_xgrow, "xstr_cat_repeat": _h_xgrow, "xstr_insert": _h_xgrow,
             "xstr_unshift": _h_xgrow, "xstr_shift": _quiet, "xstr_pop": _quiet, "xstr_clear": None, "xstr_size": _quiet},
    "list": {"ulist_init": _h_list_init, "ulist_push": _h_list_grow, "ulist_insert": _h_list_grow, "ulist_unshift": _h_list_grow,
             "ulist_remove": _h_list_shrink, "ulist_remove_by": _h_list_shrink, "ulist_pop": _h_list_shrink,
             "ulist_shift": _h_list_shrink, "ulist_clear": _h_list_shrink, "ulist_destroy_keep": _h_list_destroy,
             "ulist_get": _h_elem, "ulist_peek": _h_elem, "ulist_reset": _quiet, "ulist_set": _quiet, "ulist_find": _quiet,
             "ulist_to_vlist": _acq("heap"), "ulist_create": _acq("ulist"), "ulist_clone": _acq("ulist")},
    "pool": {"pool_create": _acq("pool"), "pool_create_empty": _acq("pool"), "pool_create_preallocated": _acq("pool"),
             "pool_destroy": _rel("pool"), "pool_alloc": _h_pool_alloc, "pool_calloc": _h_pool_alloc, "pool_strdup": _h_pool_alloc,
             "pool_strndup": _h_pool_alloc, "pool_printf": _h_pool_alloc, "pool_printf_va": _h_pool_alloc,
             "pool_split_string": _h_pool_alloc},
    "map": {"map_create": _acq("map"), "map_create_str": _acq("map"), "map_create_u64": _acq("map"), "map_create_u32": _acq("map"),
            "map_destroy": _rel("map"), "map_put": _h_map_put, "map_put_str": _h_map_put, "map_put_str_no_copy": _h_map_put,
            "map_put_u32": _h_map_put, "map_put_u64": _h_map_put, "map_get": _quiet, "map_remove": _quiet, "map_count": _quiet,
            "map_iter_init": _quiet},
    "spawn": {"spawn_create": _acq("spawn"), "spawn_destroy": _rel("spawn"), "spawn_arg_add": _quiet, "spawn_env_set": _quiet,
              "spawn_env_path_prepend": _quiet, "spawn_set_wstatus": _quiet, "spawn_exit_code": _quiet, "spawn_do": None},
    "deps": {"deps_open": _h_deps_open, "deps_close": _h_deps_close, "deps_cur_next": _h_deps_next},
}

GROW = {"xstr": ("xstr_cat", "xstr_cat2", "xstr_printf", "xstr_printf_va", "xstr_cat_repeat", "xstr_insert", "xstr_unshift"),
        "list": ("ulist_push", "ulist_insert", "ulist_unshift", "ulist_remove", "ulist_remove_by", "ulist_pop", "ulist_shift",
                 "ulist_clear", "ulist_destroy_keep")}


class Queue:
    """work in control-flow order; states that wait at the same place with the same entries are joined"""

    def __init__(self, e):
        self.e, self.heap, self.wait, self.n, self.rpo = e, [], {}, 0, {}

    def __len__(self):
        return len(self.heap)

    def order(self, b):
        r = self.rpo.get(b.fn.name)
        if r is None:
            seen, out, stack = {b.fn.blocks[0].id}, [], [(b.fn.blocks[0], iter(b.fn.blocks[0].succs))]
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y.id not in seen:
                        seen.add(y.id)
                        stack.append((y, iter(y.succs)))
                        break
                else:
                    stack.pop()
                    out.append(x.id)
            r = self.rpo[b.fn.name] = {k: i for i, k in enumerate(reversed(out))}
        return r.get(b.id, 0)

    def append(self, item):
        st, b, idx = item
        key = tuple((self.order(f.call[1]), f.call[2]) for f in st.frames[1:]) + ((self.order(b), idx),)
        self.n += 1
        if idx == 0 and len(b.preds) > 1:
            k = (st.ctx, b.fn.name, b.id, st.q)
            old = self.wait.get(k)
            if old is not None:
                j, _ = self.e.join(old[0], st, b, 5)
                if j.q == st.q:
                    old[0] = j
                    return
            cell = [st]
            self.wait[k] = cell
            heapq.heappush(self.heap, (key, self.n, cell, k, b, idx))
            return
        heapq.heappush(self.heap, (key, self.n, [st], None, b, idx))

    def pop(self):
        _, _, cell, k, b, idx = heapq.heappop(self.heap)
        if k is not None and self.wait.get(k) is cell:
            del self.wait[k]
        return cell[0], b, idx


class Own(Rule):
    max_steps = 600000
    max_states = 24
    max_shapes = 40
    inside = ()            # container families analysed down to malloc and free
    alone = True           # a single function (not a life cycle)

    def __init__(self, ctx, summ=None, **kw):
        super().__init__(ctx, **kw)
        self.h = dict(LIBC)
        for k, t in API.items():
            if k not in self.inside:
                self.h.update(t)
        self.summ = summ or {}
        self.sites = {}
        self.acquired = set()
        self.out = set()
        self.frees_arg = set()
        self.rets = 0
        self.finals = []
        self.closings = []
        self.ret_other = False
        self.touches = False    # releases or keeps what belongs to the caller

    # ---- entries -------------------------------------------------------------------------------------------
    ordered = False

    def on_enter(self, st, fn, args):
        if self.ordered and len(st.frames) == 1:
            self.work = Queue(self)

    def find(self, st, R):
        for x in st.q:
            if x[0] == R:
                return x
        return None

    def put(self, st, R, kind, status, owner=None, field=None):
        st.q = frozenset(x for x in st.q if x[0] != R) | {(R, kind, status, owner, field)}

    def drop(self, st, R):
        st.q = frozenset(x for x in st.q if x[0] != R)

    def name_of(self, inst):
        return self.model.base(inst.callee.name) if isinstance(inst.callee, Function) else ""

    def where(self, R):
        s = self.sites.get(R)
        return "%s at %s" % (s[0], s[1]) if s else ""

    def rc(self, st, inst):
        return [(TOP if inst.ty.kind == "void" else self.typed_fresh(st, inst), st)]

    def refs(self, st, R, skip=None):
        """cells (or 'env') that hold R"""
        out = []
        for f in st.frames:
            for k, v in f.env.items():
                if self.points(v, R):
                    out.append("env")
        for k, v in st.mem.items():
            if k != skip and self.points(v, R):
                out.append(k)
        return out

    def points(self, v, R):
        if R[0] == "fd":
            return v == ("s", R[1])
        if R[0] == "L":
            return False
        if v[0] == "S":
            return any(isinstance(x, tuple) and self.points(x, R) for x in v[1:])
        ob = self.obj_of(v)
        return bool(ob) and ob[0] == R

    def local(self, st, obj):
        return obj[0] == "al"

    def acquire(self, st, inst, kind, null=False, zero=False, gen=0):
        obj = ("h", st.ctx, inst.fn.name, inst.uid) + ((gen,) if gen else ())
        x = self.find(st, obj)
        if not gen and (x or self.refs(st, obj)) and self.refs(st, obj):
            # an earlier instance of the same site is still in use: this one is not tracked
            obj = obj[:4] + ("*",)
            self.clobber_obj(st, obj)
            if zero:
                st.mem[("zero", obj)] = ("i", 1)
            return [(("p", obj, 0), st)] + ([(NULL, st.copy())] if null else [])
        self.again(st, inst, obj)
        outs = []
        if null:
            f = st.copy()
            outs.append((NULL, f))
        self.clobber_obj(st, obj)
        for x in list(st.q):
            if x[3] == obj:
                self.drop(st, x[0])
        if zero:
            st.mem[("zero", obj)] = ("i", 1)
        self.sites[obj] = (NAMES.get(kind, kind), inst.loc())
        self.acquired.add((kind, inst.loc()))
        self.put(st, obj, kind, "live")
        return [(("p", obj, 0), st)] + outs

    def again(self, st, inst, R):
        x = self.find(st, R)
        if x and x[2] == "live":
            if not self.refs(st, R):
                self.leak(st, inst, R, "is acquired again before it is released")

    def new_fd(self, st, inst, k):
        sid = (st.ctx, inst.fn.name, inst.uid, "fd%d" % k)
        self.again(st, inst, ("fd", sid))
        v = self.fresh(st, inst, "fd%d" % k, 3)
        self.sites[("fd", sid)] = (NAMES["fd"], inst.loc())
        self.acquired.add(("fd", inst.loc()))
        self.put(st, ("fd", sid), "fd", "live")
        return v

    def leak(self, st, inst, R, how):
        self.report("leak", self.subject(R), "%s acquired %s %s" % (NAMES.get(self.find(st, R)[1] if self.find(st, R) else "", "a resource"), self.where(R).partition(" at ")[2], how), st, inst)

    def subject(self, R):
        s = self.sites.get(R)
        return "%s:%s" % (self.root, s[0] if s else "?")

    root = "?"

    # ---- release -------------------------------------------------------------------------------------------
    def release(self, st, inst, v, kind):
        if self.nonzero(st, v) is False:
            return
        ob = self.obj_of(v)
        if ob is None:
            return
        obj, off = ob
        if obj[0] == "al" or (obj[0] == "g" and v[0] == "p"):
            self.report("double", self.root, "%s is given to %s, but was not acquired" % ("a local variable" if obj[0] == "al" else "static storage", self.name_of(inst)), st, inst)
            return
        if off != 0 and v[0] == "p":
            if isinstance(off, int) and obj[0] == "h":
                self.report("double", self.root, "%s is called with the middle of an object" % self.name_of(inst), st, inst)
            self.drop(st, obj)
            return
        if obj[0] == "o" and obj[1] and obj[1][0] == "arg" and len(st.frames) >= 1:
            self.frees_arg.add(obj[1])
        self.release_R(st, inst, obj, kind)

    def release_R(self, st, inst, R, kind):
        x = self.find(st, R)
        if x and x[2] in ("ok", "stale"):
            self.report("double", self.root, "%s releases storage that belongs to a container" % self.name_of(inst), st, inst)
            return
        if x and x[2] == "rel":
            self.report("double", self.root, "%s %s is released twice" % (NAMES.get(x[1], "an object"), self.where(R).partition(" at ")[2]), st, inst)
            return
        if x and x[1] != kind and {x[1], kind} - {"heap"}:
            if not (kind == "heap" and x[1] == "ulist"):
                self.report("double", self.root, "%s %s is released by %s" % (NAMES.get(x[1], x[1]), self.where(R).partition(" at ")[2], self.name_of(inst)), st, inst)
        if R[-1] == "*":
            return
        if x is None:
            self.touches = True
        self.sites.setdefault(R, (NAMES.get(kind, kind), inst.loc()))
        # what the released object alone refers to
        if kind == "heap" and x and not self.alone:
            for y in st.q:
                if y[2] in ("live", "held") and y[0] != R and y[0][0] != "L":
                    rs = self.refs(st, y[0])
                    if rs and all(k != "env" and k[0] == R for k in rs):
                        self.leak(st, inst, y[0], "is lost when the object that refers to it is released")
        self.put(st, R, kind, "rel")
        self.moved(st, R, None)

    def moved(self, st, owner, but):
        for x in list(st.q):
            if x[3] == owner and x[2] == "ok":
                self.put(st, x[0], x[1], "stale", x[3], x[4])

    # ---- containers inside other objects --------------------------------------------------------------------
    def ckey(self, v):
        ob = self.obj_of(v)
        if not ob or not isinstance(ob[1], int):
            return None
        return ob

    def cont_R(self, st, v):
        """what a container argument stands for"""
        ob = self.ckey(v)
        if ob is None:
            return None
        x = self.find(st, ob[0]) if ob[1] == 0 else None
        if x and x[1] in ("xstr", "pool", "map", "spawn", "ulist"):
            return ob[0]
        return ("L",) + ob

    def embed(self, st, inst, v, kind, fresh=False):
        ob = self.ckey(v)
        if ob is None:
            return
        R = ("L",) + ob
        if self.find(st, ob[0]) and ob[1] == 0 and self.find(st, ob[0])[1] == "ulist":
            return
        x = self.find(st, R)
        if x and x[2] == "live" and fresh and kind in ("list", "deps"):
            self.leak(st, inst, R, "is acquired again before it is released")
        if ob[0][0] in ("o", "g") and self.alone:
            return
        if x is None or x[2] != "live":
            self.sites[R] = (NAMES[kind], inst.loc())
            self.acquired.add((kind, inst.loc()))
            self.put(st, R, kind, "live")

    def unembed(self, st, inst, v, kind):
        ob = self.ckey(v)
        if ob is not None and ob[0][0] == "o" and self.alone:
            self.touches = True
        if kind == "list" and ob is not None and ob[0][0] == "o" and isinstance(ob[0][1], tuple) and ob[0][1][0] == "arg" and self.alone:
            self.put(st, ("L",) + ob, kind, "closed")
        if ob is None:
            if v[0] in ("p",):
                st.q = frozenset(x for x in st.q if not (x[0][0] == "L" and x[0][1] == v[1]))
            return
        R = ("L",) + ob
        self.moved(st, R, None)
        x = self.find(st, R)
        if x and x[2] != "closed":
            self.drop(st, R)

    def derive(self, st, inst, owner, kind, zero=False):
        R = self.cont_R(st, owner)
        obj = ("h", st.ctx, inst.fn.name, inst.uid)
        self.clobber_obj(st, obj)
        if zero:
            st.mem[("zero", obj)] = ("i", 1)
        if kind == "block" and (R is None or not self.find(st, R)):
            R = None
        if R is not None:
            f = self.field_of(inst.ops[0]) if inst.ops else None
            self.sites[obj] = ({"text": "the text of a dynamic string", "elem": "an element of a list", "block": "memory of a pool"}[kind], inst.loc())
            self.put(st, obj, kind, "ok", R, f)
        if kind == "elem" and inst.callee.name.startswith("ulist_peek"):
            f2 = st.copy()
            return [(("p", obj, 0), st), (NULL, f2)]
        return [(("p", obj, 0), st)]

    def mutated(self, st, inst, v, rest):
        R = self.cont_R(st, v)
        if R is None:
            return
        for a in rest:
            ob = self.obj_of(a)
            x = self.find(st, ob[0]) if ob else None
            if x and x[3] == R and x[2] == "ok" and x[1] in ("elem", "text"):
                self.report("stale", self.root, "%s of %s is given to %s of the same container, which may move it" % (
                    self.where(x[0]), "the container", self.name_of(inst)), st, inst)
        for x in list(st.q):
            if x[3] == R and x[2] == "ok" and x[1] in ("elem", "text"):
                self.put(st, x[0], x[1], "stale", x[3], x[4])

    def decide(self, st, pred, a, b):
        if pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "p" and x[1][0] in ("h", "al", "g") and y[0] == "i":
                    return pred == "ne"
        return super().decide(st, pred, a, b)

    # ---- giving away ------------------------------------------------------------------------------------------
    def give(self, st, vals):
        """ownership passes to someone else: nothing is claimed any more"""
        for v in vals:
            ob = self.obj_of(v) if isinstance(v, tuple) else None
            if ob:
                x = self.find(st, ob[0])
                if x and x[2] in ("live", "held"):
                    self.drop(st, ob[0])
                    self.lost_inside(st, ob[0])
            if isinstance(v, tuple) and v[0] == "s" and self.find(st, ("fd", v[1])):
                self.drop(st, ("fd", v[1]))

    def lost_inside(self, st, obj):
        for k, v in list(st.mem.items()):
            if k[0] == obj:
                self.give(st, [v])

    def take_cells(self, st, vals):
        """contents of the object an argument points to are copied away"""
        for v in vals:
            ob = self.obj_of(v)
            if ob:
                for k, c in list(st.mem.items()):
                    if k[0] == ob[0]:
                        self.give(st, [c])

    def retains(self, name, k):
        r = self.ret_memo.get((name, k))
        if r is None:
            self.ret_memo[(name, k)] = False
            r = self.ret_memo[(name, k)] = self._retains(name, k)
        return r

    ret_memo = {}

    def _retains(self, name, k):
        fn = self.m.functions.get(name)
        if fn is None or fn.decl or k >= len(fn.args):
            return False
        flow, work = set(), [fn.args[k]]
        insts = list(fn.insts())
        while work:
            x = work.pop()
            if x in flow:
                continue
            flow.add(x)
            for i in insts:
                if x in i.ops:
                    if i.op in ("phi", "select", "bitcast", "insertvalue", "gep") and (i.op != "gep" or i.ops[0] is x):
                        work.append(i)
                    elif i.op == "store" and i.ops[0] is x:
                        return True
                    elif i.op == "ret":
                        return True
                    elif i.op == "call":
                        if not isinstance(i.callee, Function):
                            return True
                        cn = self.model.base(i.callee.name)
                        for j, o in enumerate(i.ops):
                            if o is x:
                                h = self.h.get(cn)
                                if cn in ("free", "realloc", "xrealloc", "putenv", "fdopen", "close", "fclose", "closedir") or \
                                        cn.endswith("_destroy") or h in (_h_map_put, _h_list_grow, _h_keep_ptr):
                                    return True
                                if h is None and self.retains(i.callee.name, j):
                                    return True
                if i.op == "phi" and any(v is x for v, _ in i.incoming):
                    work.append(i)
        return False

    # ---- hooks -------------------------------------------------------------------------------------------------
    def used(self, st, inst, v, what):
        if not isinstance(v, tuple):
            return
        if v[0] == "s" and st.q:
            x = self.find(st, ("fd", v[1]))
            if x and x[2] == "rel" and what != "read" and what != "written":
                self.report("use", self.root, "a descriptor %s is used after it was closed" % self.where(x[0]).partition(" at ")[2], st, inst)
                return
        ob = self.obj_of(v)
        if not ob:
            return
        x = self.find(st, ob[0])
        if x is None:
            return
        if x[2] == "rel":
            self.report("use", self.root, "%s %s is used (%s) after it was released" % (NAMES.get(x[1], "an object"), self.where(x[0]).partition(" at ")[2], what), st, inst)
        elif x[2] == "stale":
            self.report("stale", self.root, "%s is used (%s) after an operation that may move or release it" % (self.where(x[0]), what), st, inst)

    def on_load(self, st, inst, pv, val, field):
        self.used(st, inst, pv, "read")
        if pv[0] == "p" and pv[2] is None and inst.ty.kind == "ptr":
            self.lost_inside(st, pv[1])
        return None

    def on_store(self, st, inst, pv, v, field):
        self.used(st, inst, pv, "written")
        ob = self.obj_of(pv)
        if ob is None or not isinstance(ob[1], int):
            self.give(st, [v])
            if ob is not None:
                self.lost_inside(st, ob[0])
            return
        old = st.mem.get(ob)
        if old is not None and old != v:
            self.overwritten(st, inst, ob, old)
        tgt = ob[0]
        for R in self.in_value(st, v):
            x = self.find(st, R)
            if x and x[2] == "live" and tgt[0] != "al":
                o = self.find(st, tgt)
                if tgt[-1] == "*":
                    self.drop(st, R)
                    continue
                if o and o[2] in ("live", "rel") and tgt[0] == "h":
                    continue     # kept by an object this function owns itself
                if o and o[2] == "ok" and o[1] == "elem":
                    self.drop(st, R)
                    continue
                self.put(st, R, x[1], "held")
                self.touches = True

    def in_value(self, st, v):
        if not isinstance(v, tuple):
            return []
        if v[0] == "s" and self.find(st, ("fd", v[1])):
            return [("fd", v[1])]
        ob = self.obj_of(v)
        return [ob[0]] if ob and self.find(st, ob[0]) else []

    def overwritten(self, st, inst, ob, old):
        for R in self.in_value(st, old):
            x = self.find(st, R)
            if x and x[2] in ("live", "held") and R[0] != "L" and not self.refs(st, R, skip=ob):
                if x[2] == "held" and self.alone:
                    continue
                self.leak(st, inst, R, "is lost when the only reference to it is overwritten")
                self.drop(st, R)

    def on_kill(self, st, sid):
        if st.q:
            st.q = frozenset(x for x in st.q if not (x[0] == ("o", sid) or x[0] == ("fd", sid) or (x[3] and sid in repr(x[3]).split("\0"))))

    def q_syms(self, q):
        out = set()
        for x in q or ():
            if x[0][0] in ("fd", "o"):
                out.add(x[0][1])
            elif x[0][0] == "L" and x[0][1][0] == "o":
                out |= syms(("s", x[0][1][1]))
        return out

    def gc(self, st):
        # entries of objects nobody can reach any more
        if st.q:
            keep = set()
            for x in st.q:
                if x[2] in ("live", "held", "closed") or x[0][0] == "L":
                    keep.add(x)
                elif self.refs(st, x[0]):
                    keep.add(x)
                elif any(k[0] == x[0] for k in st.mem) and x[2] == "ok":
                    keep.add(x)
            if len(keep) != len(st.q):
                st.q = frozenset(keep)
        super().gc(st)

    def on_call(self, st, inst, name, args):
        base = self.model.base(name)
        h = self.h.get(base)
        free_like = base in ("free", "realloc", "xrealloc", "fclose", "closedir", "close", "pclose") or base.endswith("destroy") or base == "xstr_destroy_keep_ptr"
        if not base.startswith("llvm.va_"):
            for k, a in enumerate(args):
                if free_like and k == 0:
                    continue
                self.used(st, inst, a, "by %s" % base)
        fn = self.m.functions.get(name)
        if base.startswith("llvm.mem") or base in ("memcpy", "memmove"):
            if not base.startswith("llvm.memset") and len(args) > 2:
                self.copied(st, inst, args)
        if h is not None:
            return h(self, st, inst, args)
        if base in self.h and self.h[base] is None:
            return self.default_call(st, inst, name, args)
        if fn is None or fn.decl:
            if base in ("putenv",):
                self.give(st, args)
            return None
        s = self.summ.get(base)
        if s and not self.will_inline(st, inst, fn):
            return self.apply(st, inst, name, args, s)
        return None

    def copied(self, st, inst, args):
        """a struct is copied: the embedded containers and the pointers now belong to the copy"""
        d, s = self.obj_of(args[0]), self.obj_of(args[1])
        if not s:
            return
        n = args[2][1] if args[2][0] == "i" else None
        for x in list(st.q):
            if x[0][0] == "L" and x[0][1] == s[0] and x[2] == "live":
                if not isinstance(s[1], int) or (s[1] <= x[0][2] and (n is None or x[0][2] < s[1] + n)):
                    self.drop(st, x[0])
                    if d and d[0][0] in ("al", "h") and isinstance(d[1], int) and isinstance(s[1], int):
                        R = ("L", d[0], d[1] + x[0][2] - s[1])
                        self.sites[R] = self.sites.get(x[0])
                        self.put(st, R, x[1], "live")
        if not d or d[0][0] != "al" or n is None or not isinstance(d[1], int):
            for k, v in list(st.mem.items()):
                if k[0] == s[0] and isinstance(v, tuple):
                    for R in self.in_value(st, v):
                        x = self.find(st, R)
                        if x[2] == "live":
                            if d and d[0][0] == "h" and n is not None:
                                self.put(st, R, x[1], "held" if not self.find(st, d[0]) else "live")
                            else:
                                self.drop(st, R)

    def inline(self, fn, inst, st):
        return super().inline(fn, inst, st) and fn.name not in self.closed

    closed = frozenset()

    def will_inline(self, st, inst, fn):
        rec = any(f.fn is fn for f in st.frames)
        return len(st.frames) <= self.max_depth and not rec and self.inline(fn, inst, st)

    def default_call(self, st, i, name, args):
        base = self.model.base(name) if name else None
        if name and self.model.is_alloc(name) and base not in self.h:
            return super().default_call(st, i, name, args)
        return self.effects(st, i, name, args)

    def effects(self, st, i, name, args):
        before = {x[0]: self.refs(st, x[0]) for x in st.q if x[2] in ("live", "held") and x[0][0] != "L"}
        fn = self.m.functions.get(name) if name else None
        own = fn is not None and not fn.decl
        if own:
            for k, a in enumerate(args):
                if self.retains(name, k):
                    self.give(st, [a])
                elif self.obj_of(a) and a[0] == "p":
                    pass
            # containers that the callee may change
            g = self.grown(name)
            if g:
                for x in list(st.q):
                    if x[2] == "ok" and x[4] in g:
                        self.put(st, x[0], x[1], "stale", x[3], x[4])
            for k, a in enumerate(args):
                if self.grows_arg(name, k):
                    self.mutated(st, i, a, ())
        filled = self.fills(st, i, name if own else None, args) if own or name is None else ()
        saved = self.kept_cells(st, i, name)
        self.opaque_effects(st, i, name, args)
        for R in filled:
            if self.find(st, R) is None:
                self.sites[R] = (NAMES["list"], i.loc())
                self.acquired.add(("list", i.loc()))
                self.put(st, R, "list", "live")
        for k, (v, f) in saved.items():
            st.mem[k] = v
            if f:
                st.fields[k] = f
        for R, rs in before.items():
            if rs and self.find(st, R) and len(self.refs(st, R)) < len(rs):
                self.drop(st, R)
        return [(self.ret_value(st, i), st)]

    def fills(self, st, i, name, args):
        """lists inside local variables that a callback reached by this call may add to"""
        tab = self.filled_lists()
        who = tab.get(name, ()) if name else tab[None]
        if not who:
            return ()
        out, objs = [], self.reachable(st, [a for a in args if isinstance(a, tuple)])
        for o in objs:
            if isinstance(o, tuple) and o[0] == "al":
                try:
                    a = next(x for x in self.m.functions[o[2]].insts() if x.uid == o[3])
                except (KeyError, StopIteration):
                    continue
                for sname, off in who:
                    if a.sname == sname:
                        out.append(("L", o, off))
        return out

    _filled = None

    def filled_lists(self):
        if Own._filled is None or Own._filled[0] is not self.m:
            grow = ("ulist_push", "ulist_insert", "ulist_unshift")
            tot = {}
            for f in self.m.defined():
                s = set()
                for i in f.calls():
                    if isinstance(i.callee, Function) and self.model.base(i.callee.name) in grow and i.ops:
                        r = self.model.struct_ref(i.ops[0])
                        if r and r[0] != "ulist":
                            s.add(r)
                tot[f.name] = s
            every = set().union(*tot.values())
            ch = True
            while ch:
                ch = False
                for f in self.m.defined():
                    s, n = tot[f.name], len(tot[f.name])
                    for c in self.model.callees(f):
                        s |= tot.get(c, set())
                    ch = ch or len(s) != n
            tot[None] = every
            Own._filled = (self.m, tot)
        return Own._filled[1]

    def kept_cells(self, st, i, name):
        return {}

    def on_icall(self, st, inst, field, args):
        for a in args:
            self.used(st, inst, a, "by a callback")
        return self.effects(st, inst, None, args)

    def apply(self, st, inst, name, args, s):
        """what the summary of a function says about its result and its output arguments"""
        outs = self.effects(st, inst, name, args)
        res = []
        for v, s2 in outs:
            if s.get("touches"):
                for a in args:
                    ob = self.obj_of(a)
                    if ob and ob[0][0] == "al":
                        self.lost_inside(s2, ob[0])
            for k in s.get("frees", ()):
                if k < len(args):
                    ob = self.obj_of(args[k])
                    if ob and self.find(s2, ob[0]):
                        self.drop(s2, ob[0])
            for (k, off) in s.get("closes", ()):
                if k < len(args):
                    self.unembed(s2, inst, self.add_off(args[k], off), "list")
            for (k, off, kind) in s.get("out", ()):
                ob = self.obj_of(args[k]) if k < len(args) else None
                if ob and isinstance(ob[1], int) and ob[0][0] == "al":
                    f = s2.copy()
                    res.append((v, f))
                    o = self.acquire(s2, inst, kind)
                    s2.mem[(ob[0], ob[1] + off)] = o[0][0]
            if s.get("ret"):
                if s.get("other"):
                    res.append((NULL, s2.copy()))
                a = self.acquire(s2, inst, s["ret"])
                v, s2 = a[0]
                if s["ret"] == "fd":
                    pass
            res.append((v, s2))
        return res

    # ---- effects on containers of other functions ----------------------------------------------------------------
    _grow = None

    def growth(self):
        """per function: fields of the lists (strings) it may grow or shrink, and the arguments it does that to"""
        if Own._grow is not None and Own._grow[0] is self.m:
            return Own._grow[1:]
        names = set(GROW["list"]) | set(GROW["xstr"])
        fields, argk = {}, {}
        for f in self.m.defined():
            fs, ks = set(), set()
            for i in f.calls():
                if isinstance(i.callee, Function) and self.model.base(i.callee.name) in names and i.ops:
                    o = i.ops[0]
                    p = self.model.ptr_field(o)
                    if p:
                        fs.add(p)
                    if isinstance(o, Arg):
                        ks.add(o.idx)
            fields[f.name], argk[f.name] = fs, ks
        ch = True
        while ch:
            ch = False
            for f in self.m.defined():
                for i in f.calls():
                    for t in self.model.targets(i) if isinstance(i.callee, Function) else ():
                        for k in argk.get(t, ()):
                            if k < len(i.ops):
                                o = i.ops[k]
                                p = self.model.ptr_field(o)
                                if p and p not in fields[f.name]:
                                    fields[f.name].add(p)
                                    ch = True
                                if isinstance(o, Arg) and o.idx not in argk[f.name]:
                                    argk[f.name].add(o.idx)
                                    ch = True
        tot = {n: set(v) for n, v in fields.items()}
        ch = True
        while ch:
            ch = False
            for f in self.m.defined():
                s = tot[f.name]
                n = len(s)
                for c in self.model.callees(f):
                    s |= tot.get(c, set())
                ch = ch or len(s) != n
        Own._grow = (self.m, tot, argk)
        return tot, argk

    def grown(self, name):
        return self.growth()[0].get(name, ())

    def grows_arg(self, name, k):
        return k in self.growth()[1].get(name, ())

    def join(self, a, b, blk, n):
        r, changed = super().join(a, b, blk, n)
        for x in r.q:
            if x[2] in ("live", "held") and x[0][0] != "L" and self.find(a, x[0]) and self.find(b, x[0]) and not self.refs(r, x[0]) and \
                    (self.refs(a, x[0]) or self.refs(b, x[0])):
                self.drop(r, x[0])
                changed = changed or bool(self.find(a, x[0]))
        return r, changed

    def join_q(self, a, b):
        return b if a == b else frozenset(a) & frozenset(b)

    # ---- ends ------------------------------------------------------------------------------------------------
    def on_leave(self, st, fn, val):
        ctx = st.frames[-1].ctx
        inst = fn.blocks[-1].insts[-1]
        if len(st.frames) > 1:
            for x in list(st.q):
                if x[0][0] == "L" and x[0][1][0] == "al" and x[0][1][1] == ctx and x[2] == "live":
                    self.leak(st, inst, x[0], "is not released before the function ends")
                    self.drop(st, x[0])
            if val[0] == "S" or (val[0] == "p" and val[1][0] == "al" and val[1][1] == ctx):
                pass
        if val[0] == "p" and val[1][0] == "al" and val[1][1] == ctx:
            self.report("stale", self.root, "the address of a local variable is returned from %s" % fn.name, st, inst)

    def reachable(self, st, roots):
        seen, work = set(), []
        for v in roots:
            for x in (v[1:] if v[0] == "S" else (v,)):
                if isinstance(x, tuple):
                    ob = self.obj_of(x)
                    if ob:
                        work.append(ob[0])
                    if x[0] == "s":
                        seen.add(("fd", x[1]))
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            for k, v in st.mem.items():
                if k[0] == o and isinstance(v, tuple):
                    if v[0] == "s":
                        seen.add(("fd", v[1]))
                    ob = self.obj_of(v)
                    if ob:
                        work.append(ob[0])
        return seen

    def outer(self, st):
        """values in memory that outlives the function"""
        out = []
        for k, v in st.mem.items():
            o = k[0]
            if not isinstance(v, tuple) or not isinstance(o, tuple) or o[0] in ("al", "errno", "zero"):
                continue
            if o[0] == "h":
                x = self.find(st, o)
                if x and x[2] in ("live", "rel", "stale"):
                    continue
                if x and x[2] == "ok":
                    y = self.find(st, x[3])
                    if y and y[2] in ("live", "rel"):
                        continue
            out.append((k, v))
        return out

    def on_return(self, st, inst, v):
        self.rets += 1
        self.closings.append(frozenset((x[0][1][1][2], x[0][2]) for x in st.q if x[2] == "closed"))
        outer = self.outer(st)
        ob = self.obj_of(v)
        if not (ob and self.find(st, ob[0])):
            self.ret_other = True
        keep = self.reachable(st, [v] + [x for _, x in outer])
        for x in list(st.q):
            R, kind, status = x[0], x[1], x[2]
            if status == "live" and R in keep:
                if self.points(v, R) if R[0] != "L" else False:
                    self.out.add(("ret", kind))
                for k, c in outer:
                    if k[0][0] == "o" and isinstance(k[0][1], tuple) and k[0][1][0] == "arg" and self.points(c, R):
                        self.out.add(("out", k[0][1][2], k[1], kind))
            elif status == "held":
                for k, c in outer:
                    if k[0][0] == "o" and isinstance(k[0][1], tuple) and k[0][1][0] == "arg" and self.points(c, R):
                        self.out.add(("out", k[0][1][2], k[1], kind))
            elif status == "live":
                if R[0] == "L" and R[1][0] != "al" and (R[1] in keep or R[1][0] in ("o", "g") or (
                        self.find(st, R[1]) is None and R[1][0] == "h")):
                    continue
                if R[0] == "L" and R[1][0] == "h":
                    y = self.find(st, R[1])
                    if y and y[2] == "held":
                        continue
                    if y and y[2] == "ok":
                        z = self.find(st, y[3]) if y[3] else None
                        if y[3] is None or (z is None) or z[2] == "held" or (z[2] == "live" and z[0] in keep):
                            continue
                self.leak(st, inst, R, "is not released on this path")
            elif status in ("rel", "stale") and self.points(v, R) and R[0] in ("h", "o"):
                self.report("use", self.root, "%s is returned after it was released" % self.where(R), st, inst)
        for k, c in outer:
            for R in self.in_value(st, c):
                x = self.find(st, R)
                if x and x[2] == "stale" and x[1] == "block" and k[0][0] == "g":
                    self.report("use", self.root, "%s stays referenced after the pool was destroyed" % self.where(R), st, inst)
        if not self.alone:
            s = st.copy()
            self.finals.append((v, s))

    def report(self, rule, subject, detail, st=None, inst=None):
        super().report(rule, subject, detail, st, inst)


def survey(ctx, inside=(), budget=None):
    """every function, callees first: {name: Own}, functions that are analysed inside their callers are left out"""
    m, model = ctx.m, ctx.model
    order, seen = [], set()

    def visit(f):
        stack = [(f, iter(sorted(model.callees(f))))]
        seen.add(f.name)
        while stack:
            g, it = stack[-1]
            for c in it:
                h = m.functions.get(c)
                if h is not None and not h.decl and c not in seen:
                    seen.add(c)
                    stack.append((h, iter(sorted(model.callees(h)))))
                    break
            else:
                stack.pop()
                order.append(g)
    for f in sorted(m.defined(), key=lambda f: f.name):
        if f.name not in seen:
            visit(f)
    closed, summ, out = set(), {}, {}
    size = {}
    for f in order:
        size[f.name] = sum(len(b.insts) for b in f.blocks) + sum(
            size.get(i.callee.name, 0) for i in f.calls() if isinstance(i.callee, Function) and model.should_inline(i.callee))
    big = {n for n, k in size.items() if k > 150}
    known = Own(ctx).h
    todo = [f for f in order if not (f.file or "").startswith("scriptx") and known.get(model.base(f.name)) is None]
    for rnd in range(3):
        again, before = [], repr(sorted(summ.items()))
        for f in todo:
            e = one(ctx, f, summ, closed)
            frees = {k[2] for k in e.frees_arg if k[1] == f.name}
            some = frozenset().union(*e.closings) if e.closings else frozenset()
            private = model.should_inline(f) and f.name not in m.address_taken and any(model.direct_calls(f.name))
            out[f.name] = e
            if not e.bad and not e.out and not frees and not some and not e.over and not e.touches:
                closed.add(f.name)
                continue
            if e.bad:
                again.append(f)
            if private:
                del out[f.name]
                if not e.bad and not e.out and not frees and not some and not e.over and (f.name in big or e.steps > 600):
                    closed.add(f.name)
                else:
                    continue
            if some and any(x != some for x in e.closings):
                e.report("leak", f.name + ":argument", "what the caller handed over is released on some paths but not on others")
            s = {"frees": sorted(frees), "closes": sorted(some), "out": sorted(o[1:] for o in e.out if o[0] == "out"), "touches": e.touches}
            r = sorted(o[1] for o in e.out if o[0] == "ret")
            if r:
                s["ret"] = r[0]
                s["other"] = e.ret_other
            summ[model.base(f.name)] = s
        todo = again
        if not todo or repr(sorted(summ.items())) == before:
            break
    survey.closed = closed
    return out, summ


def one(ctx, f, summ, closed):
    for coarse in (0, 1, 2, 3):
        e = Own(ctx, summ)
        e.root, e.closed, e.over = f.name, closed, False
        if coarse:
            e.ordered = True
            e.max_states, e.max_shapes = ((24, 24), (4, 4), (2, 0))[coarse - 1]
        else:
            e.max_steps = 150000
        try:
            e.run(f, q=frozenset())
            return e
        except Limit:
            e.over = True
    return e


class Life(Own):
    """a sequence of operations on the same objects, from creation to the end"""
    alone = False
    files = ()
    pinned = ()
    subject_node = None

    def inline(self, fn, inst, st):
        if fn.file and os.path.basename(fn.file) in self.files:
            return True
        return super().inline(fn, inst, st)

    def kept_cells(self, st, i, name):
        N = self.subject_node
        if N is None:
            return {}
        return {k: (v, st.fields.get(k)) for k, v in st.mem.items() if k[0] == N or k == ("zero", N)}

    def clobber_fields(self, st, fields):
        saved = self.kept_cells(st, None, None)
        super().clobber_fields(st, fields)
        for k, (v, f) in saved.items():
            st.mem[k] = v
            if f:
                st.fields[k] = f

    def step(self, states, fname, args, pick=lambda v, s: s):
        """run one operation in every state; args may be a function of the state"""
        fn = self.m.functions.get(fname)
        if fn is None or fn.decl:
            raise AnalysisBroken("function %s not found" % fname)
        out, seen = [], set()
        for s in states:
            self.finals = []
            a = args(s) if callable(args) else args

            def setup(st, s=s):
                st.mem, st.fields, st.facts, st.q = dict(s.mem), dict(s.fields), dict(s.facts), s.q
            self.run(fn, a, q=s.q, setup=setup)
            for v, t in self.finals:
                t.frames, t.rel, t.esc, t.trace = [], {}, frozenset(), None
                for k in list(t.mem):
                    o = k[0] if k[0] != "zero" else k[1]
                    if o[0] in ("al", "errno") or k[0] == "errno_nz":
                        del t.mem[k]
                        t.fields.pop(k, None)
                for k in self.pinned:
                    if k in s.mem:
                        t.mem[k] = s.mem[k]
                t = pick(v, t)
                if t is None:
                    continue
                h = hash((frozenset(t.mem.items()), frozenset(t.facts.items()), t.q))
                if h not in seen:
                    seen.add(h)
                    out.append(t)
        return self.thin(out)

    limit = 48

    def thin(self, states):
        """keep states that differ in what is owned first"""
        if len(states) <= self.limit:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.q, []).append(s)
        out = []
        while len(out) < self.limit and groups:
            for k in list(groups):
                out.append(groups[k].pop())
                if not groups[k]:
                    del groups[k]
        self.dropped = getattr(self, "dropped", 0) + len(states) - len(out)
        return out

    def on_return(self, st, inst, v):
        self.rets += 1
        self.finals.append((v, st.copy()))

    def end(self, states, what):
        """nothing may be left"""
        n = 0
        for s in states:
            n += 1
            for x in s.q:
                if x[2] in ("live", "held"):
                    rs = self.refs(s, x[0]) if x[0][0] != "L" else []
                    if any(isinstance(k, tuple) and k[0][0] in ("o", "g") for k in rs):
                        continue
                    self.report("leak", what + ":" + (self.sites.get(x[0]) or ("?",))[0], "%s acquired %s is still held after the end of its life" % (
                        NAMES.get(x[1], x[1]), self.where(x[0]).partition(" at ")[2]), s)
        return n


NODE_STEPS = ("init", "setup", "value_get", "value_get", "build", "post_build")


def node_life(ctx, summ, closed, setup):
    """one node from its set-up function to its dispose callback"""
    e = Life(ctx, summ)
    e.root, e.closed = setup, frozenset()
    e.max_states, e.max_shapes, e.max_steps, e.ordered = 4, 4, 150000, True
    e.closed = frozenset(n for n in closed if not (ctx.m.functions[n].file or "").startswith("node_") or n not in own_callbacks(ctx, setup))
    N = ("p", ("h", "N"), 0)
    e.subject_node = ("h", "N")

    def begin(s):
        s.q = frozenset()
        s.mem[("zero", ("h", "N"))] = ("i", 1)
        for k, nm in (("ctx", "nctx"), ("unit", "nunit"), ("child", "nchild"), ("next", "nnext"), ("parent", "nparent"), ("value", "nvalue"), ("name", "nname")):
            try:
                e.set_cell(s, N, "node", k, S(nm))
            except AnalysisBroken:
                pass
        return s
    s0 = begin(State())
    s0.facts.update({"nctx": (1, None, frozenset()), "nunit": (1, None, frozenset()), "nvalue": (1, None, frozenset())})
    e.ordered, e.max_states, e.max_shapes = False, 60, 60
    states = e.step([s0], setup, [N])
    e.ordered, e.max_states, e.max_shapes = True, 4, 4

    def call(states, member):
        out, by = [], {}
        for s in states:
            v = e.get_cell(s, N, "node", member)
            if v is not None and v[0] == "fn":
                by.setdefault(v[1], []).append(s)
            elif member == "dispose":
                out.append(s)
        for f, ss in by.items():
            e.steps = 0
            out += e.step(ss, f, [N])
        return out
    def has(member):
        return any((e.get_cell(s, N, "node", member) or NULL)[0] == "fn" for s in states)
    e.ended = e.end(call(states, "dispose"), setup)
    for member in NODE_STEPS:
        if has(member):
            done = [s for s in states if (e.get_cell(s, N, "node", member) or NULL)[0] != "fn"]
            states = e.thin(done + call(states, member))
            e.ended += e.end(call(states, "dispose"), setup)
    return e


def own_callbacks(ctx, setup):
    return {f.name for f in ctx.m.defined() if f.file == ctx.m.functions[setup].file}
