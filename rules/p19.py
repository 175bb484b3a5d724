"""P19: absent, undefined and empty values.  Every rule is played through its phases with each of its parts missing and each value in it absent, empty, a list or
a plain text; on no path may a null pointer be read or written through, or be handed to a function that needs the object."""
import re
import sys
from sa.ruleset import *
from sa.phases import *
from sa.scen import N, V, T, H
from sa.vars import Vars
from sa.par import results
from sa.absint import Limit
from sa.ir import Arg
from rules.p14 import Macro

TECHNIQUE = "null-flow analysis by path-sensitive abstract interpretation of LLVM IR over abstract syntax trees with missing parts and absent values; inferred non-null parameters of helpers"
LEVEL_NOTE = ("every rule with each part removed, each list of parts cut short and each value absent, empty, a list or a text in all combinations; rules are combined with each other only where one contains the other. "
              "Helpers need an argument when one of their paths uses it unchecked for the other arguments given; formatted output of an absent text with %s is not an error.")

# pointers that functions of the C library need
EXTERN = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strchr": (0,), "strrchr": (0,), "strchrnul": (0,), "memchr": (0,),
          "strstr": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1), "stpcpy": (0, 1), "strcat": (0, 1), "strncat": (0, 1), "memcmp": (0, 1), "strdup": (0,), "strndup": (0,),
          "strspn": (0, 1), "strcspn": (0, 1), "strpbrk": (0, 1), "fopen": (0, 1), "fputs": (0, 1), "fprintf": (0, 1), "vfprintf": (0, 1), "printf": (0,), "puts": (0,), "snprintf": (2,),
          "fclose": (0,), "fgets": (0, 2), "fgetc": (0,), "ferror": (0,), "feof": (0,), "fread": (0, 3), "fwrite": (0, 3), "fileno": (0,), "fputc": (1,), "access": (0,), "open": (0,),
          "stat": (0, 1), "lstat": (0, 1), "unlink": (0,), "rename": (0, 1), "mkdir": (0,), "chdir": (0,), "setenv": (0, 1), "unsetenv": (0,), "getenv": (0,), "atoi": (0,), "atol": (0,),
          "strtol": (0,), "strtoll": (0,), "strtoul": (0,), "opendir": (0,), "readdir": (0,), "closedir": (0,), "readlink": (0, 1), "symlink": (0, 1), "fnmatch": (0, 1), "glob": (0,),
          "execvp": (0, 1), "execv": (0, 1), "execlp": (0,), "realpath": (0,), "strerror_r": (1,), "basename": (0,), "qsort": (0,)}
MEM = ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memset", "llvm.memset.p0.i64")


# functions that format a text: position of the format
FORMATS = {"snprintf": 2, "sprintf": 1, "fprintf": 1, "dprintf": 1, "printf": 0, "xstr_printf": 1, "pool_printf": 1, "xstr_create_printf": 0}


def null_text(self, st, b, args):
    """is an absent value formatted as a text?"""
    k = FORMATS.get(b)
    if k is None or k >= len(args):
        return False
    f = self.string(args[k])
    if f is None:
        return False
    k += 1
    for w, p, c in re.findall(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d*))?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])", f):
        if c == "%":
            continue
        k += (w == "*") + (p == "*")
        if c == "s" and k < len(args) and self.isnull(st, args[k]):
            return True
        k += 1
    return False


class Needs(Rule):
    """is the null argument of a function used unchecked?"""
    max_states = 30
    max_steps = 60000

    def on_stop(self, st, inst, name, args):
        if name == "__assert_fail":
            self.asserts.add(inst.loc())

    def inline(self, fn, inst, st):
        return not fn.decl and any(self.isnull(st, a) for a in self.cargs) and not self.model.noreturn(fn.name)

    def isnull(self, st, v):
        return v == S("NULLP") or v[0] == "p" and v[1] == ("o", "NULLP")

    def q_syms(self, q):
        return frozenset(["NULLP"])

    def on_load(self, st, inst, ptr, val, field):
        if self.isnull(st, ptr):
            self.hit = self.hit or inst.loc()
            raise Found()

    def on_store(self, st, inst, ptr, val, field):
        self.on_load(st, inst, ptr, None, None)

    def on_call(self, st, inst, name, args):
        self.cargs = args
        b = self.model.base(name) if not name.startswith("llvm") else name
        for k, a in enumerate(args):
            if self.isnull(st, a) and (k in EXTERN.get(b, ()) or b in MEM and k < (1 if "set" in b else 2) and self.nonzero(st, args[2]) is not False):
                self.hit = self.hit or inst.loc()
                raise Found()
        if null_text(self, st, b, args):
            self.hit = self.hit or inst.loc()
            raise Found()
        return None


class Found(Exception):
    pass


_needs = {}


def needs(ctx, name, args):
    """{k: place} of the null arguments the function would use"""
    fn = ctx.m.functions.get(name)
    if fn is None or fn.decl:
        return {}
    out = {}
    for k, a in enumerate(args):
        if a != NULL or k >= len(fn.args) or fn.args[k].ty.kind != "ptr":
            continue
        key = (id(ctx), name, tuple("N" if x == NULL else x if x[0] == "i" else "" for x in args), k)
        if key not in _needs:
            e = Needs(ctx)
            e.hit, e.cargs, e.asserts = None, (), set()
            vals = []
            for j, x in enumerate(args):
                if j == k:
                    vals.append(S("NULLP"))
                elif x[0] == "i":
                    vals.append(x)
                elif j < len(fn.args) and fn.args[j].ty.kind == "ptr":
                    vals.append(("p", ("h", "NEEDS%d" % j), 0))
                else:
                    vals.append(TOP)
            try:
                e.run(fn, vals, q="n", facts={"NULLP": (0, 0, frozenset())})
            except Found:
                pass
            except Limit:
                pass
            if not e.hit and e.asserts:
                # an assertion that only the absent value fails
                x = Needs(ctx)
                x.hit, x.cargs, x.asserts = None, (), set()
                try:
                    x.run(fn, [("p", ("h", "NEEDS"), 0) if v == S("NULLP") else v for v in vals], q="n")
                    e.hit = next(iter(sorted(e.asserts - x.asserts)), None)
                except Limit:
                    pass
            _needs[key] = e.hit
        if _needs[key]:
            out[k] = _needs[key]
    return out


def guarded(f):
    def h(ctx, *a):
        e = []
        try:
            return f(ctx, e, *a)
        except Found:
            return e[0].found, 1, e[0].nobs
    h.__name__ = f.__name__
    return h


class NullCheck:
    """mixin: no null pointer is used"""
    tolerated = frozenset()

    def add_off(self, v, off):
        if v == NULL:
            return ("p", ("null",), off) if off != 0 else v
        return super().add_off(v, off)

    def isnull(self, st, v):
        if v is None:
            return False
        if v == NULL or v[0] == "p" and v[1] == ("null",):
            return True
        if v[0] == "s":
            f = st.facts.get(v[1])
            return f is not None and f[0] == 0 and f[1] == 0
        if v[0] == "p" and v[1][0] == "o":
            f = st.facts.get(v[1][1])
            return f is not None and f[0] == 0 and f[1] == 0
        return False

    def alarm(self, st, inst, msg):
        self.found.setdefault((inst.loc(), msg), st.lines())
        raise Found()

    def on_load(self, st, inst, ptr, val, field):
        self.nobs += 1
        if self.isnull(st, ptr):
            self.alarm(st, inst, "a null pointer is read through" + (" (%s)" % field if field else ""))
        return super().on_load(st, inst, ptr, val, field)

    def on_store(self, st, inst, ptr, val, field):
        self.nobs += 1
        if self.isnull(st, ptr):
            self.alarm(st, inst, "a null pointer is written through" + (" (%s)" % field if field else ""))
        return super().on_store(st, inst, ptr, val, field)

    def on_call(self, st, inst, name, args):
        if any(self.isnull(st, a) for a in args):
            b = self.model.base(name) if not name.startswith("llvm") else name
            for k, a in enumerate(args):
                if self.isnull(st, a) and (k in EXTERN.get(b, ()) or b in MEM and k < (1 if "set" in b else 2) and self.nonzero(st, args[2]) is not False):
                    self.alarm(st, inst, "an absent value is handed to %s" % b)
            if null_text(self, st, b, args):
                self.alarm(st, inst, "an absent value is written as a text by %s" % b)
            fn = self.m.functions.get(name)
            if fn is not None and not fn.decl and (name in self.handlers or self.model.base(name) in self.handlers or not self.inline(fn, inst, st)):
                nd = needs(self.ctx, name, [NULL if self.isnull(st, a) else a for a in args])
                for k in nd:
                    self.alarm(st, inst, "an absent value is handed to %s, which uses it at %s" % (b, nd[k]))
        return super().on_call(st, inst, name, args)


L = "<leaf>"
WORDS = set("run run-on-install cc cxx configure check install library include call macro set let env echo error option meta if foreach in-sources".split()) | {"$", "..$", "!$", "@", "@@", "^", "..^", "%", "S", "C", "SS", "CC"}


def build(spec, leaves):
    """abstract tree from ("word", [parts])"""
    if spec == L:
        n = N("$", "${", V("X"))
        leaves.append(n)
        return n
    if isinstance(spec, str):
        return V(spec)
    w, parts = spec
    ch = [build(p, leaves) for p in parts]
    if w.startswith("="):
        return N("value", w[1:], *ch)
    return N(w, w, *ch) if w in WORDS else bag(w, *ch)


def variants(spec):
    """the spec, and with each part removed, each list of parts cut short, emptied"""
    out = [spec]
    if isinstance(spec, str):
        return out
    w, parts = spec
    for k in range(len(parts)):
        out.append((w, parts[:k]))
        out.append((w, parts[:k] + parts[k + 1:]))
        for v in variants(parts[k])[1:]:
            out.append((w, parts[:k] + [v] + parts[k + 1:]))
    seen, uniq = set(), []
    for s in out:
        if repr(s) not in seen:
            seen.add(repr(s))
            uniq.append(s)
    return uniq


def show(s):
    if s == L:
        return "$"
    if isinstance(s, str):
        return s or '""'
    return "%s{%s}" % (s[0], " ".join(show(p) for p in s[1]))


RULES = [
    ("run", [("exec", [L, L]), ("produces", [L])]), ("run", [("exec", ["t", ("odd", [])]), ("consumes", [L, L])]), ("run", [("shell", [L, L])]), ("run", ["always", ("exec", [L])]),
    ("run", [("consumes", [("odd", []), "f"]), ("produces", [("odd", []), "p"])]), ("run-on-install", [("exec", [L]), ("consumes", [L])]),
    ("foreach", ["I", L, ("run", [("exec", [L]), ("consumes", [L]), ("produces", [L])])]),
    ("cc", [L, L, L]), ("cxx", [L]), ("cc", ["a.c", L, ("objects", [L]), ("consumes", [L])]), ("cc", [("consumes", []), ("objects", []), L]),
    ("configure", [L, L]), ("check", [("=chk.sh", [L, L]), L]), ("install", [L, L, L]), ("library", [L, L, L]), ("library", [("root", [L]), L]), ("library", [("parent", [L]), L]),
    ("include", [L]), ("echo", [L, L]), ("echo", [("build", [L]), ("init", [L]), ("setup", [L])]), ("error", [L, L]), ("option", ["a", "b"]), ("option", [L, L]),
    ("meta", [("name", [L, L]), ("let", [L, L, L])]), ("meta", ["x", ("let", [])]),
    ("if", [L, ("echo", ["x"])]), ("if", [("eq", [L, L]), ("echo", ["x"])]), ("if", [("prefix", [L, L])]), ("if", [("contains", [L, L])]), ("if", [("defined", [L, L])]),
    ("if", [("or", [L, ("eq", [L, "a"])])]), ("if", [("and", [L, ("!eq", [L, "a"])])]), ("if", [("odd", [L])]), ("if", [("library", [L, L])]), ("if", ["plain", "y"]),
    ("in-sources", [("run", [("exec", [L])])]),
    ("echo", [("@", [L, L])]), ("echo", [("@@", [L, L])]), ("echo", [("^", [L, L])]), ("echo", [("..^", [L, L])]), ("if", [("!$", [L])]), ("run", [("exec", ["t", ("..$", [L])]), ("consumes", [("..$", [L])])]), ("echo", [("%", [L, L])]), ("echo", [("S", [L, L])]), ("echo", [("CC", [L])]),
    ("foreach", ["I", L, ("echo", [("@", [L]), ("^", [L]), ("%", [L])])]),
]
SETS = [("set", [L, L]), ("set", ["A", L, L]), ("set", [("root", [L]), L]), ("set", [("parent", [L]), L]), ("set", [("odd", [L]), L]), ("let", ["A", L]), ("let", [L]), ("env", [L, L]), ("env", ["A", L]),
        ("set", ["A", ("..^", [L])]), ("set", ["A", ("..$", [L]), L]), ("set", ["A", ("^", [L])]), ("let", [("root", [L]), L]), ("env", [("parent", [L]), L])]
REFS = [("$", [L, L]), ("foreach", ["I", L, ("echo", [("$", [L, L])])]), ("$", ["A", L]), ("$", ["U"])]
CALLS = [[("macro", ["M", ("echo", [("&", []), "x"])]), ("call", ["M", "a"])], [("macro", ["M", ("echo", [("&", ["1"])])]), ("call", ["M", L])], [("macro", [L, "x"]), ("call", [L])],
         [("macro", ["M"]), ("call", ["M"])], [("macro", ["M", ("echo", [("&", [L])])]), ("call", ["M", "a"])]]
WORDS.add("&")


class Run(NullCheck, Play):
    """leaves are absent, empty, a list or a text"""
    nobs = 0

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.found = {}

    def outcome(self, st, kind, t):
        return {"exist": True, "access": True, "argstart": False, "fopen": True, "dir": False, "abs": None}.get(kind)

    def product(self, st, t):
        return NULL

    def pick_open(self, ok, fail, out):
        return [out[0]]


def leaf(n, kinds):
    """value of a leaf: chosen once per path"""
    def f(self, st):
        return st.mem[(("C", "leaf", n.id), 0)]
    return f


def leaf_value(self, st, inst, args):
    n = args[0]
    nid = n[1][1] if n[0] == "p" and n[1][0] == "h" else None
    if nid not in self.leaf_ids:
        return Play.handlers["node_value"](self, st, inst, args)
    k = (("C", "leaf", nid), 0)
    if k in st.mem:
        return [(st.mem[k], st)]
    out = []
    for v in (NULL, T("val", nid), self.const(""), T("list", T("li", nid, 0), T("li", nid, 1)))[:self.alts]:
        s = st.copy()
        s.mem[k] = v
        out.append((v, s))
    return out


def var_value(self, st, inst, args):
    k = (("C", "leaf", "var", self.text(st, args[1])), 0)
    if k in st.mem:
        return [(st.mem[k], st)]
    out = []
    for v in (NULL, T("var", k[0][3])):
        s = st.copy()
        s.mem[k] = v
        out.append((v, s))
    return out


Run.handlers = dict(Play.handlers, node_value=leaf_value, utils_toupper_ascii=noop(TOP), unit_env_get_node=noop(NULL), unit_env_set_node=noop(NULL), node_env_get=var_value, node_error=noop(), script_include=lambda self, st, inst, args: (st.mem.__setitem__(self.obj_of(args[2]), H("INCLUDED")), [(NULL, st)])[1],
                    getenv=lambda self, st, inst, args: [(T("env", self.text(st, args[0])), st), (NULL, st.copy())])


@guarded
def run_spec(ctx, es, spec, alts):
    e = Run(ctx)
    es.append(e)
    leaves = []
    top = build(spec, leaves)
    root = nest(top)
    rules = [n for n in root.walk() if n.kind not in ("value", "bag", "script") and n not in leaves]
    st = e.state()
    e.plant(st, root)
    e.leaf_ids = {n.id for n in leaves}
    e.alts = alts
    e.lines = ["x @K1@ y\n", "//autarkdef K3 \"s\"\n", "//autarkdef K5\n"] if top.kind == "configure" else LINES["cc"]
    e.genv(st, "max_parallel_jobs", ("i", 2))
    n = 0
    sts = [st]
    for r in rules:
        sts = e.chain(sts, "node_bind", [r.ptr])
    n += 1
    for ph, fl in (("init", "init"), ("setup", "setup"), ("build", "build"), ("post_build", "post_build"), ("value", "value_get")):
        for r in (rules[::-1] if ph == "init" else rules):
            nxt = []
            for s in sts:
                c = e.get_cell(s, r.ptr, "node", fl)
                if c is None or c[0] != "fn":
                    nxt.append(s)
                    continue
                n += 1
                nxt += [x for x, _ in e.call_fn(s, c[1], [r.ptr])]
            sts = thin(nxt)
    return e.found, n, e.nobs


def thin(sts, most=40):
    """states that agree on the leaves are alike enough for what follows"""
    out, seen = [], set()
    for s in sts:
        k = tuple(sorted((str(x), str(v)) for x, v in s.mem.items() if x[0][:2] == ("C", "leaf")))
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out[:most]


class Defs(NullCheck, Vars):
    nobs = 0

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.found = {}


class Calls(NullCheck, Macro):
    nobs = 0

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.found = {}


@guarded
def run_defs(ctx, es, spec, ref, nulls):
    """definitions and references with the real lookup; nulls: which leaves are absent"""
    e = Defs(ctx)
    es.append(e)
    leaves = []

    def mk(s):
        if s == L:
            n = e.leaf("l%d" % len(leaves), null=len(leaves) in nulls)
            leaves.append(n)
            return n
        if isinstance(s, str):
            return V(s)
        w, parts = s
        ch = [mk(p) for p in parts]
        return N(w, w, *ch) if w in WORDS else bag(w, *ch)
    d, r = mk(spec), mk(ref) if ref else None
    ch = [d] + ([N("echo", "echo", r)] if r else [])
    root = N("script", "script", *ch, unit="U0")
    st = e.start(root)
    sts = e.bind([st], root)
    for ph in ("node_init", "node_setup", "node_build"):
        sts = e.chain(sts, ph, [root.ptr])
    if r:
        for s in sts:
            e.call_fn(s, "node_value", [r.ptr])
    for s in sts:
        c = e.get_cell(s, d.ptr, "node", "value_get")
        if c is not None and c[0] == "fn":
            e.call_fn(s, c[1], [d.ptr])
    return e.found, 4, e.nobs


@guarded
def run_calls(ctx, es, specs):
    e = Calls(ctx)
    es.append(e)
    leaves = []
    root = N("script", "Autark", *[build(s, leaves) for s in specs], unit="U0")
    for n in leaves:
        n.cells["value_get"] = ("fn", "sa.cb.value.%d" % id(n))
        e.byid["%d" % id(n)] = n
    e.nulls = {id(n) for n in leaves}
    e.result = lambda st, ph, node: NULL
    st = e.start(root)
    e.chain(e.bind([st], root) if not leaves else bind_but(e, [st], root, leaves), "node_init", [root.ptr])
    return e.found, 2, e.nobs


def bind_but(e, sts, root, leaves):
    for n in root.walk():
        if n.kind != "script" and n not in leaves and n.parent not in leaves:
            sts = e.chain(sts, "node_bind", [n.ptr])
    return sts


def run(ctx):
    ctx.rule("null", "no null pointer is read, written through or handed to a function that uses it, whatever parts and values are absent")
    todo = []
    for s in RULES:
        for v in variants(s):
            k = show(v).count("$")
            todo.append((run_spec, (v, 3 if s[0] == "configure" else 4 if k <= 2 else 3 if k == 3 else 2), show(v)))
    for s in SETS:
        for v in variants(s):
            k = show(v).count("$")
            for m in range(2 ** k):
                todo.append((run_defs, (v, ("$", ["A"]), {j for j in range(k) if m >> j & 1}), "%s, absent: %s" % (show(v), "".join(str(m >> j & 1) for j in range(k)))))
    for r in REFS:
        for v in variants(r):
            k = show(v).count("$")
            for m in range(2 ** k):
                todo.append((run_defs, (v, None, {j for j in range(k) if m >> j & 1}), "%s, absent: %s" % (show(v), "".join(str(m >> j & 1) for j in range(k)))))
    for c in CALLS:
        for j in range(len(c)):
            for v in variants(c[j]):
                sp = c[:j] + [v] + c[j + 1:]
                todo.append((run_calls, (sp,), " ".join(show(x) for x in sp)))
    seen = set()
    todo = [t for t in todo if not (t[2] in seen or seen.add(t[2]))]
    n = obs = 0
    bad = {}
    for (f, a, label), (found, k, ld) in zip(todo, results(lambda t: t[0](ctx, *t[1]), todo)):
        n += k
        obs += ld
        for key, path in found.items():
            bad.setdefault(key, (label, path))
        if not found:
            ctx.ob("null", label, True, "%d memory accesses" % ld)
    for (loc, msg), (label, path) in sorted(bad.items()):
        ctx.ob("null", label, False, msg, loc, path)
    ctx.count("trees", len(todo))
    ctx.count("actions followed", n)
    ctx.count("memory accesses checked", obs)
    ctx.require(obs, 1000, "memory accesses")
