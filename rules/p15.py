"""P15: format strings.  Interprocedural origin analysis of every format argument: starting from the C library's printf
family, a parameter that is handed on as a format makes its function a formatter, and every call of a formatter must pass
constant text.  At calls that also pass the variable arguments, directives and arguments are matched one by one."""
import re
from sa.lib import *

TECHNIQUE = "interprocedural origin (taint) analysis of format arguments and directive/argument type matching on LLVM IR"
LEVEL_NOTE = "Every call of a formatter in the program, whatever path reaches it. Trusts the clang front end; widths are checked, not signedness."

# name -> (index of the format, takes a va_list)
LIBC = {"printf": (0, 0), "fprintf": (1, 0), "dprintf": (1, 0), "sprintf": (1, 0), "snprintf": (2, 0), "asprintf": (1, 0),
        "vprintf": (0, 1), "vfprintf": (1, 1), "vdprintf": (1, 1), "vsprintf": (1, 1), "vsnprintf": (2, 1), "vasprintf": (1, 1),
        "syslog": (1, 0), "vsyslog": (1, 1), "err": (1, 0), "errx": (1, 0), "warn": (0, 0), "warnx": (0, 0),
        "__printf_chk": (1, 0), "__fprintf_chk": (2, 0), "__snprintf_chk": (4, 0), "__vsnprintf_chk": (4, 1), "__sprintf_chk": (3, 0)}
SCANF = {"scanf": 0, "sscanf": 1, "fscanf": 1, "__isoc99_sscanf": 1, "__isoc99_fscanf": 1, "__isoc23_sscanf": 1, "__isoc23_fscanf": 1}

DIR = re.compile(r"%(?P<fl>[-+ #0']*)(?P<w>\*|\d*)(?:\.(?P<p>\*|\d*))?(?P<len>hh|h|ll|l|j|z|t|L|q)?(?P<c>.)", re.S)


def kinds(fmt):
    """list of expected argument kinds ('i32','i64','ptr','f64'), or a string describing an error"""
    out, i = [], 0
    while True:
        i = fmt.find("%", i)
        if i < 0:
            return out
        m = DIR.match(fmt, i)
        if not m:
            return "incomplete directive at the end"
        i = m.end()
        c, ln = m.group("c"), m.group("len") or ""
        if c == "%":
            continue
        if m.group("w") == "*":
            out.append(("i32", "*"))
        if m.group("p") == "*":
            out.append(("i32", "*"))
        if c in "diouxX":
            out.append(("i64" if ln in ("l", "ll", "j", "z", "t", "q") else "i32", m.group(0)))
        elif c == "c":
            out.append(("i32", m.group(0)))
        elif c in "sp":
            out.append(("ptr", m.group(0)))
        elif c in "eEfFgGaA":
            out.append(("float", m.group(0)))
        elif c == "n":
            return "%n writes to memory"
        elif c == "m":
            continue
        else:
            return "unknown directive " + m.group(0)


def origins(ctx, v, depth=0, seen=None):
    """where a text comes from: set of ('str', text) ('null',) ('arg', fn, idx) ('other', where)"""
    seen = seen if seen is not None else set()
    if isinstance(v, (Inst, Arg)):
        if v in seen:
            return set()
        seen.add(v)
    m = ctx.m
    if isinstance(v, Const):
        return {("null",)} if v.kind in ("null", "zero", "undef") else {("other", "a computed constant")}
    if isinstance(v, Arg):
        return {("arg", v.fn.name, v.idx)}
    if isinstance(v, GVar) or isinstance(v, CGep):
        g, off = (v, 0) if isinstance(v, GVar) else (v.base, v.off)
        if isinstance(g, GVar) and g.string is not None and (g.const or g.name.startswith(".str")):
            return {("str", g.string[off:])}
        return {("other", "the buffer %s" % getattr(g, "name", "?"))}
    if isinstance(v, Inst):
        if v.op in ("phi", "select"):
            out = set()
            for o in (v.ops if v.op == "phi" else v.ops[1:]):
                out |= origins(ctx, o, depth + 1, seen)
            return out
        if v.op in ("bitcast", "freeze"):
            return origins(ctx, v.ops[0], depth + 1, seen)
        if v.op == "load":
            base = v.ops[0]
            r = ctx.model.root(base)
            if isinstance(r, CGep):
                r = r.base
            if isinstance(r, GVar) and r.const and r._init and r.typ.kind == "array":
                out = set()
                for k in range(r.typ.n):
                    e = m.init_elem(r, k)
                    if e is None:
                        return {("other", "table " + r.name)}
                    out |= origins(ctx, e, depth + 1, seen)
                return out
            return {("other", "memory")}
        if v.op == "call" and isinstance(v.callee, Function):
            f = m.functions.get(v.callee.name)
            if f is not None and not f.decl and depth < 6:
                out = set()
                for i in f.insts():
                    if i.op == "ret" and i.ops:
                        for o in origins(ctx, i.ops[0], depth + 1, seen):
                            if o[0] == "arg" and o[1] == f.name and o[2] < len(v.ops):
                                out |= origins(ctx, v.ops[o[2]], depth + 1, seen)
                            else:
                                out.add(o)
                return out
            return {("other", "the result of " + v.callee.name)}
        return {("other", "a computed value")}
    return {("other", "an unknown value")}


def formatters(ctx):
    """(function, parameter) pairs whose text is interpreted as a format"""
    m = ctx.m
    fm = {n: {k: "va" if va else "args"} for n, (k, va) in LIBC.items()}
    ch = True
    while ch:
        ch = False
        for f in m.defined():
            for i in f.calls():
                for t in ctx.model.targets(i) if not isinstance(i.callee, Function) else {i.callee.name}:
                    for k, how in list(fm.get(t, {}).items()):
                        if k >= len(i.ops):
                            continue
                        for o in origins(ctx, i.ops[k]):
                            if o[0] == "arg" and o[1] == f.name:
                                cur = fm.setdefault(f.name, {})
                                if o[2] not in cur:
                                    # the function formats its own variable arguments if it hands on a va_list it started
                                    own = f.vararg and any(c.op == "call" and isinstance(c.callee, Function) and
                                                           c.callee.name.startswith("llvm.va_start") for c in f.insts())
                                    cur[o[2]] = "args" if own else ("va" if how == "va" else "none")
                                    ch = True
    return fm


def ty_of(v):
    if isinstance(v, (Inst, Arg)):
        return "ptr" if v.ty.kind == "ptr" else "i%d" % v.ty.bits if v.ty.kind == "int" else v.ty.kind
    if isinstance(v, Const):
        return "ptr" if v.kind in ("null",) else "i%d" % v.bits if v.bits else "float" if v.kind == "other" else "ptr"
    return "ptr"


def run(ctx):
    ctx.rule("constant", "the format argument of every formatting call is constant text of the program")
    ctx.rule("match", "every directive of a format has an argument of its kind; %n is never used")
    m = ctx.m
    fm = formatters(ctx)
    ctx.require(len([n for n in fm if n in m.functions and not m.functions[n].decl]), 6, "functions that interpret a format")
    n = 0
    for f in m.defined():
        for i in f.calls():
            ts = {i.callee.name} if isinstance(i.callee, Function) else ctx.model.targets(i)
            for t in ts:
                for k, how in fm.get(t, {}).items():
                    if k >= len(i.ops):
                        continue
                    n += 1
                    bad = None
                    texts = []
                    for o in origins(ctx, i.ops[k]):
                        if o[0] == "other":
                            bad = "the text interpreted as format by %s is %s" % (t, o[1])
                        elif o[0] == "arg" and o[1] != f.name:
                            bad = "the text interpreted as format by %s is a parameter of %s" % (t, o[1])
                        elif o[0] == "arg" and (f.name in m.address_taken or f.name == "main") and not f.vararg:
                            bad = "the text interpreted as format by %s is handed to a callback" % t
                        elif o[0] == "str":
                            texts.append(o[1])
                    ctx.ob("constant", "%s -> %s" % (f.name, t), bad is None, bad or "", i.loc())
                    if how == "va":
                        continue
                    callee = m.functions.get(t)
                    first = len(callee.args) if callee is not None and callee.args else k + 1
                    args = i.ops[first:] if how == "args" else []
                    for s in texts:
                        ks = kinds(s)
                        why = None
                        if isinstance(ks, str):
                            why = ks
                        elif len(ks) > len(args):
                            why = "%d directives but %d arguments" % (len(ks), len(args))
                        else:
                            for (want, d), a in zip(ks, args):
                                have = ty_of(a)
                                if have != want and not (want == "ptr" and have in ("i32", "i64") and isinstance(a, Const) and a.v == 0 and False) \
                                        and not (want == "float" and have in ("double", "float")):
                                    why = "directive %s is given a %s argument" % (d, have)
                                    break
                        ctx.ob("match", "%s %r" % (f.name, s[:40]), why is None, why or "", i.loc())
    ctx.require(n, 150, "formatting calls")
    ctx.assume("Format and argument widths are those of the x86-64 target the program is compiled for.")
