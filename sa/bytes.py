"""Byte-accurate texts: a text is a sequence of byte values in memory, each a constant or a symbol that stands for any
byte outside a set.  States are neither merged nor compared (the analysed loops run over texts of fixed length)."""
from .lib import *

I0 = ("i", 0)
SEP = frozenset([0, 1, 2, 10])


def B(name):
    """symbol for one arbitrary byte"""
    return ("s", "b:" + name)


class Bytes(Rule):
    max_states = 10 ** 9
    max_steps = 400000
    widen_cursor = False
    rec_limit = 1
    serial_no = 0
    special = SEP            # values an arbitrary byte does not have

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.handlers = dict(MODELS, **type(self).handlers)
        self.final = []
        self.stops = []

    def hash_state(self, st):
        Bytes.serial_no += 1
        return Bytes.serial_no

    def gc(self, st):
        pass

    def merge_key(self, q):
        return None

    max_shapes = 0           # no grouping of states

    def write(self, st, pv, v, field):
        ob = self.obj_of(pv)
        # objects are distinct and offsets constant: no other cell can be meant
        if ob is not None and isinstance(ob[1], int) and ob[0][0] in ("h", "al") and v != TOP:
            st.mem[ob] = v
            if field:
                st.fields[ob] = field
            else:
                st.fields.pop(ob, None)
            return
        super().write(st, pv, v, field)

    def fact(self, st, sid):
        f = st.facts.get(sid)
        if f is None and isinstance(sid, str) and sid.startswith("b:"):
            return (-128, 127, self.special)
        return super().fact(st, sid)

    def on_return(self, st, inst, val):
        self.final.append((st, val))

    def on_stop(self, st, inst, name, args):
        self.stops.append((st.copy_full(), name, args, inst))

    def call_fn(self, st, name, args):
        fn = self.m.fn(name)
        self.final = []
        s0 = st

        def setup(s):
            s.mem.update(s0.mem)
            s.fields.update(s0.fields)
            s.facts.update(s0.facts)
            s.rel.update(s0.rel)
            s.q = s0.q
            s.esc = s0.esc
            s.trace = s0.trace
        self.run(fn, args, q=s0.q, setup=setup)
        out, self.final = self.final, []
        return out

    # ---- texts
    def place(self, st, ptr, bs, end=True):
        ob, off = self.obj_of(ptr)
        for k, b in enumerate(list(bs) + ([I0] if end else [])):
            st.mem[(ob, off + k)] = b
            st.fields.pop((ob, off + k), None)

    def new_text(self, st, name, bs):
        p = ("p", ("h", "t", name), 0)
        self.place(st, p, bs)
        return p

    def byte(self, st, ob, off):
        v = st.mem.get((ob, off))
        if v is not None:
            return v
        if ob[0] == "g":
            g = self.m.globals.get(ob[1])
            if g is not None and g.string is not None:
                if off < len(g.string):
                    c = ord(g.string[off])
                    return ("i", c if c < 128 else c - 256)
                return I0 if off == len(g.string) else None
        if ("zero", ob) in st.mem or ob[0] == "z":
            return I0
        return None

    def get(self, st, ptr, n=None):
        """bytes of the text at ptr up to its end (or n bytes); None if they are not known"""
        o = self.obj_of(ptr)
        if o is None or not isinstance(o[1], int):
            return None
        ob, off = o
        out = []
        while n is None or len(out) < n:
            b = self.byte(st, ob, off + len(out))
            if b is None:
                return None
            if n is None:
                nz = self.nonzero(st, b)
                if nz is False:
                    return tuple(out)
                if nz is None:
                    return None
            out.append(b)
            if len(out) > 100000:
                return None
        return tuple(out)

    def const(self, v):
        return v[1] if v[0] == "i" else None


def txt(s):
    return tuple(("i", ord(c) if ord(c) < 128 else ord(c) - 256) for c in s)


def same(e, st, a, b):
    return e.decide(st, "eq", a, b)


# ---- models of the C library on byte texts -------------------------------------------------------------------------------
def m_strlen(e, st, inst, args):
    t = e.get(st, args[0])
    return None if t is None else [(("i", len(t)), st)]


def m_cpy(e, st, inst, args):
    n = e.const(args[2])
    if n is None:
        return None
    t = e.get(st, args[1], n)
    if t is None or e.obj_of(args[0]) is None:
        return None
    e.place(st, args[0], t, end=False)
    return [(args[0], st)]


def m_strcpy(e, st, inst, args):
    t = e.get(st, args[1])
    if t is None or e.obj_of(args[0]) is None:
        return None
    e.place(st, args[0], t)
    return [(args[0], st)]


def m_strncpy(e, st, inst, args):
    t, n = e.get(st, args[1]), e.const(args[2])
    if t is None or n is None or e.obj_of(args[0]) is None:
        return None
    e.place(st, args[0], t[:n], end=len(t) < n)
    return [(args[0], st)]


def m_strcat(e, st, inst, args):
    a, b = e.get(st, args[0]), e.get(st, args[1])
    if a is None or b is None:
        return None
    e.place(st, args[0], a + b)
    return [(args[0], st)]


def m_chr(e, st, inst, args):
    """strchr / strrchr / memchr on decided bytes"""
    name = e.model.base(inst.callee.name)
    n = e.const(args[2]) if name == "memchr" else None
    t = e.get(st, args[0], n)
    if t is None:
        return None
    if name != "memchr":
        t = t + (I0,)
    c = ("i", (args[1][1] + 128) % 256 - 128) if args[1][0] == "i" else args[1]
    idx = range(len(t)) if name != "strrchr" else range(len(t) - 1, -1, -1)
    for k in idx:
        r = same(e, st, t[k], c)
        if r is None:
            return None
        if r:
            return [(e.add_off(args[0], k), st)]
    return [(NULL, st)]


def m_span(e, st, inst, args):
    t, s = e.get(st, args[0]), e.get(st, args[1])
    if t is None or s is None:
        return None
    want = e.model.base(inst.callee.name) == "strspn"
    for k, b in enumerate(t):
        rs = [same(e, st, b, c) for c in s]
        if True in rs:
            hit = True
        elif None in rs:
            return None
        else:
            hit = False
        if hit != want:
            return [(("i", k), st)]
    return [(("i", len(t)), st)]


def m_cmp(e, st, inst, args):
    name = e.model.base(inst.callee.name)
    n = e.const(args[2]) if len(args) > 2 else None
    if len(args) > 2 and n is None:
        return None
    a = e.get(st, args[0], n if name == "memcmp" else None)
    b = e.get(st, args[1], n if name == "memcmp" else None)
    if a is None or b is None:
        return None
    if name != "memcmp":
        a, b = a + (I0,), b + (I0,)
    if n is not None:
        a, b = a[:n], b[:n]
    for x, y in zip(a, b):
        r = same(e, st, x, y)
        if r is None:
            return None
        if not r:
            return [(("i", 1), st)]
    return [(NULL if len(a) == len(b) else ("i", 1), st)]


def m_dup(e, st, inst, args):
    t = e.get(st, args[-1] if e.obj_of(args[-1]) else args[0])
    if t is None:
        return None
    e.dups = getattr(e, "dups", 0) + 1
    return [(e.new_text(st, "dup%d" % e.dups, t), st)]


def expand(e, st, fmt, args):
    """bytes printed by a format, None if they are not known"""
    f = e.get(st, fmt)
    if f is None or any(b[0] != "i" for b in f):
        return None
    s = "".join(chr(b[1] & 255) for b in f)
    out, i, args = [], 0, list(args)
    while i < len(s):
        if s[i] != "%":
            out += txt(s[i])
            i += 1
            continue
        j = i + 1
        while j < len(s) and s[j] in "-+ #0123456789.*hlzjt":
            j += 1
        conv, mods = s[j], s[i + 1:j]
        i = j + 1
        if conv == "%":
            out += txt("%")
            continue
        prec = None
        if "*" in mods:
            prec = e.const(args.pop(0))
            if prec is None:
                return None
        elif mods.strip("hlzjt") not in ("",):
            if mods.startswith(".") and mods[1:].isdigit():
                prec = int(mods[1:])
            else:
                return None
        a = args.pop(0)
        if conv == "c":
            out.append(a if a[0] != "i" else ("i", (a[1] + 128) % 256 - 128))
        elif conv == "s":
            t = e.get(st, a)
            if t is None:
                return None
            out += t[:prec] if prec is not None else t
        elif conv in "diu":
            if a[0] == "i":
                out += txt(str(a[1]))
            else:
                out.append(("s", "b:dec:%s" % (a[1],)) if a[0] == "s" and isinstance(a[1], str) else None)
                if out[-1] is None:
                    return None
        else:
            return None
    return tuple(out)


def emit(e, st, f, bs):
    """write to the stream"""
    k = (("D", "stream"), 0)
    cur = st.mem.get(k, ("B",))
    pos = st.mem.get((("D", "pos"), 0), I0)[1]
    mode = st.mem.get((("D", "mode"), 0), ("s", "a"))[1]
    c = cur[1:]
    if mode[0] == "a":
        c = c + tuple(bs)
        pos = len(c)
    else:
        c = c[:pos] + tuple(bs) + c[pos + len(bs):]
        pos += len(bs)
    st.mem[k] = ("B",) + c
    st.mem[(("D", "pos"), 0)] = ("i", pos)


def m_fprintf(e, st, inst, args):
    bs = expand(e, st, args[1], args[2:])
    if bs is None:
        e.lost(st, inst, "text written to the record is not known")
        return [(("i", -1), st)]
    emit(e, st, args[0], bs)
    return [(("i", len(bs)), st)]


def m_fputs(e, st, inst, args):
    t = e.get(st, args[0])
    if t is None:
        e.lost(st, inst, "text written to the record is not known")
        return [(("i", -1), st)]
    emit(e, st, args[1], t)
    return [(("i", 1), st)]


def m_fputc(e, st, inst, args):
    c = args[0]
    emit(e, st, args[1], (("i", (c[1] + 128) % 256 - 128) if c[0] == "i" else c,))
    return [(("i", 1), st)]


def m_fwrite(e, st, inst, args):
    a, b = e.const(args[1]), e.const(args[2])
    t = e.get(st, args[0], a * b) if a is not None and b is not None else None
    if t is None:
        e.lost(st, inst, "text written to the record is not known")
        return [(NULL, st)]
    emit(e, st, args[3], t)
    return [(args[2], st)]


def m_snprintf(e, st, inst, args):
    bs = expand(e, st, args[2], args[3:])
    n = e.const(args[1])
    if bs is None or n is None or e.obj_of(args[0]) is None:
        return None
    if n:
        e.place(st, args[0], bs[:n - 1])
    return [(("i", len(bs)), st)]


def m_fgets(e, st, inst, args):
    c = st.mem.get((("D", "stream"), 0), ("B",))[1:]
    pos = st.mem.get((("D", "pos"), 0), I0)[1]
    n = e.const(args[1])
    if n is None:
        n = 10 ** 9
    out = []
    while pos < len(c) and len(out) < n - 1:
        b = c[pos]
        pos += 1
        out.append(b)
        if b == ("i", 10):
            break
    st.mem[(("D", "pos"), 0)] = ("i", pos)
    if not out:
        st.mem[(("D", "eof"), 0)] = ("i", 1)
        return [(NULL, st)]
    e.place(st, args[0], out)
    return [(args[0], st)]


def m_getline(e, st, inst, args):
    c = st.mem.get((("D", "stream"), 0), ("B",))[1:]
    pos = st.mem.get((("D", "pos"), 0), I0)[1]
    out = []
    while pos < len(c):
        out.append(c[pos])
        pos += 1
        if out[-1] == ("i", 10):
            break
    st.mem[(("D", "pos"), 0)] = ("i", pos)
    if not out:
        return [(("i", -1), st)]
    e.lines_no = getattr(e, "lines_no", 0) + 1
    p = e.new_text(st, "line%d" % e.lines_no, out)
    if e.obj_of(args[0]):
        st.mem[e.obj_of(args[0])] = p
    return [(("i", len(out)), st)]


def m_ftell(e, st, inst, args):
    return [(st.mem.get((("D", "pos"), 0), I0), st)]


def m_fseek(e, st, inst, args):
    c = st.mem.get((("D", "stream"), 0), ("B",))[1:]
    w, o = e.const(args[2]), e.const(args[1])
    if w is None or o is None:
        return [(("i", -1), st)]
    base = {0: 0, 1: st.mem.get((("D", "pos"), 0), I0)[1], 2: len(c)}[w]
    st.mem[(("D", "pos"), 0)] = ("i", base + o)
    return [(NULL, st)]


def m_fopen(e, st, inst, args):
    m = e.string(args[1]) or "a+"
    st.mem[(("D", "mode"), 0)] = ("s", m)
    if m[0] == "w":
        st.mem[(("D", "stream"), 0)] = ("B",)
    st.mem[(("D", "pos"), 0)] = I0
    st.mem.pop((("D", "eof"), 0), None)
    return [(("p", ("h", "FILE"), 0), st)]


def m_strtol(e, st, inst, args):
    """decimal number: digits, or the symbol of a printed number"""
    t = e.get(st, args[0])
    if t is None:
        return None
    k = 0
    while k < len(t) and t[k][0] == "i" and (t[k][1] == 32 or 9 <= t[k][1] <= 13):
        k += 1
    val, end = NULL, 0
    if k < len(t) and t[k][0] == "s" and isinstance(t[k][1], str) and t[k][1].startswith("b:dec:"):
        val, end = ("s", t[k][1][6:]), k + 1
    else:
        j = k + 1 if k < len(t) and t[k] in (("i", 45), ("i", 43)) else k
        d = j
        while d < len(t) and t[d][0] == "i" and 48 <= t[d][1] <= 57:
            d += 1
        if d < len(t) and t[d][0] == "s" and d > j:
            e.lost(st, inst, "a number is followed by unknown text")
        if d > j:
            val, end = ("i", int("".join(chr(b[1]) for b in t[k:d]))), d
    if len(args) > 1 and e.obj_of(args[1]):
        st.mem[e.obj_of(args[1])] = e.add_off(args[0], end)
    return [(val, st)]


# dynamic strings
def xs_new(e, st, inst, args):
    e.xno = getattr(e, "xno", 0) + 1
    x = ("p", ("h", "X", e.xno), 0)
    xs_set(e, st, x, ())
    return [(x, st)]


def xs_set(e, st, x, bs):
    t = ("p", ("h", "XT") + x[1][1:], 0)
    e.place(st, t, bs)
    e.set_cell(st, x, "xstr", "ptr", t)
    e.set_cell(st, x, "xstr", "size", ("i", len(bs)))


def xs_text(e, st, x):
    p = e.get_cell(st, x, "xstr", "ptr") if e.obj_of(x) else None
    n = e.get_cell(st, x, "xstr", "size") if e.obj_of(x) else None
    if p is None or n is None or n[0] != "i":
        return None
    return e.get(st, p, n[1])


def xs_add(e, st, x, bs):
    t = xs_text(e, st, x)
    if t is None or bs is None:
        return False
    xs_set(e, st, x, t + tuple(bs))
    return True


def xs_cat(e, st, inst, args):
    return [(TOP, st)] if args[1] == NULL or xs_add(e, st, args[0], e.get(st, args[1])) else None


def xs_cat2(e, st, inst, args):
    n = e.const(args[2])
    return [(TOP, st)] if n is not None and xs_add(e, st, args[0], e.get(st, args[1], n)) else None


def xs_printf(e, st, inst, args):
    return [(NULL, st)] if xs_add(e, st, args[0], expand(e, st, args[1], args[2:])) else None


def xs_part(k):
    def h(e, st, inst, args):
        v = e.get_cell(st, args[0], "xstr", k) if e.obj_of(args[0]) else None
        return None if v is None else [(v, st)]
    return h


def m_asprintf(e, st, inst, args):
    bs = expand(e, st, args[1], args[2:])
    if bs is None:
        return None
    e.dups = getattr(e, "dups", 0) + 1
    return [(e.new_text(st, "dup%d" % e.dups, bs), st)]


def const_result(v):
    return lambda e, st, inst, args: [(v, st)]


MODELS = {"strlen": m_strlen, "memcpy": m_cpy, "memmove": m_cpy, "mempcpy": m_cpy, "strcpy": m_strcpy, "strncpy": m_strncpy, "strcat": m_strcat,
          "strchr": m_chr, "strrchr": m_chr, "memchr": m_chr, "strcspn": m_span, "strspn": m_span, "strcmp": m_cmp, "strncmp": m_cmp,
          "memcmp": m_cmp, "strdup": m_dup, "xstrdup": m_dup, "pool_strdup": m_dup, "fprintf": m_fprintf, "fputs": m_fputs, "fputc": m_fputc,
          "putc": m_fputc, "fwrite": m_fwrite, "snprintf": m_snprintf, "sprintf": None, "fgets": m_fgets, "getline": m_getline,
          "ftell": m_ftell, "ftello": m_ftell, "fseek": m_fseek, "fseeko": m_fseek, "fopen": m_fopen, "fclose": const_result(NULL),
          "fflush": const_result(NULL), "ferror": const_result(NULL), "strtoll": m_strtol, "strtol": m_strtol, "strtoimax": m_strtol,
          "__isoc23_strtoll": m_strtol, "__isoc23_strtol": m_strtol,
          "_log": const_result(TOP), "akinfo": const_result(TOP), "_akerror": const_result(TOP)}
MODELS.update({"xstr_create": xs_new, "xstr_create_empty": xs_new, "xstr_cat": xs_cat, "xstr_cat2": xs_cat2, "xstr_printf": xs_printf,
               "xstr_ptr": xs_part("ptr"), "xstr_size": xs_part("size"), "xstr_destroy_keep_ptr": xs_part("ptr"),
               "xstr_destroy": const_result(TOP), "pool_printf": m_asprintf, "free": const_result(TOP), "pool_destroy": const_result(TOP)})
MODELS = {k: v for k, v in MODELS.items() if v is not None}
for _n in ("memcpy", "memmove"):
    for _s in (".p0.p0.i64", ".p0.p0.i32", ".p0i8.p0i8.i64"):
        MODELS["llvm.%s%s" % (_n, _s)] = m_cpy
