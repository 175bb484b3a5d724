"""P03: staleness verdicts.  Scenario analysis of the verdict function for each record kind and each outcome of the
file status / variable lookup / comparison (finite orderings), of the record reader for damaged records, and of the
resolve driver for the decision to re-run."""
from sa.lib import *

TECHNIQUE = "path-sensitive scenario analysis of LLVM IR (finite case split over record kinds and outcomes)"
LEVEL_NOTE = ("All paths of the verdict function, the record reader, the file status wrapper and the resolve driver for every record kind and "
              "every outcome of the examined thing. Trusts the clang front end; file times and contents are abstracted to an ordering and an equality.")

TYPES = {"FILE": 102, "FILE_OUTDATED": 111, "NODE_VALUE": 118, "ENV": 101, "SYS_ENV": 115, "ALIAS": 97, "OUTDATED": 120}
UNKNOWN = {"garbage": 122, "nul": 0, "newline": 10}


def m_cmp(self, st, inst, args):
    r = m_strcmp(self, st, inst, args)
    if r is not None:
        return r
    pair = frozenset(args[:2])
    for p, eq in st.q[1]:
        if p == pair:
            return [(NULL if eq else ("i", 1), st)]
    s2 = st.copy()
    st.q = (st.q[0], st.q[1] | {(pair, True)})
    s2.q = (s2.q[0], s2.q[1] | {(pair, False)})
    return [(NULL, st), (("i", 1), s2)]


class Verdict(Rule):
    """q = (stat outcome or lookup outcome, {(operands, equal?)})"""

    def h_stat(self, st, inst, args):
        d = args[0]
        if d != self.expect_path:
            self.report("verdict", self.kind, "status of the wrong path is examined", st, inst)
        outs = []
        for oc in ("fail", "absent", "older", "same", "newer"):
            s = st.copy()
            s.q = (oc, s.q[1])
            if oc == "fail":
                rv = self.fresh(s, inst, "rc", ne=frozenset([0]))
                self.clobber_obj(s, self.obj_of(args[1])[0])
            else:
                rv = NULL
                self.clobber_obj(s, self.obj_of(args[1])[0])
                self.set_cell(s, args[1], "akpath_stat", "mtime", S("MT"))
                if oc == "absent":
                    self.set_cell(s, args[1], "akpath_stat", "ftype", ("i", self.not_exists))
                    self.set_cell(s, args[1], "akpath_stat", "mtime", NULL)
                else:
                    ft = self.fresh(s, inst, "ft", ne=frozenset([self.not_exists]))
                    self.set_cell(s, args[1], "akpath_stat", "ftype", ft)
                    r = {"older": "<", "same": "=", "newer": ">"}[oc]
                    s.rel[("MT", "SER")] = frozenset(r)
                    s.rel[("SER", "MT")] = frozenset({"<": ">", ">": "<", "=": "="}[r])
            outs.append((rv, s))
        return outs

    def h_mtime(self, st, inst, args):
        # path_mtime: 0 when it cannot be examined
        outs = []
        for oc in ("absent", "older", "same", "newer"):
            s = st.copy()
            s.q = (oc, s.q[1])
            if oc == "absent":
                outs.append((NULL, s))
                continue
            r = {"older": "<", "same": "=", "newer": ">"}[oc]
            s.rel[("MT", "SER")] = frozenset(r)
            s.rel[("SER", "MT")] = frozenset({"<": ">", ">": "<", "=": "="}[r])
            outs.append((S("MT"), s))
        return outs

    def h_lookup(self, st, inst, args):
        s2 = st.copy()
        if self.kind == "SYS_ENV" and inst.callee.name != "getenv":
            self.report("verdict", self.kind, "system environment variable looked up by %s" % inst.callee.name, st, inst)
        st.q = ("defined", st.q[1])
        s2.q = ("undefined", s2.q[1])
        if (S("ALIAS")) not in args:
            self.report("verdict", self.kind, "lookup of something else than the recorded name", st, inst)
        return [(S("VAL"), st), (NULL, s2)]

    handlers = {"path_stat": h_stat, "path_mtime": h_mtime, "strcmp": m_cmp, "unit_env_get": h_lookup,
                "node_env_get": h_lookup, "getenv": h_lookup}

    def q_syms(self, q):
        return frozenset(["MT", "SER"])

    def on_return(self, st, inst, val):
        self.paths += 1
        v = self.nonzero(st, val)
        k = self.kind
        oc, cmps = st.q
        want = None
        why = ""
        if k in ("FILE", "ALIAS"):
            if oc is None:
                want, why = True, "the file was not examined"
            elif oc in ("fail", "absent", "newer"):
                want, why = True, {"fail": "file cannot be examined", "absent": "file is missing", "newer": "file is newer than recorded"}[oc]
            elif oc == "same":
                want, why = False, "file is unchanged"
            else:
                return
        elif k in ("ENV", "SYS_ENV"):
            cur = S("VAL") if oc == "defined" else None
            eqs = []
            for p, eq in cmps:
                if S("RES") in p:
                    other = [x for x in p if x != S("RES")]
                    if cur is not None and other == [cur]:
                        eqs.append(eq)
                    elif cur is None and other and self.string(other[0]) == "":
                        eqs.append(eq)
            if oc is None:
                want, why = True, "the variable was not looked up"
            elif not eqs:
                want, why = True, "the %s value was not compared with the recorded one" % oc
                if oc == "undefined":
                    # undefined and no comparison: changed unless recorded empty; only 'outdated' is acceptable
                    want = True
            else:
                want, why = not eqs[0], "current value %s the recorded one" % ("equals" if eqs[0] else "differs from")
        elif k == "OUTDATED":
            want, why = True, "always-outdated marker"
        else:
            want, why = True, "record kind is not one that can be verified here"
        if v is not want:
            self.report("verdict", k, "%s, but the answer is %s" % (
                why, {True: "'outdated'", False: "'fresh'", None: "not determined by it"}[v]), st, inst)
        self.cases.add((k, oc, tuple(sorted(str(e) for _, e in cmps))))


def verdicts(ctx):
    ctx.rule("verdict", "for every record kind and every outcome of examining it, the verdict is 'outdated' exactly when the "
             "thing is missing, unreadable, newer/different, or of unknown kind")
    fn = ctx.m.fn("deps_cur_is_outdated")
    cases = set()
    kinds = dict(TYPES)
    kinds.update(UNKNOWN)
    for k, code in kinds.items():
        e = Verdict(ctx)
        e.kind = k if k in TYPES else "unknown(%s)" % k
        e.cases = cases
        e.paths = 0
        e.not_exists = not_exists_code(ctx)
        e.expect_path = S("RES") if k == "FILE" else S("ALIAS")
        dptr = S("DEPS")

        def setup(st, e=e, code=code):
            st.facts["DEPS"] = (None, None, frozenset([0]))
            st.facts["SER"] = (0, None, frozenset())
            st.facts["MT"] = (0, None, frozenset())
            for s in ("RES", "ALIAS", "VAL"):
                st.facts[s] = (None, None, frozenset([0]))
            e.set_cell(st, dptr, "deps", "type", ("i", code))
            e.set_cell(st, dptr, "deps", "resource", S("RES"))
            e.set_cell(st, dptr, "deps", "alias", S("ALIAS"))
            e.set_cell(st, dptr, "deps", "serial", S("SER"))
        args = [None] * len(fn.args)
        args[-1] = dptr
        e.run(fn, args, q=(None, frozenset()), setup=setup)
        ctx.count("verdict paths", e.paths)
        if e.paths == 0:
            raise AnalysisBroken("no path through the verdict function for kind " + k)
        for r in e.bad:
            ctx.ob(r[0], r[1], False, r[2], r[3], r[4])
        if not e.bad:
            ctx.ob("verdict", e.kind, True, "%d paths" % e.paths, fn.loc())
    ctx.counts["verdict scenarios"] = len(cases)


def not_exists_code(ctx):
    # the value path_stat stores into ftype when stat(2) says the file does not exist
    return NOT_EXISTS


NOT_EXISTS = 0


class StatRule(Rule):
    """q = (errno class or 'ok', )"""

    def h_stat(self, st, inst, args):
        outs = []
        s = st.copy()
        s.q = "ok"
        if len(args) > 1 and self.obj_of(args[1]):
            self.clobber_obj(s, self.obj_of(args[1])[0])
        outs.append((NULL, s))
        for e, name in ((2, "ENOENT"), (20, "ENOTDIR"), (13, "EACCES"), (5, "EIO"), (40, "ELOOP")):
            s = st.copy()
            s.q = name
            s.mem[(("errno",), 0)] = ("i", e)
            outs.append((("i", -1), s))
        return outs

    handlers = {"stat": h_stat, "lstat": h_stat, "fstat": h_stat, "fstatat": h_stat}

    def on_return(self, st, inst, val):
        self.paths += 1
        nz = self.nonzero(st, val)
        ft = self.get_cell(st, S("OUT"), "akpath_stat", "ftype")
        if ft is None and ("zero", ("o", "OUT")) in st.mem:
            ft = NULL
        if st.q == "ok":
            if nz is not False:
                self.report("stat", "existing file", "an existing file is reported as an error", st, inst)
            elif ft is not None and self.decide(st, "eq", ft, ("i", NOT_EXISTS)) is not False:
                self.report("stat", "existing file", "an existing file may be reported as missing", st, inst)
        elif st.q is not None:
            if nz is not True and not (ft is not None and self.decide(st, "eq", ft, ("i", NOT_EXISTS)) is True):
                self.report("stat", st.q, "a file that cannot be examined is reported as existing", st, inst)


def stat_rule(ctx):
    ctx.rule("stat", "a failing stat(2) is reported as an error or as a missing file, a succeeding one as an existing file")
    fn = ctx.m.fn("path_stat")
    e = StatRule(ctx)
    e.paths = 0

    def setup(st):
        st.facts["OUT"] = (None, None, frozenset([0]))
    e.run(fn, [S("PATH"), S("OUT")], q=None, setup=setup, facts={"PATH": (None, None, frozenset([0]))})
    if e.paths < 3:
        raise AnalysisBroken("path_stat: too few paths")
    for r in e.bad:
        ctx.ob(*r[:3][:2], False, r[2], r[3], r[4])
    if not e.bad:
        ctx.ob("stat", "path_stat", True, "%d paths" % e.paths, fn.loc())
    # modification time carries the sub-second part
    ctx.rule("mtime-resolution", "the modification time compared with the recorded stamp is derived from the seconds and the "
             "sub-second part of the file's time")
    ok = mtime_sources(ctx)
    ctx.ob("mtime-resolution", "path_stat", ok, "" if ok else "sub-second or second part does not reach akpath_stat.mtime", fn.loc())


def slice_fields(ctx, v, depth=0, seen=None):
    """fields of loads that feed a value (through arithmetic, phis, calls' arguments of internal helpers)"""
    seen = seen if seen is not None else set()
    out = set()
    if v in seen or depth > 40:
        return out
    seen.add(v)
    if isinstance(v, Inst):
        if v.op == "load":
            r = ctx.model.struct_ref(v.ops[0])
            if r:
                out.add(r)
            root = ctx.model.root(v.ops[0])
            if isinstance(root, Inst) and root.op == "alloca":
                # values stored into the same alloca slot
                for i in v.fn.insts():
                    if i.op == "store" and ctx.model.root(i.ops[1]) is root and ctx.model.struct_ref(i.ops[1]) == r:
                        out |= slice_fields(ctx, i.ops[0], depth + 1, seen)
            return out
        if v.op == "call" and isinstance(v.callee, Function) and not v.callee.decl:
            for i in v.callee.insts():
                if i.op == "ret" and i.ops:
                    out |= slice_fields(ctx, i.ops[0], depth + 1, seen)
        for o in v.ops:
            out |= slice_fields(ctx, o, depth + 1, seen)
    elif isinstance(v, Arg):
        for c in ctx.model.direct_calls(v.fn.name):
            if v.idx < len(c.ops):
                out |= slice_fields(ctx, c.ops[v.idx], depth + 1, seen)
    return out


def mtime_sources(ctx):
    found = False
    for f in ctx.m.defined():
        for i in f.insts():
            if i.op == "store" and ctx.model.ptr_field(i.ops[1]) == "akpath_stat.mtime":
                fs = slice_fields(ctx, i.ops[0])
                names = {ctx.m.field(*r) for r in fs}
                offs = {r[1] for r in fs if r[0] in ("stat", "timespec")}
                # struct stat: st_mtim.tv_sec at 88, tv_nsec at 96 (x86-64); via timespec 0/8
                if (88 in offs and 96 in offs) or {"timespec.tv_sec", "timespec.tv_nsec"} <= names:
                    found = True
    return found


class Reader(Rule):
    """record reader: q = (line read?, stamp parsed: None/ok/bad)"""

    def h_fgets(self, st, inst, args):
        eof, err = st.copy(), st.copy()
        st.q = (True, None)
        eof.q = (False, None)
        err.q = ("error", None)
        # the line buffer has unknown content now
        ob = self.obj_of(args[0])
        if ob:
            for k in list(st.mem):
                if k[0] == ob[0] and st.fields.get(k, "").startswith("deps.buf"):
                    del st.mem[k]
                    st.fields.pop(k, None)
        return [(args[0], st), (NULL, eof), (NULL, err)]

    def h_ferror(self, st, inst, args):
        return [(("i", 1 if st.q[0] == "error" else 0), st)]

    def h_feof(self, st, inst, args):
        return [(("i", 1 if st.q[0] is False else 0), st)]

    def h_strtoll(self, st, inst, args):
        s2 = st.copy()
        st.q = (st.q[0], "ok")
        s2.q = (s2.q[0], "bad")
        rcp = args[2] if len(args) > 2 else None
        out = []
        for s, rc in ((st, NULL), (s2, None)):
            if rcp is not None and self.obj_of(rcp):
                v = rc if rc is not None else self.fresh(s, inst, "rc", ne=frozenset([0]))
                s.mem[self.obj_of(rcp)] = v
            val = S("PARSED") if rc is not None else NULL
            out.append((val, s))
        return out

    handlers = {"fgets": h_fgets, "getline": h_fgets, "ferror": h_ferror, "feof": h_feof, "utils_strtoll": h_strtoll, "utils_strtol": h_strtoll,
                "utils_chars_replace": lambda self, st, inst, args: [(TOP, st)]}

    def on_return(self, st, inst, val):
        self.paths += 1
        read, parsed = st.q
        v = self.nonzero(st, val)
        D = S("D")
        if not read:
            if v is not False:
                self.report("reader", "end of file", "end of file is not reported", st, inst)
            return
        if read == "error":
            if v is not True:
                self.report("reader", "read error", "a read error is taken for the end of the record, so the remaining "
                            "dependencies are never checked", st, inst)
            elif self.get_cell(st, D, "deps", "type") != ("i", TYPES["OUTDATED"]):
                self.report("reader", "read error", "an unread record does not count as outdated", st, inst)
            return
        if v is not True:
            self.report("reader", "damaged record", "a record that was read is dropped as if the file ended there, so "
                        "the dependencies after it are never checked", st, inst)
            return
        self.recs += 1
        t = self.get_cell(st, D, "deps", "type")
        res = self.get_cell(st, D, "deps", "resource")
        ser = self.get_cell(st, D, "deps", "serial")
        for name, code in TYPES.items():
            s2 = st.copy()
            if t is None or t == TOP:
                self.report("reader", "kind", "record kind unknown after reading", st, inst)
                return
            if not self.assume_cmp(s2, "eq", t, ("i", code)):
                continue
            if name in ("FILE_OUTDATED", "OUTDATED"):
                continue
            if name in ("FILE", "ALIAS") and (ser != S("PARSED") or parsed != "ok"):
                self.report("reader", "stamp of " + name, "a record of this kind is returned without its stamp having been "
                            "parsed successfully from this line", st, inst)
            if res is None or self.nonzero(s2, res) is not True:
                self.report("reader", "resource of " + name, "a record of this kind may be returned without a resource", st, inst)
            if name in ("ALIAS", "ENV", "SYS_ENV"):
                al = self.get_cell(st, D, "deps", "alias")
                if al is None or self.nonzero(s2, al) is not True:
                    self.report("reader", "name of " + name, "a record of this kind may be returned without its name", st, inst)


def reader(ctx):
    ctx.rule("reader", "every line read yields a record (never end-of-file); a record of a verifiable kind is only "
             "returned with all its parts parsed from that line")
    fn = ctx.m.fn("deps_cur_next")
    e = Reader(ctx)
    e.paths = e.recs = 0
    e.max_states = 60

    def setup(st):
        st.facts["D"] = (None, None, frozenset([0]))
        e.set_cell(st, S("D"), "deps", "file", S("FILE"))
        st.facts["FILE"] = (None, None, frozenset([0]))
    e.run(fn, [S("D")], q=(False, None), setup=setup)
    if e.paths < 2 or e.recs < 1:
        raise AnalysisBroken("record reader: no record is ever returned")
    subj = set()
    for r in e.bad:
        ctx.ob(r[0], r[1], False, r[2], r[3], r[4])
        subj.add(r[1])
    if not e.bad:
        ctx.ob("reader", "deps_cur_next", True, "%d paths, %d returning a record" % (e.paths, e.recs), fn.loc())


class Resolve(Rule):
    """q = (opened, checked-any, pending record state, any outdated, resolved)
    pending: None | 'unverified' | 'fresh' | 'stale'"""
    max_states = 200

    def settle(self, st):
        o, n, p, a, r = st.q
        if p in ("unverified", "stale"):
            a = True
        st.q = (o, n, None, a, r)

    def h_open(self, st, inst, args):
        D = args[-1]
        s2 = st.copy()
        for s in (st, s2):
            ob = self.obj_of(D)
            if ob:
                self.clobber_obj(s, ob[0])
        st.q = ("ok",) + st.q[1:]
        s2.q = ("failed",) + s2.q[1:]
        return [(NULL, st), (self.fresh(s2, inst, "rc", ne=frozenset([0])), s2)]

    def h_next(self, st, inst, args):
        self.settle(st)
        D = args[0]
        s2 = st.copy()
        for s in (st,):
            ob = self.obj_of(D)
            if ob:
                for mem in ("type", "flags", "serial", "resource", "alias"):
                    s.mem.pop(self.obj_of(self.add_off(D, self.offset("deps", mem))), None)
        o, n, p, a, r = st.q
        st.q = (o, True, "unverified", a, r)
        # kinds: an evaluated value, or another one
        out = []
        s3 = st.copy()
        self.set_cell(st, D, "deps", "type", ("i", TYPES["NODE_VALUE"]))
        self.set_cell(s3, D, "deps", "type", self.fresh(s3, inst, "type", -128, 127, frozenset([TYPES["NODE_VALUE"]])))
        for s in (st, s3):
            self.set_cell(s, D, "deps", "resource", self.fresh(s, inst, "res", ne=frozenset([0])))
        return [(("i", 1), st), (("i", 1), s3), (NULL, s2)]

    def mark(self, st, v):
        o, n, p, a, r = st.q
        st.q = (o, n, v, a, r)

    def h_verdict(self, st, inst, args):
        s2 = st.copy()
        self.mark(st, "stale")
        self.mark(s2, "fresh")
        return [(("i", 1), st), (NULL, s2)]

    def h_cmp(self, st, inst, args):
        r = m_strcmp(self, st, inst, args)
        if r is not None:
            return r
        s2 = st.copy()
        isval = any((a[0] == "s" and isinstance(a[1], tuple) and a[1][-1] == "nodeval") or self.string(a) == "" for a in args)
        if isval:
            self.mark(st, "fresh")
            self.mark(s2, "stale")
        elif st.q[3]:
            # comparison with a resource already found outdated: nothing more to learn
            self.mark(st, "fresh")
        return [(NULL, st), (("i", 1), s2)]

    def h_node_value(self, st, inst, args):
        s2 = st.copy()
        return [(self.fresh(st, inst, "nodeval", ne=frozenset([0])), st), (NULL, s2)]

    def on_icall(self, st, inst, field, args):
        if field == "node_resolve.on_resolve":
            self.settle(st)
            o, n, p, a, r = st.q
            if r:
                self.report("decide", "re-run twice", "the rule may be executed twice in one resolution", st, inst)
            st.q = (o, n, p, a, True)
            fresh_all = o == "ok" and n and not a
            if fresh_all and not st.facts.get("FORCED_YES"):
                self.report("decide", "fresh rule", "a rule whose recorded dependencies are all fresh is executed again", st, inst)
            self.nres += 1
            return [(TOP, st)]
        if field in ("node_resolve.on_init", "node_resolve.on_env_value"):
            return [(TOP, st)]
        return None

    def on_return(self, st, inst, val):
        self.settle(st)
        o, n, p, a, r = st.q
        self.paths += 1
        need = (o != "ok") or not n or a
        if need and not r:
            why = ("no usable dependency record exists" if o != "ok" else "the dependency record is empty" if not n else
                   "a recorded dependency is outdated or was not verified")
            self.report("decide", why, "the rule is skipped", st, inst)


def resolve(ctx):
    ctx.rule("decide", "the driver executes the rule exactly when there is no record, the record is empty, or some entry "
             "was found outdated or not verified")
    fn = ctx.m.fn("node_resolve")
    if not any(ctx.model.icall_field(i) == "node_resolve.on_resolve" for f in ctx.m.defined() for i in f.calls()):
        raise AnalysisBroken("no call of the resolve callback")
    for forced in (False, True):
        e = Resolve(ctx)
        e.paths = e.nres = 0
        e.handlers = dict(ulist_models())
        e.handlers.update({"deps_open": Resolve.h_open, "deps_cur_next": Resolve.h_next, "deps_cur_is_outdated": Resolve.h_verdict,
                           "strcmp": Resolve.h_cmp, "node_value": Resolve.h_node_value})
        R = S("R")

        def setup(st):
            st.facts["R"] = (None, None, frozenset([0]))
            for m, v in (("n", S("N")), ("path", S("P")), ("on_resolve", S("CB")), ):
                e.set_cell(st, R, "node_resolve", m, v)
                st.facts[v[1]] = (None, None, frozenset([0]))
            e.set_cell(st, R, "node_resolve", "force_outdated", ("i", 1 if forced else 0))
        e.q_syms = lambda q: frozenset(["R", "N", "P", "CB"])
        e.run(fn, [R], q=("none", False, None, False, False), setup=setup)
        ctx.count("driver paths", e.paths)
        if not e.paths or not e.nres:
            raise AnalysisBroken("resolve driver: no path calls the callback")
        for r in e.bad:
            ctx.ob(r[0], r[1], False, r[2], r[3], r[4])
        if not e.bad:
            ctx.ob("decide", "node_resolve forced=%s" % forced, True, "%d paths" % e.paths, fn.loc())


def run(ctx):
    verdicts(ctx)
    stat_rule(ctx)
    reader(ctx)
    resolve(ctx)
    ctx.assume("strcmp, stat(2) and getenv behave as specified by POSIX")
