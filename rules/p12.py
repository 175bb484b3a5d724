"""P12: cleaning.  The removal of the cache directory is followed over a virtual file tree (directories, files, links that lead out of it, kept
entries), with operations that may fail; the start of a build is followed for root and cache directories in every relation to each other."""
from sa.cli import *
from sa.scen import noop, new_text
from sa.io import S_IFDIR, S_IFREG, S_IFLNK
import posixpath

TECHNIQUE = "abstract interpretation of LLVM IR over a virtual file tree: every removal is resolved (links included) and compared with the cache tree"
LEVEL_NOTE = ("The file tree has nested directories, hidden names, names that look like '..' or like the kept directory, links to files and directories inside and outside, "
              "dangling links; one failing operation per path; entry types both known and unknown to readdir. 20 relations of root and cache directory, lexical and through links, "
              "with and without a request to clean. Replacement of entries by another process while cleaning is not modelled.")

DIR, FILE = ("dir",), ("file",)


def tree():
    t = {"/": DIR}

    def d(p):
        t[p] = DIR

    def f(p):
        t[p] = FILE

    def l(p, to):
        t[p] = ("link", to)
    for p in ("/w", "/w/prj", "/w/prj/src", "/w/prj/cache", "/w/prj/cache2", "/w/pr", "/home", "/data", "/data/c", "/w/prj/cache/sub", "/w/prj/cache/sub/deep", "/w/prj/cache/..d",
              "/w/prj/cache/.autark-dist", "/w/prj/cache/.autark-dist/bin", "/w/prj/cache/x.autark-dist", "/w/prj/cache/.hid"):
        d(p)
    for p in ("/w/prj/Autark", "/w/prj/src/a.c", "/w/prj/cache/a.o", "/w/prj/cache/sub/b.o", "/w/prj/cache/sub/deep/c.o", "/w/prj/cache/..d/f", "/w/prj/cache/.autark-dist/bin/autark",
              "/w/prj/cache/x.autark-dist/f", "/w/prj/cache/.hid/f", "/home/precious", "/data/c/x.o", "/data/keep", "/w/prj/cache2/y.o", "/w/pr/z.o",
              "/w/prj/a.o", "/w/prj/sub", "/w/a.o", "/data/a.o", "/data/x.o"):
        f(p)
    l("/w/prj/cache/lnk-dir", "/home")
    l("/w/prj/cache/lnk-up", "..")
    l("/w/prj/cache/lnk-file", "/home/precious")
    l("/w/prj/cache/lnk-none", "/nowhere/x")
    l("/w/prj/cache/sub/lnk-src", "../../src")
    l("/w/prj/cache/sub/lnk-self", ".")
    l("/w/prj/to-data", "/data/c")
    l("/w/prj/to-parent", "/w")
    l("/w/prj/to-root", "/w/prj")
    l("/link-prj", "/w/prj")
    l("/link-w", "/w")
    return t


class Fs(Cli):
    inl = frozenset({"path_rm_cache", "autark_build_prepare"})
    faults = 1
    max_states = 2000
    max_steps = 6000000
    rec_limit = 8
    env = {}
    GHOST = Cli.GHOST + ("V",)

    def inline(self, fn, inst, st):
        return fn.name in self.inl or Scen.inline(self, fn, inst, st)

    # ---- virtual tree
    def look(self, st, p):
        if st.mem.get((("V", "gone", p), 0)) is not None:
            return None
        return self.tree.get(p)

    def kids(self, st, p):
        p = p.rstrip("/")
        return sorted(x[len(p) + 1:] for x in self.tree if x.startswith(p + "/") and "/" not in x[len(p) + 1:] and self.look(st, x) is not None)

    def resolve(self, st, t, follow=True, depth=0):
        """absolute path of the entry a path designates (the entry need not exist), links in the way followed"""
        s = t if isinstance(t, str) else self.string(t)
        if s is None or depth > 20:
            return None
        s = posixpath.join(self.string(self.cwd(st)) or "/", s)
        slash = s.endswith("/") and s != "/"
        parts = [x for x in s.split("/") if x and x != "."]
        cur = "/"
        for k, x in enumerate(parts):
            last = k == len(parts) - 1
            if x == "..":
                cur = posixpath.dirname(cur)
                continue
            nxt = cur.rstrip("/") + "/" + x
            n = self.look(st, nxt)
            if n is not None and n[0] == "link" and (not last or follow or slash):
                r = self.resolve(st, posixpath.join(cur, n[1]), True, depth + 1)
                if r is None:
                    return None
                cur = r
                continue
            if n is None and not last:
                return None
            cur = nxt
        return cur

    def outcome(self, st, kind, t):
        if kind in ("exist", "dir", "file", "access"):
            p = self.resolve(st, t)
            n = self.look(st, p) if p else None
            return n is not None if kind in ("exist", "access") else n == (DIR if kind == "dir" else FILE)
        return None

    def fault(self, st, what):
        k = (("C", "faults"), 0)
        u = st.mem.get(k, NULL)[1]
        if u >= self.faults:
            return None
        s = st.copy()
        s.mem[k] = ("i", u + 1)
        s.mem[(("errno",), 0)] = ("i", 13)
        return s

    def name_of(self, st, v, what):
        t = self.string(self.text(st, v))
        if t is None:
            self.ev(st, "unknown", what)
        return t

    # ---- operations
    def h_stat(follow):
        def h(self, st, inst, args):
            t = self.name_of(st, args[0], "stat")
            out = []
            s = self.fault(st, "stat")
            if s is not None:
                out.append((("i", -1), s))
            p = self.resolve(st, t, follow) if t else None
            n = self.look(st, p) if p else None
            if n is None:
                st.mem[(("errno",), 0)] = ("i", 2)
                return [(("i", -1), st)] + out
            ob = self.obj_of(args[1])
            if ob:
                self.clobber_obj(st, ob[0])
                self.set_cell(st, args[1], "stat", "st_mode", ("i", {"dir": S_IFDIR | 0o755, "file": S_IFREG | 0o644, "link": S_IFLNK | 0o777}[n[0]]))
            return [(NULL, st)] + out
        return h

    def h_realpath(self, st, inst, args):
        t = self.name_of(st, args[0], "realpath")
        p = self.resolve(st, t) if t else None
        if p is None or self.look(st, p) is None:
            st.mem[(("errno",), 0)] = ("i", 2)
            return [(NULL, st)]
        if args[-1] == NULL or len(args) < 2:
            return [(new_text(self, st, inst, self.const(p)), st)]
        self.set_text(st, args[1], self.const(p))
        return [(args[1], st)]

    def h_opendir(self, st, inst, args):
        if self.over(st, inst):
            return []
        t = self.name_of(st, args[0], "opendir")
        p = self.resolve(st, t) if t else None
        out = []
        s = self.fault(st, "opendir")
        if s is not None:
            out.append((NULL, s))
        if p is None or self.look(st, p) != DIR:
            return [(NULL, st)] + out
        n = self.count_up(st, "dirs")
        d = H("DIR%d" % n)
        st.mem[(("V", "dir", d[1][1]), "path")] = self.const(p)
        names = [".", ".."] + self.kids(st, p)
        if self.last_dots:
            names = names[2:] + names[:2]
        st.mem[(("V", "dir", d[1][1]), "names")] = ("N",) + tuple(names)
        st.mem[(("V", "dir", d[1][1]), "pos")] = NULL
        return [(d, st)] + out

    def h_readdir(self, st, inst, args):
        if args[0][0] != "p":
            return [(NULL, st)]
        k = ("V", "dir", args[0][1][1])
        names, pos = st.mem.get((k, "names")), st.mem.get((k, "pos"))
        if names is None or pos[1] + 1 >= len(names):
            return [(NULL, st)]
        st.mem[(k, "pos")] = ("i", pos[1] + 1)
        name = names[1 + pos[1]]
        p = ("p", ("h", "DE" + str(args[0][1][1])), 0)      # one entry per stream, overwritten by the next read
        for kk in [x for x in st.mem if x[0] == p[1] or x[0][:2] == ("T", p[1])]:
            del st.mem[kk]
        d = self.string(st.mem[(k, "path")]).rstrip("/")
        n = self.tree.get(d + "/" + name, DIR)
        self.set_cell(st, p, "dirent", "d_type", ("i", 0 if self.untyped else {"dir": 4, "file": 8, "link": 10}[n[0]]))
        off = self.offset("dirent", "d_name")
        st.mem[(("T", p[1], off), 0)] = self.const(name)
        for i, c in enumerate(name + "\0"):
            st.mem[(p[1], off + i)] = ("i", ord(c))
        return [(p, st)]

    def removal(self, st, what, p, args):
        self.ev(st, "removed", what, p)
        st.mem[(("V", "gone", p), 0)] = ("i", 1)

    def over(self, st, inst):
        """a path that already broke a rule, or that goes on without end, is not followed further"""
        if self.limit is not None and wrong(st, self.limit) or self.count_up(st, "ops") > 400:
            self.stops.append((st.copy_full(), "removal", [], inst))
            return True
        return False

    def h_remove(kinds):
        def h(self, st, inst, args):
            what = inst.callee.name
            if self.over(st, inst):
                return []
            t = self.name_of(st, args[0], what)
            out = []
            s = self.fault(st, what)
            if s is not None:
                out.append((("i", -1), s))
            if t is None:
                return [(NULL, st)] + out
            p = self.resolve(st, t, False)
            n = self.look(st, p) if p else None
            if n is None or (n[0] == "dir") not in kinds or (n[0] == "dir" and self.kids(st, p)):
                # the attempt itself must stay inside
                if p is not None and n is not None:
                    self.ev(st, "tried", what, p)
                st.mem[(("errno",), 0)] = ("i", 39)
                return [(("i", -1), st)] + out
            self.removal(st, what, p, args)
            return [(NULL, st)] + out
        return h

    def h_rename(self, st, inst, args):
        p = self.resolve(st, self.name_of(st, args[0], "rename") or "?", False)
        self.ev(st, "removed", "rename", p)
        return [(NULL, st)]

    def h_shell(self, st, inst, args):
        self.ev(st, "removed", inst.callee.name, "anything")
        return [(NULL, st)]

    def m_prefix(self, st, inst, args):
        """path_is_prefix_for, lexically"""
        from sa.scen import m_prefix
        return m_prefix(self, st, inst, args)

    def h_normal(self, st, inst, args):
        t = self.name_of(st, args[0], "normalize")
        if t is None:
            return [(NULL, st)]
        return [(self.const(posixpath.normpath(posixpath.join(self.string(self.cwd(st)), t))), st)]

    def h_chdir(self, st, inst, args):
        t = self.name_of(st, args[0], "chdir")
        p = self.resolve(st, t) if t else None
        if p is None or self.look(st, p) != DIR:
            return [(("i", -1), st)]
        st.mem[(("C", "cwd"), 0)] = self.const(p)
        return [(NULL, st)]

    def h_unit(self, st, inst, args):
        self.ev(st, "unit")
        return [(H("UROOT"), st)]

    def on_load(self, st, inst, ptr, val, field):
        ob = self.obj_of(ptr)
        if ob and ob[0][0] == "h" and isinstance(ob[0][1], str) and ob[0][1].startswith("DE") and ob in st.mem:
            return st.mem[ob]
        return super().on_load(st, inst, ptr, val, field)


Fs.handlers = dict(Cli.handlers, lstat=Fs.h_stat(False), lstat64=Fs.h_stat(False), stat=Fs.h_stat(True), stat64=Fs.h_stat(True), realpath=Fs.h_realpath, path_real=Fs.h_realpath,
                   path_real_pool=Fs.h_realpath, opendir=Fs.h_opendir, readdir=Fs.h_readdir, readdir64=Fs.h_readdir, closedir=noop(NULL),
                   unlink=Fs.h_remove((False,)), rmdir=Fs.h_remove((True,)), remove=Fs.h_remove((True, False)), rename=Fs.h_rename, system=Fs.h_shell, nftw=Fs.h_shell, nftw64=Fs.h_shell,
                   unlinkat=Fs.h_shell, execvp=Fs.h_shell, perror=noop(), path_is_prefix_for=Fs.m_prefix, path_normalize_pool=Fs.h_normal, chdir=Fs.h_chdir,
                   unit_create=Fs.h_unit, unit_push=noop(), setenv=noop(NULL), path_is_accesible_read=noop(("i", 1)))
Fs.handlers.pop("autark_build_prepare")
Fs.untyped = False
Fs.limit = None
Fs.last_dots = False

TEXT = {"inside": "every entry removed lies strictly inside the cache directory, links in its path followed",
        "kept": "the Autark distribution in the cache directory is kept",
        "rejected": "a cache directory that is, or contains, the project root is rejected before anything is removed",
        "requested": "nothing is removed unless cleaning was requested",
        "option": "only the options for it request cleaning",
        "sole": "directories are removed nowhere else"}


class Any(dict):
    def get(self, k, d=None):
        return "1"


def within(p, root):
    return p != root and p.startswith(root.rstrip("/") + "/")


def wrong(st, cache):
    """removals that are not allowed: (rule, text)"""
    out = []
    for x in st.q:
        if x[0] == "unknown":
            out.append(("inside", "the path given to %s is not known" % x[1]))
        if x[0] not in ("removed", "tried"):
            continue
        p = x[2]
        if p == "anything":
            out.append(("inside", "entries are removed by %s" % x[1]))
        elif p is None or not within(p, cache):
            out.append(("inside", "%s is removed (%s), which is not inside the cache directory %s" % (p, x[1], cache)))
        elif p == cache + "/.autark-dist" or within(p, cache + "/.autark-dist"):
            out.append(("kept", "%s of the kept distribution is removed" % p))
    return out


def run(ctx):
    for k, v in TEXT.items():
        ctx.rule(k, v)
    ctx.assume("path_is_prefix_for and path_normalize answer lexically correctly for normalised paths (P31)")
    n, paths = clean_tree(ctx)
    m = prepare(ctx)
    option(ctx)
    sole(ctx)
    ctx.require(paths, 8, "paths through the removal of a cache directory")
    ctx.require(m, 40, "root and cache directory scenarios")
    ctx.count("removals seen", n)


def clean_tree(ctx):
    total = paths = 0
    for cache in ("/w/prj/cache", "/w/prj/to-data", "/w/prj/cache/", "/w/prj/none", "cache"):
        for untyped, dots, faults in ((False, False, 1), (True, True, 1), (False, True, 0)):
            e = Fs(ctx)
            e.tree, e.untyped, e.last_dots, e.faults = tree(), untyped, dots, faults
            st = State()
            st.q = ()
            st.mem[("zero", ("g", "g_env"))] = ("i", 1)
            st.mem[(("C", "cwd"), 0)] = e.const("/w/prj")
            real = e.resolve(st, cache.rstrip("/"))
            e.limit = real
            fin = [s for s, _ in e.call_fn(st, "path_rm_cache", [e.const(cache)])] + [x[0] for x in e.stops]
            bad = {}
            for s in fin:
                for k, w in wrong(s, real):
                    bad.setdefault((k, w), s)
                total = max(total, sum(x[0] == "removed" for x in s.q))
            paths += len(fin)
            sub = "cache %s, %s, %s" % (cache, "entry types unknown" if untyped else "entry types known", "one operation may fail" if faults else "no failures")
            for k in ("inside", "kept"):
                b = [(w, s) for (kk, w), s in bad.items() if kk == k]
                for w, s in b:
                    ctx.ob(k, sub, False, w, path=s.lines())
                if not b:
                    ctx.ob(k, sub, True, "%d paths" % len(fin))
    return total, paths


def prepare(ctx):
    n = 0
    for root, cwd in (("/w/prj", "/"), (None, "/w/prj"), ("/link-prj", "/"), (".", "/w/prj"), ("prj", "/w")):
        for cache in (None, "/w/prj", "/w", "/", "..", ".", "/w/prj/", "/w/prj/cache", "cache", "/link-prj", "/link-w", "/w/prj/to-parent", "to-root", "to-parent", "/w/prj/to-data", "/data/c",
                      "/w/pr", "cache/../..", "/w/prj/../pr", "none", "/w/prj/src/.."):
            for j, clean in enumerate((0, 1, 0)):
                e = Fs(ctx)
                e.tree, e.faults = tree(), 0
                st = State()
                st.q = ()
                st.mem[("zero", ("g", "g_env"))] = ("i", 1)
                st.mem[(("C", "cwd"), 0)] = e.const(cwd)
                e.genv(st, "pool", H("GPOOL"))
                e.genv(st, "cwd", e.const(cwd))
                if root:
                    e.genv(st, "project.root_dir", e.const(root))
                if cache:
                    e.genv(st, "project.cache_dir", e.const(cache))
                if j == 2:       # other settings do not request cleaning
                    e.genv(st, "install.enabled", ("i", 1))
                    e.genv(st, "verbose", ("i", 1))
                    e.genv(st, "max_parallel_jobs", ("i", 4))
                    e.genv(st, "install.prefix_dir", e.const("/home"))
                    e.env = Any()
                e.genv(st, "project.cleanup", ("i", clean))
                s0 = State()
                s0.mem[(("C", "cwd"), 0)] = e.const(cwd)
                rdir = e.resolve(s0, root or cwd)
                s0.mem[(("C", "cwd"), 0)] = e.const(rdir)
                creal = e.resolve(s0, cache or "autark-cache")
                fatal = creal is not None and (creal == rdir or within(rdir, creal) or creal == "/")
                e.limit = "/nowhere" if fatal or not clean or creal is None else creal
                fin = [s for s, _ in e.call_fn(st, "autark_build_prepare", [e.const("Autark")])]
                ends = fin + [x[0] for x in e.stops]
                sub = "root %s, cache %s, from %s, clean %s" % (root, cache, cwd, "on" if clean else "off, other settings on" if j == 2 else "off")
                bad = {}
                for s in ends:
                    gone = [x for x in s.q if x[0] in ("removed", "tried")]
                    if gone and not clean:
                        bad.setdefault(("requested", "%s is removed although cleaning was not requested" % gone[0][2]), s)
                    if gone and fatal:
                        bad.setdefault(("rejected", "%s is removed although the cache directory is or contains the project root" % gone[0][2]), s)
                    if clean and not fatal:
                        for k, w in wrong(s, creal or "/nowhere"):
                            bad.setdefault((k, w), s)
                if fatal and clean:
                    for s in fin:
                        bad.setdefault(("rejected", "the build goes on with a cache directory that is or contains the project root although cleaning was requested"), s)
                if fatal and not clean and creal != rdir and within(e_norm(root, cwd), e_norm(cache or "autark-cache", rdir)):
                    for s in fin:
                        bad.setdefault(("rejected", "the build goes on with a cache directory that contains the project root"), s)
                n += 1
                k0 = "requested" if not clean else "rejected" if fatal else "inside"
                for (k, w), s in bad.items():
                    ctx.ob(k, sub, False, w, path=s.lines())
                if not bad:
                    ctx.ob(k0, sub, True, "%d paths" % len(ends))
    return n


def e_norm(p, cwd):
    return posixpath.normpath(posixpath.join(cwd, p or "."))


def option(ctx):
    """the setting that requests cleaning"""
    from rules.p27 import Out, forms, DOC, key
    e = Cli(ctx)
    for d in DOC:
        if key(d) in ("h", "v", "C"):
            continue
        for f in [forms(d)[-1]] + [["-V"] + forms(d)[0]]:
            o = Out(e, f)
            on = [bool(x) and x.get("env.project.cleanup", NULL) != NULL for x in o.settings()]
            ok = key(d) == "c" or not any(on)
            ctx.ob("option", " ".join(f), ok, "" if ok else "the option requests cleaning", path=o.path() if not ok else None)
    o = Out(e, [])
    ok = not any(x and x.get("env.project.cleanup", NULL) != NULL for x in o.settings())
    ctx.ob("option", "no options", ok, "" if ok else "cleaning is requested without an option", path=o.path() if not ok else None)
    front = own_functions(ctx, "autark_run")
    for f in ctx.m.defined():
        for i in f.insts():
            if i.op == "store" and ctx.model.ptr_field(i.ops[1]) == "env.project.cleanup":
                v = i.ops[0]
                zero = isinstance(v, Const) and getattr(v, "v", getattr(v, "value", None)) == 0
                ok = f.name in front or zero
                ctx.ob("option", "store in %s" % f.name, ok, "" if ok else "cleaning is requested outside of the command line front end", i.loc())


def sole(ctx):
    """directories are removed only by the cleaning at the start of a build"""
    own = own_functions(ctx, "autark_build_prepare") | own_functions(ctx, "path_rm_cache")
    names = ("rmdir", "remove", "unlinkat", "nftw", "nftw64")
    k = 0
    for n in names:
        for i in ctx.model.direct_calls(n):
            k += 1
            ok = i.fn.name in own
            ctx.ob("sole", "%s in %s" % (n, i.fn.name), ok, "" if ok else "entries are removed by %s outside of the cleaning of the cache directory" % n, i.loc())
    for i in ctx.model.direct_calls("path_rm_cache"):
        ok = i.fn.name in own_functions(ctx, "autark_build_prepare")
        ctx.ob("sole", "path_rm_cache in %s" % i.fn.name, ok, "" if ok else "the cache directory is removed outside of the start of a build", i.loc())
