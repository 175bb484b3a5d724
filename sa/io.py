"""Model of files for copies and moves: contents are sequences of marked bytes, every operation may fail, reads and writes may be short or
interrupted."""
import errno as E
from .scen import *

EINTR, EAGAIN, EIO, EXDEV, EEXIST, ENOENT, EACCES = E.EINTR, E.EAGAIN, E.EIO, E.EXDEV, E.EEXIST, E.ENOENT, E.EACCES
S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO = 0o100000, 0o040000, 0o120000, 0o010000
O_WRONLY, O_RDWR, O_CREAT, O_TRUNC, O_APPEND = 1, 2, 0o100, 0o1000, 0o2000
NULL = ("i", 0)


class IO:
    """mixin for Scen.  Virtual file: st.mem[(("D", path), key)] for key in content/mode/link; content is ("B",) + marks.
    Faults are limited by `faults` per path: (kind -> number)."""
    chunks = (5, 3)
    faults = {"eintr": 1, "short": 1, "fail": 1}
    rename_errno = (EXDEV, EACCES)

    def put(self, st, path, **kw):
        for k, v in kw.items():
            st.mem[(("D", path), k)] = v

    def get(self, st, path, k):
        return st.mem.get((("D", path), k))

    def spend(self, st, kind):
        """a copy of the state in which a fault of this kind happens, or None"""
        n = self.faults.get(kind, 0)
        k = (("C", "fault", kind), 0)
        u = st.mem.get(k, NULL)[1]
        if u >= n:
            return None
        s = st.copy()
        s.mem[k] = ("i", u + 1)
        return s

    def errno(self, st, v):
        st.mem[(("errno",), 0)] = ("i", v)

    def fd_new(self, st, path, mode):
        n = self.count_up(st, "fd")
        fd = ("i", 100 + n)
        st.mem[(("D", "fd", fd[1]), "path")] = path
        st.mem[(("D", "fd", fd[1]), "mode")] = ("s", mode)
        st.mem[(("D", "fd", fd[1]), "pos")] = ("i", 0)
        self.ev(st, "opened", path, mode)
        if mode != "r":
            if mode == "w" or self.get(st, path, "content") is None:
                self.put(st, path, content=("B",))
            if self.get(st, path, "content") is not None and mode == "rw":
                self.ev(st, "kept-old", path)
        return fd

    def fdget(self, st, fd, k):
        return st.mem.get((("D", "fd", fd), k))

    def content(self, path):
        """marks of the content of an input"""
        out = []
        for c in range(sum(self.chunks)):
            out.append((path, c))
        return out

    def failed(self, st, what, path, err=EIO):
        s = self.spend(st, "fail")
        if s is not None:
            self.ev(s, "fault", what, path)
            self.errno(s, err)
        return s


def fdn(v):
    return v[1] if v[0] == "i" else None


def io_open(self, st, inst, args):
    path = self.text(st, args[0])
    fl = args[1][1] if args[1][0] == "i" else O_RDWR
    mode = "r" if fl & 3 == 0 else ("w" if fl & O_TRUNC else "a" if fl & O_APPEND else "rw")
    s2 = self.failed(st, "open " + mode[0], path, EACCES)
    out = [] if s2 is None else [(("i", -1), s2)]
    if mode != "r" and len(args) > 2:
        self.put(st, path, crmode=args[2])
    fd = self.fd_new(st, path, mode)
    return [(fd, st)] + out


def io_fopen(self, st, inst, args):
    path, m = self.text(st, args[0]), self.string(self.text(st, args[1])) or "w"
    mode = "rw" if m[0] == "r" and "+" in m else m[0]
    s2 = self.failed(st, "open " + mode[0], path, EACCES)
    out = [] if s2 is None else [(NULL, s2)]
    fd = self.fd_new(st, path, mode)
    f = H("IOF%d" % fd[1])
    return [(f, st)] + out


def fileno(v):
    if v[0] == "p" and v[1][0] == "h" and isinstance(v[1][1], str) and v[1][1].startswith("IOF"):
        return int(v[1][1][3:])
    return None


def next_chunk(self, st, fd, limit):
    """(marks) of the next read"""
    path = self.fdget(st, fd, "path")
    pos = self.fdget(st, fd, "pos")[1]
    c = self.get(st, path, "content")
    data = list(c[1:]) if c is not None else self.content(path)
    ends, t = [], 0
    for x in self.chunks:
        t += x
        ends.append(t)
    end = next((x for x in ends if x > pos), len(data))
    got = data[pos:min(end, len(data))]
    if limit is not None:
        got = got[:limit]
    st.mem[(("D", "fd", fd), "pos")] = ("i", pos + len(got))
    return got


def put_buf(self, st, buf, marks):
    ob = self.obj_of(buf)
    if ob is None:
        return
    for k in [k for k in st.mem if k[0] == ("D", "buf", ob[0])]:
        del st.mem[k]
    for i, m in enumerate(marks):
        st.mem[(("D", "buf", ob[0]), (ob[1] if isinstance(ob[1], int) else 0) + i)] = ("M",) + tuple(m)


def take_buf(self, st, buf, n):
    ob = self.obj_of(buf)
    out = []
    for i in range(n):
        v = st.mem.get((("D", "buf", ob[0]), ob[1] + i)) if ob and isinstance(ob[1], int) else None
        out.append(tuple(v[1:]) if v else ("?", i))
    return out


def add_out(self, st, fd, marks):
    path = self.fdget(st, fd, "path")
    c = self.get(st, path, "content") or ("B",)
    self.put(st, path, content=c + tuple(marks))


def ival(self, st, v):
    lo, hi = self.interval(st, v)
    return lo if lo is not None and lo == hi else None


def io_read(self, st, inst, args):
    fd = fdn(args[0])
    if fd is None or self.fdget(st, fd, "path") is None:
        return [(("i", -1), st)]
    path = self.fdget(st, fd, "path")
    out = []
    s = self.spend(st, "eintr")
    if s is not None:
        self.errno(s, EINTR)
        out.append((("i", -1), s))
    s = self.failed(st, "read", path)
    if s is not None:
        out.append((("i", -1), s))
    got = next_chunk(self, st, fd, ival(self, st, args[2]))
    put_buf(self, st, args[1], got)
    return [(("i", len(got)), st)] + out


def io_write(self, st, inst, args):
    fd = fdn(args[0])
    if fd is None or self.fdget(st, fd, "path") is None:
        return [(("i", -1), st)]
    path = self.fdget(st, fd, "path")
    n = ival(self, st, args[2])
    if n is None:
        self.ev(st, "fault", "write of an unknown length", path)
        n = 0
    out = []
    s = self.spend(st, "eintr")
    if s is not None:
        self.errno(s, EINTR)
        out.append((("i", -1), s))
    s = self.failed(st, "write", path)
    if s is not None:
        out.append((("i", -1), s))
    if n > 1:
        s = self.spend(st, "short")
        if s is not None:
            add_out(self, s, fd, take_buf(self, s, args[1], 2 if n > 2 else 1))
            out.append((("i", 2 if n > 2 else 1), s))
    add_out(self, st, fd, take_buf(self, st, args[1], n))
    return [(("i", n), st)] + out


def io_fread(self, st, inst, args):
    fd = fileno(args[3])
    if fd is None:
        return [(NULL, st)]
    path = self.fdget(st, fd, "path")
    size, n = ival(self, st, args[1]), ival(self, st, args[2])
    out = []
    if st.mem.get((("D", "fd", fd), "err")):      # the error persists
        return [(NULL, st)]
    s = self.failed(st, "read", path)
    if s is not None:
        s.mem[(("D", "fd", fd), "err")] = ("i", 1)
        out.append((NULL, s))
        # part of a block before the error
        s2 = s.copy()
        got = next_chunk(self, s2, fd, None)[:2]
        if got and size == 1:
            put_buf(self, s2, args[0], got)
            out.append((("i", len(got)), s2))
    got = next_chunk(self, st, fd, size * n if size and n else None)
    put_buf(self, st, args[0], got)
    if not got:
        st.mem[(("D", "fd", fd), "eof")] = ("i", 1)
    return [(("i", len(got) // (size or 1)), st)] + out


def io_fwrite(self, st, inst, args):
    fd = fileno(args[3])
    size, n = ival(self, st, args[1]), ival(self, st, args[2])
    if fd is None:
        return [(NULL, st)]
    path = self.fdget(st, fd, "path")
    out = []
    s = self.failed(st, "write", path)
    if s is not None:
        s.mem[(("D", "fd", fd), "err")] = ("i", 1)
        out.append((NULL, s))
        if n and size and n > 1:
            s2 = s.copy()
            add_out(self, s2, fd, take_buf(self, s2, args[0], size * (n // 2)))
            out.append((("i", n // 2), s2))
    if n is None or size is None:
        self.ev(st, "fault", "write of an unknown length", path)
        return [(NULL, st)]
    add_out(self, st, fd, take_buf(self, st, args[0], size * n))
    return [(("i", n), st)] + out


def io_flag(which):
    def h(self, st, inst, args):
        fd = fileno(args[0])
        return [(st.mem.get((("D", "fd", fd), which), NULL), st)]
    return h


def io_close(std):
    def h(self, st, inst, args):
        fd = fileno(args[0]) if std else fdn(args[0])
        path = self.fdget(st, fd, "path") if fd is not None else None
        if path is None:
            return [(NULL, st)]
        if self.fdget(st, fd, "closed") is not None:
            self.ev(st, "closed-twice", path)
        st.mem[(("D", "fd", fd), "closed")] = ("i", 1)
        mode = self.fdget(st, fd, "mode")[1]
        out = []
        if mode != "r":
            s = self.failed(st, "close", path)
            if s is not None:
                out.append((("i", -1), s))
        self.ev(st, "closed", path, mode)
        return [(NULL, st)] + out
    return h


def io_fileno(self, st, inst, args):
    fd = fileno(args[0])
    return [(("i", fd) if fd is not None else ("i", -1), st)]


def io_flush(self, st, inst, args):
    fd = fileno(args[0]) if inst.callee.name in ("fflush",) else fdn(args[0])
    path = self.fdget(st, fd, "path") if fd is not None else None
    if path is None:
        return [(NULL, st)]
    s = self.failed(st, "flush", path)
    return [(NULL, st)] + ([(("i", -1), s)] if s is not None else [])


def io_fchmod(self, st, inst, args):
    fd = fdn(args[0])
    path = self.fdget(st, fd, "path") if fd is not None else self.text(st, args[0])
    if path is None:
        return [(NULL, st)]
    s = self.failed(st, "chmod", path)
    self.put(st, path, mode=args[1])
    return [(NULL, st)] + ([(("i", -1), s)] if s is not None else [])


def io_stat(follow):
    def h(self, st, inst, args):
        fd = fdn(args[0])
        path = self.fdget(st, fd, "path") if fd is not None else self.text(st, args[0])
        m = self.mode_of(st, path, follow)
        s = self.failed(st, "stat", path, ENOENT)
        out = [(("i", -1), s)] if s is not None else []
        if m is None:
            self.errno(st, ENOENT)
            return [(("i", -1), st)]
        ob = self.obj_of(args[1])
        if ob:
            self.clobber_obj(st, ob[0])
            self.set_cell(st, args[1], "stat", "st_mode", ("i", m))
        return [(NULL, st)] + out
    return h


def io_rename(self, st, inst, args):
    a, b = self.text(st, args[0]), self.text(st, args[1])
    out = []
    for err in self.rename_errno:
        s = self.spend(st, "rename")
        if s is not None:
            self.errno(s, err)
            self.ev(s, "norename", a, b, ("i", err))
            out.append((("i", -1), s))
    self.ev(st, "moved", a, b)
    return [(NULL, st)] + out


def io_unlink(self, st, inst, args):
    p = self.text(st, args[0])
    self.ev(st, "removed", p, self.done(st))
    st.mem.pop((("D", p), "link"), None)
    return [(NULL, st)]


def io_readlink(self, st, inst, args):
    p = self.text(st, args[0])
    t = T("linktext", p)
    s = self.failed(st, "readlink", p)
    self.set_text(st, args[1], t)
    st.facts[("T", "linklen", p)] = (1, 100, frozenset())
    return [(("s", ("T", "linklen", p)), st)] + ([(("i", -1), s)] if s is not None else [])


def io_symlink(self, st, inst, args):
    t, p = self.text(st, args[0]), self.text(st, args[1])
    if self.get(st, p, "link") is not None:
        self.errno(st, EEXIST)
        return [(("i", -1), st)]
    s = self.failed(st, "symlink", p)
    self.put(st, p, link=t)
    return [(NULL, st)] + ([(("i", -1), s)] if s is not None else [])


def io_time(self, st, inst, args):
    return [(NULL, st)]


HANDLERS = {"open": io_open, "open64": io_open, "fopen": io_fopen, "fopen64": io_fopen, "read": io_read, "write": io_write, "fread": io_fread, "fwrite": io_fwrite,
            "feof": io_flag("eof"), "ferror": io_flag("err"), "close": io_close(False), "fclose": io_close(True), "fileno": io_fileno, "fflush": io_flush,
            "fsync": io_flush, "fdatasync": io_flush, "fchmod": io_fchmod, "chmod": io_fchmod, "lstat": io_stat(False), "stat": io_stat(True), "fstat": io_stat(True),
            "lstat64": io_stat(False), "stat64": io_stat(True), "rename": io_rename, "unlink": io_unlink, "remove": io_unlink, "readlink": io_readlink,
            "symlink": io_symlink, "utimensat": io_time, "futimens": io_time, "setvbuf": io_time, "posix_fadvise": io_time, "rewind": io_time}


class Files(IO, Scen):
    GHOST = Scen.GHOST + ("D",)

    def done(self, st):
        """paths completely written and closed"""
        out = []
        for k, v in st.mem.items():
            if k[0][:2] == ("D", "fd") and k[1] == "mode" and v[1] != "r":
                if st.mem.get((k[0], "closed")):
                    out.append(st.mem[(k[0], "path")])
        return ("set",) + tuple(sorted(set(out), key=str))

    def mode_of(self, st, path, follow):
        return S_IFREG | 0o751
Files.handlers = dict(Scen.handlers, **HANDLERS)
