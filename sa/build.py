"""Compile the current working tree of /repo to one LLVM module, outside /repo.

Only the compiler front end is run (plus `leg` for the parser and the config.h template); nothing of autark
is executed.  The IR is -O0 with scalar allocas promoted (sroa), so that each instruction maps to a source
construct and no optimisation hides one.
"""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("AUTARK_REPO", "/repo")
CFLAGS = ["-std=c99", "-D_XOPEN_SOURCE=700", "-D_POSIX_C_SOURCE=200809L", "-D_DEFAULT_SOURCE",
          "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-DDEBUG=1", "-w"]


class AnalysisBroken(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def llvm_tool(name):
    for c in ("/usr/lib/llvm-18/bin/" + name, shutil.which(name + "-18"), shutil.which(name)):
        if c and os.path.exists(c):
            return c
    raise AnalysisBroken("tool not found: " + name)


def sources(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(os.path.join(repo, "*.c")))


def build_ir(outdir, repo=None, extra=()):
    """returns path of linked, promoted bitcode"""
    repo = repo or REPO
    srcs = sources(repo)
    if len(srcs) < 5:
        raise AnalysisBroken("no sources found in " + repo)
    gen = os.path.join(outdir, "gen")
    os.makedirs(gen, exist_ok=True)
    leg = os.path.join(repo, "scriptx.leg")
    if os.path.exists(leg):
        _run(["leg", "-o", os.path.join(gen, "scriptx.h"), leg])
    cfg = os.path.join(repo, "config.h.in")
    if os.path.exists(cfg):
        txt = open(cfg).read()
        # '//autarkdef NAME "' lines become string defines, '//autarkdef NAME' numeric 1
        txt = re.sub(r'(?m)^\s*//autarkdef\s+(\w+)\s+".*$', r'#define \1 "x"', txt)
        txt = re.sub(r'(?m)^\s*//autarkdef\s+(\w+)\s*$', r'#define \1 1', txt)
        open(os.path.join(gen, "config.h"), "w").write(txt)
    clang = llvm_tool("clang")

    def one(s):
        o = os.path.join(outdir, os.path.basename(s) + ".bc")
        _run([clang] + CFLAGS + list(extra) + ["-I", gen, "-I", repo, "-c", "-emit-llvm", s, "-o", o])
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    linked = os.path.join(outdir, "all.bc")
    _run([llvm_tool("llvm-link")] + objs + ["-o", linked])
    out = os.path.join(outdir, "all.opt.bc")
    _run([llvm_tool("opt"), "-passes=function(sroa)", linked, "-o", out])
    return out
