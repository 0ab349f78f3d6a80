#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree (objects are keyed by content)."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
WRAPS = ["malloc", "calloc", "realloc", "free", "fopen", "fopen64", "remove", "unlink", "rename", "rand", "srand", "time", "exit", "abort", "__assert_fail"]
COMMON = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_FORTIFY_SOURCE=0", "-fno-builtin-malloc", "-fno-builtin-calloc"]
LIB = COMMON + ["-std=c99", "-fsanitize-coverage=trace-pc", "-w"]
HAR = COMMON + ["-std=gnu11", "-Wall", "-Wextra", "-Wno-unused-parameter", "-Wno-misleading-indentation"]

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise RuntimeError(" ".join(cmd) + "\n" + p.stdout)
    return p.stdout

def digest(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]

def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    incs = sorted(d for d in glob.glob(REPO + "/c3/*") if os.path.isdir(d))
    heads = sorted(glob.glob(REPO + "/c3/*/*.h") + glob.glob(REPO + "/c3/*.h") + glob.glob(REPO + "/include/*.h") + glob.glob(HERE + "/tables/*.h"))
    hd = digest(heads, 0)
    inc = ["-I" + d for d in incs] + ["-I" + HERE + "/tables", "-I" + REPO + "/c3", "-I" + REPO + "/include"]
    srcs = sorted(glob.glob(REPO + "/c3/*/*.c"))
    hsrcs = sorted(glob.glob(HERE + "/*.c")); hh = digest(sorted(glob.glob(HERE + "/*.h")), 0)
    # functions defined static inline in headers may pull in symbols only; every c file of c3/<lib>/ is compiled, as upstream's glob does
    jobs = [(s, LIB, [hd]) for s in srcs] + [(s, HAR, [hd, hh]) for s in hsrcs]
    objs, todo = [], []
    for s, fl, ex in jobs:
        o = os.path.join(OUT, os.path.basename(s)[:-2] + "-" + digest([s], [fl, ex]) + ".o")
        objs.append(o)
        if not os.path.exists(o): todo.append((s, fl, o))
    def one(j):
        s, fl, o = j
        t = o + ".%d.tmp" % os.getpid()
        msg = sh(["gcc"] + fl + inc + ["-I" + HERE, "-c", s, "-o", t])
        if msg and verbose: print(msg)
        os.replace(t, o)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(one, todo))
    exe = os.path.join(OUT, "simc3-" + digest([], objs))
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        sh(["gcc", "-no-pie", "-fsanitize=address", "-o", t] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-llapack", "-lblas", "-lm", "-lpthread"])
        os.replace(t, exe)
    keep = set(objs) | {exe}
    for f in glob.glob(OUT + "/*.o") + glob.glob(OUT + "/simc3-*"):
        if f not in keep and not f.endswith(".tmp"):
            try: os.remove(f)
            except OSError: pass
    return exe

if __name__ == "__main__":
    try: print(build(True))
    except RuntimeError as e: print(e, file=sys.stderr); sys.exit(2)
