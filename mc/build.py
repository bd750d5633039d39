#!/usr/bin/env python3
"""Builds the natrium library from /repo's working tree plus one harness.

Everything is keyed by content: an object is reused only if the hash of its
source text, of every header of the library, of the harness headers and of the
flags is the one it was compiled from.  Works from an empty cache.
"""
import sys, os, glob, hashlib, subprocess, shutil, concurrent.futures as cf, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
LIB = REPO + "/src/library"
COMPAT = "/opt/vp/compat" if os.path.exists("/opt/vp/compat/dealii_compat.h") else V + "/mc/compat"
OUT = os.environ.get("MC_BUILD", V + "/build")
INC = ["-I" + LIB, "-I" + V + "/mc"] + sum([["-isystem", d] for d in (
    "/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
    "/usr/include/petsc", "/usr/include/trilinos", "/usr/include/hdf5/openmpi", "/usr/include/scotch",
    "/usr/include/suitesparse", "/usr/include/opencascade", "/usr/include/slepc")], [])
FLAGS = ["-std=gnu++17", "-w", "-DNDEBUG", "-fno-omit-frame-pointer", "-DNATRIUM_MC"]
LEFT_OUT = {"natrium/utilities/ContinuousBoundaryGradient.cpp"}
# hand-balanced by compile time: files that want a chunk of their own
HEAVY = ["natrium/solver/CFDSolver.cpp", "natrium/collision/KBCStandard.cpp"]

def sh(data):
    return hashlib.sha256(data).hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def headers_hash():
    h = hashlib.sha256()
    for root, _, files in sorted(os.walk(LIB)):
        for f in sorted(files):
            if not f.endswith(".cpp") and not f.endswith(".o"):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, LIB).encode() + b"\0" + rd(p) + b"\0")
    for p in (COMPAT + "/dealii_compat.h", COMPAT + "/natrium_preamble.h"):
        h.update(rd(p))
    return h.hexdigest()

def lib_sources():
    s = sorted(os.path.relpath(p, LIB) for p in glob.glob(LIB + "/natrium/**/*.cpp", recursive=True))
    return [x for x in s if x not in LEFT_OUT]

def chunks(srcs, n=14):
    heavy = [s for s in srcs if s in HEAVY]
    rest = [s for s in srcs if s not in HEAVY]
    w = {}
    for s in rest:
        t = rd(os.path.join(LIB, s))
        # deal.II-heavy files cost more than their size tells
        w[s] = 6000 + len(t)
        if b"D2Q777" in s.encode():
            w[s] = 15000
        if b"template class" in t or b"FEValues" in t:
            w[s] *= 2
        if b"DataOut" in t or b"SparsityTools" in t or b"TimeStepping" in t:
            w[s] *= 2
    total = sum(w.values())
    out, cur, acc, used = [], [], 0, 0
    m = n - len(heavy)
    for s in rest:
        cur.append(s)
        acc += w[s]
        if acc >= total / m and len(out) < m - 1:
            out.append(cur)
            cur, acc = [], 0
    if cur:
        out.append(cur)
    return [[h] for h in heavy] + out

def compile_one(text, key, extra, tag):
    obj = os.path.join(OUT, "obj", key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None, 0.0
    src = os.path.join(OUT, "obj", key + ".cpp")
    with open(src, "w") as f:
        f.write(text)
    tmp = obj + ".tmp%d.o" % os.getpid()
    t0 = time.time()
    r = subprocess.run(["g++"] + FLAGS + extra + INC + ["-include", COMPAT + "/dealii_compat.h", "-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, tag + "\n" + r.stdout[-6000:], time.time() - t0
    os.replace(tmp, obj)
    return obj, None, time.time() - t0

def build(harness, opt="-O1", extra=(), ldextra=(), jobs=8, verbose=False):
    """-> (path of executable, error text)"""
    os.makedirs(OUT + "/obj", exist_ok=True)
    os.makedirs(OUT + "/bin", exist_ok=True)
    hh = headers_hash()
    extra = [opt] + list(extra)
    ek = " ".join(FLAGS + extra)
    pre = '#include "%s/natrium_preamble.h"\n' % COMPAT
    work = []
    htext = rd(V + "/mc/harness/" + harness + ".cpp")
    mch = b"".join(rd(p) for p in sorted(glob.glob(V + "/mc/*.h")))
    work.append(("harness", pre + '#include "%s/mc/harness/%s.cpp"\n' % (V, harness),
                 sh(htext + mch + hh.encode() + ek.encode()), None))
    for c in chunks(lib_sources()):
        body = b"".join(x.encode() + b"\0" + rd(os.path.join(LIB, x)) for x in c)
        work.append((" ".join(c), pre + "".join('#include "%s/%s"\n' % (LIB, x) for x in c),
                     sh(body + hh.encode() + ek.encode()), c))
    objs, errs, times = [], [], []
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [(w, ex.submit(compile_one, w[1], w[2], extra, w[0])) for w in work]
        retry = []
        for w, f in futs:
            o, e, t = f.result()
            times.append((round(t, 1), w[0][:60]))
            if o:
                objs.append(o)
            elif w[3] and len(w[3]) > 1:
                retry.append(w)
            else:
                errs.append(e)
        # files of one chunk may clash with each other: compile them one by one
        futs = []
        for w in retry:
            for x in w[3]:
                k = sh(x.encode() + rd(os.path.join(LIB, x)) + hh.encode() + ek.encode())
                futs.append(ex.submit(compile_one, pre + '#include "%s/%s"\n' % (LIB, x), k, extra, x))
        for f in futs:
            o, e, t = f.result()
            (objs.append(o) if o else errs.append(e))
    if verbose:
        for t in sorted(times, reverse=True):
            print(t, file=sys.stderr)
    if errs:
        return None, "\n".join(errs)
    exe = os.path.join(OUT, "bin", harness + "-" + sh(" ".join(sorted(objs)).encode() + " ".join(ldextra).encode()))
    if not os.path.exists(exe):
        L = "/usr/lib/x86_64-linux-gnu/"
        libs = link_libs()
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + objs + ["-o", tmp] + list(ldextra) + libs,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, "link:\n" + r.stdout[-6000:]
        os.replace(tmp, exe)
    prune()
    return exe, None

def link_libs():
    p = V + "/mc/link_libs.txt"
    return rd(p).decode().split()

def prune(limit=4 << 30):
    """keeps the cache below limit bytes, dropping what was not used for longest"""
    fs = []
    for d in ("/obj", "/bin"):
        for f in os.listdir(OUT + d):
            p = OUT + d + "/" + f
            try:
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    tot = sum(x[1] for x in fs)
    for m, s, p in sorted(fs):
        if tot <= limit or time.time() - m < 3600:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s

if __name__ == "__main__":
    t0 = time.time()
    exe, err = build(sys.argv[1], verbose=True, extra=sys.argv[2:])
    print(exe or err, round(time.time() - t0, 1))
    sys.exit(0 if exe else 2)
