"""Compile /repo's current sources (and the harness wrappers) to LLVM bitcode and to a native library."""
import os, subprocess, hashlib, tempfile, shutil, sys, atexit, concurrent.futures as cf, glob, re
REPO = os.environ.get("BLSV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/lib/llvm-18/bin/clang++"
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="blsv-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch
class BuildError(Exception): pass
def sh(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stderr[-4000:])
    return r.stdout

def sources():
    return sorted(glob.glob(REPO + "/src/*.cpp"))
def key(*extra):
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/*") + glob.glob(REPO + "/include/bls12-381/*") + glob.glob(HERE + "/harness/*")) + [os.path.abspath(__file__)]:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]
def _cache(name):
    d = os.environ.get("BLSV_CACHE")
    if not d: return None, None
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    return p, os.path.exists(p)

IRFLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
           "-emit-llvm", "-c", "-I", REPO + "/include", "-I", REPO + "/src", "-w", "-fno-strict-aliasing",
           "-ffp-contract=off", "-U_FORTIFY_SOURCE", "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics"]
PORTABLE = {"arithmetic.cpp"}

def bitcode(harness="api.cpp", exclude=(), portable=False):
    """-> list of .bc files (sources in link order, then the harness)"""
    jobs = []
    d = scratch()
    k = key("bc", portable)
    srcs = [s for s in sources() if os.path.basename(s) not in exclude]
    outs = []
    for s in srcs + ([os.path.join(HERE, "harness", harness)] if harness else []):
        base = os.path.basename(s)
        cp, hit = _cache(k + "-" + base + (".port" if portable else "") + ".bc")
        o = cp or os.path.join(d, base + (".port" if portable else "") + ".bc")
        outs.append(o)
        if hit: continue
        if portable and base in PORTABLE:
            w = os.path.join(d, "port_" + base)
            open(w, "w").write(f'#include <bits/stdc++.h>\n#include <cpuid.h>\n#undef __x86_64__\n#include "{s}"\n')
            s = w
        elif portable:
            w = os.path.join(d, "port_" + base)
            open(w, "w").write(f'#include <bits/stdc++.h>\n#include <cpuid.h>\n#undef __x86_64__\n#include "{s}"\n')
            s = w
        jobs.append([CLANG] + IRFLAGS + [s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    return outs

def native(harness="api.cpp", portable=False):
    """build the library with the repository's own compiler flags (gcc, Release) and the wrappers; -> path of .so"""
    d = scratch(); k = key("so", portable)
    cp, hit = _cache(k + ".so")
    out = cp or os.path.join(d, "libbls%d.so" % portable)
    if hit: return out
    with locked(d):
        if os.path.exists(out): return out
        return _native(d, out, harness, portable)
def _native(d, out, harness, portable):
    objs = []; jobs = []
    for s in sources() + ([] if portable else sorted(glob.glob(REPO + "/src/*.s"))) + [os.path.join(HERE, "harness", harness)]:
        o = os.path.join(d, "n%d_" % portable + os.path.basename(s) + ".o"); objs.append(o)
        if portable:
            w = os.path.join(d, "nport_" + os.path.basename(s))
            open(w, "w").write(f'#include <bits/stdc++.h>\n#include <cpuid.h>\n#undef __x86_64__\n#include "{s}"\n')
            s = w
        if s.endswith(".s"): jobs.append(["gcc", "-fPIC", "-c", s, "-o", o])
        else: jobs.append(["g++", "-std=c++20", "-O3", "-DNDEBUG", "-fPIC", "-w", "-I", REPO + "/include", "-I", REPO + "/src", "-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    sh(["g++", "-shared", "-Wl,-Bsymbolic", "-o", out + ".tmp"] + objs)
    os.rename(out + ".tmp", out)
    return out

def asan():
    """sanitizer build of the current sources: a program that makes one call read from stdin"""
    d = scratch(); cp, hit = _cache(key("asan") + ".asan")
    out = cp or os.path.join(d, "asan_main")
    if hit: return out
    with locked(d):
        if os.path.exists(out): return out
        return _asan(d, out)
def locked(d):
    import fcntl, contextlib
    @contextlib.contextmanager
    def c():
        with open(os.path.join(d, "lock"), "w") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            yield
    return c()
def _asan(d, out):
    fl = ["-std=c++20", "-O1", "-g", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w", "-I", REPO + "/include", "-I", REPO + "/src"]
    objs = []; jobs = []
    for s in sources() + sorted(glob.glob(REPO + "/src/*.s")) + [HERE + "/harness/api.cpp", HERE + "/harness/asan_main.cpp"]:
        o = os.path.join(d, "a_" + os.path.basename(s) + ".o"); objs.append(o)
        jobs.append(["gcc", "-c", s, "-o", o] if s.endswith(".s") else ["g++"] + fl + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    sh(["g++", "-fsanitize=address,undefined", "-rdynamic", "-o", out + ".tmp"] + objs + ["-ldl"])
    os.rename(out + ".tmp", out)
    return out
