"""Builds NimbleSM's library objects, the NimbleSM program and the C++ harnesses from /repo's current working tree.

Objects are cached by content: key = (compiler flags, source file content, content of every header of the tree).  The
cache lives under /verif/.cache (git-ignored) and is only an accelerator; a cold build takes about 16 s."""
import hashlib, os, subprocess, sys, glob, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
CXX = "clang++"
L = "/usr/lib/x86_64-linux-gnu"
MPI_INC = [L + "/openmpi/include", L + "/openmpi/include/openmpi"]
DEFS = ["-DNIMBLE_HAVE_TRILINOS", "-DNIMBLE_HAVE_MPI", "-DNIMBLE_HAVE_KOKKOS", "-DNIMBLE_HAVE_EXODUS", "-DNDEBUG"]
TRI = ["tpetraext", "tpetrainout", "tpetra", "kokkostsqr", "tpetraclassiclinalg", "tpetraclassicnodeapi", "tpetraclassic",
       "epetra", "kokkoskernels", "teuchoskokkoscomm", "teuchoskokkoscompat", "teuchosremainder", "teuchosnumerics",
       "teuchoscomm", "teuchosparameterlist", "teuchosparser", "teuchoscore", "kokkosalgorithms", "kokkoscontainers",
       "kokkoscore"]
LIBS = (["-Wl,-rpath," + L + "/openmpi/lib", "-L" + L + "/openmpi/lib", "-lmpi_cxx", "-lmpi"]
        + [L + "/libtrilinos_%s.so.13.2" % t for t in TRI] + ["-ldl", "-llapack", "-lblas", L + "/libexoIIv2c.so"])
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
FLAVORS = {
    # asan+ubsan, unoptimised: quick to build, every source-level access is instrumented
    "san": ["-O0", "-g1"] + SAN,
    # asan+ubsan, optimised: faster runs, slower build
    "san1": ["-O1", "-g1"] + SAN,
    # no instrumentation: numerical oracles with many cases
    "plain": ["-O1", "-g1"],
    # asan+ubsan plus checked containers and checked Kokkos views
    "hard": ["-O0", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"] + SAN,
    # as plain, every automatic variable that the program leaves uninitialised starts as a bit pattern
    "pattern": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"],
    # for valgrind memcheck
    "vg": ["-O1", "-g"],
    # coverage-guided fuzzing
    "fuzz": ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=vptr"],
}
LINKSAN = {"san": SAN, "san1": SAN, "hard": SAN, "plain": [], "pattern": [], "vg": [], "fuzz": ["-fsanitize=fuzzer,address,undefined"]}

class BuildError(Exception):
    pass

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def sources():
    s = os.path.join(REPO, "src")
    out = []
    for pat in ("*.cc", "integrators/*.cc", "contact/*.cc", "contact/serial/*.cc", "contact/parallel/*.cc"):
        for f in sorted(glob.glob(os.path.join(s, pat))):
            b = os.path.basename(f)
            if b == "nimble_main.cc" or b.startswith("bvh_") or b.startswith("arborx_"):
                continue
            out.append(f)
    return out

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in ("src", "tpl"):
            for d, _, fs in sorted(os.walk(os.path.join(REPO, root))):
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".hxx", ".inl", ".ipp", ".tcc")):
                        p = os.path.join(d, f)
                        h.update(os.path.relpath(p, REPO).encode()); h.update(_read(p))
        _hdr = h.hexdigest()
    return _hdr

def cflags(flavor, extra=()):
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "tpl"), "-isystem", "/usr/include/trilinos"]
    for i in MPI_INC:
        inc += ["-isystem", i]
    return ["-std=c++14", "-w"] + FLAVORS[flavor] + inc + DEFS + list(extra)

def _obj(src, flavor, extra=(), deps=()):
    fl = cflags(flavor, extra)
    h = hashlib.sha256()
    h.update((" ".join(fl) + "\0" + src).encode()); h.update(_read(src)); h.update(header_hash().encode())
    for d in deps:
        h.update(_read(d))
    o = os.path.join(CACHE, "obj", h.hexdigest()[:40] + ".o")
    return o, fl

def compile_one(src, flavor, extra=(), deps=()):
    o, fl = _obj(src, flavor, extra, deps)
    if os.path.exists(o):
        try: os.utime(o)
        except OSError: pass
        return o
    os.makedirs(os.path.dirname(o), exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.dirname(o)); os.close(fd)
    r = subprocess.run([CXX] + fl + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if os.path.exists(tmp): os.unlink(tmp)
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.rename(tmp, o)
    return o

def compile_many(jobs):
    """jobs: list of (src, flavor, extra, deps); biggest first so that the long poles start early"""
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
    res = [None] * len(jobs)
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        futs = {i: ex.submit(compile_one, *jobs[i]) for i in order}
        for i in order:
            res[i] = futs[i].result()
    return res

def link(objs, flavor, name, extra=()):
    h = hashlib.sha256(("\0".join(objs) + flavor + " ".join(extra)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, "bin"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s-%s" % (name, flavor, h))
    if os.path.exists(exe):
        try: os.utime(exe)
        except OSError: pass
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + LINKSAN[flavor] + ["-o", tmp] + objs + list(extra) + LIBS, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
    os.rename(tmp, exe)
    prune()
    return exe

def prune(limit=3 << 30):
    fs = []
    for sub in ("obj", "bin"):
        d = os.path.join(CACHE, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                try: st = os.stat(os.path.join(d, f))
                except OSError: continue
                fs.append((st.st_mtime, st.st_size, os.path.join(d, f)))
    tot = sum(x[1] for x in fs)
    for m, s, p in sorted(fs):
        if tot <= limit or time.time() - m < 1800:
            break
        try: os.unlink(p); tot -= s
        except OSError: pass

def app(flavor="san", ensemble=False):
    """the NimbleSM program; ensemble: with the uncertainty-quantification option (NIMBLE_HAVE_UQ)"""
    srcs = sources() + [os.path.join(REPO, "src", "nimble_main.cc")]; extra = ()
    if ensemble:
        srcs += sorted(glob.glob(os.path.join(REPO, "src", "uq", "*.cc")))
        extra = ("-DNIMBLE_HAVE_UQ", "-I" + os.path.join(REPO, "src", "uq"))
    return link(compile_many([(s, flavor, extra, ()) for s in srcs]), flavor, "NimbleSM-uq" if ensemble else "NimbleSM")

def harness(name, flavor="san", only=None, extra=(), link_extra=()):
    """links /verif/harness/<name>.cc with the library objects (all, or just those whose basename is in `only`)"""
    src = os.path.join(VERIF, "harness", name + ".cc")
    deps = tuple(sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))))
    extra = tuple(extra) + ("-I" + os.path.join(VERIF, "harness"),)
    libs = sources()
    if only is not None:
        sub = [s for s in libs if os.path.basename(s) in only]
        if len(sub) == len(only):
            try:
                objs = compile_many([(src, flavor, extra, deps)] + [(s, flavor, (), ()) for s in sub])
                return link(objs, flavor, name, link_extra)
            except BuildError as e:
                if "linking" not in str(e):
                    raise
    objs = compile_many([(src, flavor, extra, deps)] + [(s, flavor, (), ()) for s in libs])
    return link(objs, flavor, name, link_extra)

if __name__ == "__main__":
    for f in sys.argv[1:] or ["san"]:
        t = time.time(); print(app(f), round(time.time() - t, 1), "s")

def preload(name):
    """a C library to preload from /verif/harness"""
    src = os.path.join(VERIF, "harness", name + ".c"); d = os.path.join(CACHE, "bin"); os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "%s-%s.so" % (name, hashlib.sha256(_read(src)).hexdigest()[:20]))
    if not os.path.exists(so):
        r = subprocess.run(["clang", "-O1", "-shared", "-fPIC"] + sum([["-isystem", i] for i in MPI_INC], []) + [src, "-o", so + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError(r.stdout[-2000:])
        os.rename(so + ".tmp", so)
    return so
