"""Support for the demonstrations: runs the built program on a small generated model."""
import os, re, subprocess, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import exo
REPO, WD = sys.argv[1], sys.argv[2]
EXE = os.path.join(REPO, "_build/src/NimbleSM")
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", OMPI_MCA_btl="self,vader,tcp",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
           OMPI_MCA_ess_singleton_isolated="1", TMPDIR=WD)
class R: pass
def run(tag, text, meshes, args=(), tries=3, timeout=90):
    """meshes: a Mesh or one per rank; returns rc, out, res (list of results)"""
    if not isinstance(meshes, (list, tuple)): meshes = [meshes]
    n = len(meshes)
    d = os.path.join(WD, tag); os.makedirs(d, exist_ok=True)
    name = lambda b, r: b if n == 1 else "%s.%d.%0*d" % (b, n, len(str(n)), r)
    for r, m in enumerate(meshes): exo.write(os.path.join(d, name("m.g", r)), m)
    open(os.path.join(d, "in.in"), "w").write(text)
    cmd = [EXE] + list(args) + ["in.in"]
    if n > 1: cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(n)] + cmd
    x = R()
    for k in range(tries):
        try:
            p = subprocess.run(cmd, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
            x.rc, x.out = p.returncode, p.stdout.decode("latin1")
        except subprocess.TimeoutExpired as e:
            x.rc, x.out = -1, "timed out"
        if x.rc == 0: break
    x.res = []
    if x.rc == 0:
        for r in range(n): x.res.append(exo.read(os.path.join(d, name("m.out.e", r))))
    x.r = x.res[0] if x.res else None
    return x
def deck(t1=1e-6, n=4, freq=1, fields="displacement velocity", mats=None, blocks=(), bcs=(), extra=(), t0=0.0):
    mats = mats or [("steel", "neohookean", 7800.0, 1.6e11, 0.8e11)]
    L = ["genesis input file: m.g", "exodus output file: m.e", "time integration scheme: explicit", "initial time: %.17g" % t0, "final time: %.17g" % t1,
         "number of load steps: %d" % n, "output frequency: %d" % freq]
    L += ["material parameters: %s %s density %.17g bulk_modulus %.17g shear_modulus %.17g" % m for m in mats]
    L += ["element block: %s %s" % b for b in blocks] + ["boundary condition: " + b for b in bcs] + ["output fields: " + fields]
    return "\n".join(L + list(extra)) + "\n"
def field(r, name): return np.stack([r.nodal[name + "_" + c] for c in "xyz"], 2)
def need(cond, msg):
    if not cond:
        print("FAILED: " + msg); sys.exit(1)
