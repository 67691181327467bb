"""Runs the NimbleSM program on a generated model and reads back what it produced."""
import os, re, numpy as np
import exo, common
from common import sh, sh_twice, ENV, san_report, CheckError

FLOAT = "%.17g"
class Deck:
    """an input deck; str(deck) is its text"""
    def __init__(s, mesh="m.g", out="m.e", scheme="explicit", t0=0.0, t1=1.0, nsteps=1, freq=1, fields="displacement velocity",
                 materials=(), blocks=(), bcs=(), extra=()):
        s.mesh, s.out, s.scheme, s.t0, s.t1, s.nsteps, s.freq, s.fields = mesh, out, scheme, t0, t1, nsteps, freq, fields
        s.materials, s.blocks, s.bcs, s.extra = list(materials), list(blocks), list(bcs), list(extra)
    def lines(s):
        L = ["genesis input file: " + s.mesh, "exodus output file: " + s.out, "time integration scheme: " + s.scheme,
             "initial time: " + FLOAT % s.t0, "final time: " + FLOAT % s.t1, "number of load steps: %d" % s.nsteps]
        if s.freq is not None: L.append("output frequency: %d" % s.freq)
        for m in s.materials:  # (key, model, dict)
            L.append("material parameters: %s %s %s" % (m[0], m[1], " ".join("%s %s" % (k, v if isinstance(v, str) else FLOAT % v) for k, v in m[2].items())))
        for b, m in s.blocks: L.append("element block: %s %s" % (b, m))
        for b in s.bcs: L.append("boundary condition: " + b)
        if s.fields: L.append("output fields: " + s.fields)
        return L + s.extra
    def __str__(s): return "\n".join(s.lines()) + "\n"

class Run: pass

def part_name(base, n, r):
    return base if n == 1 else "%s.%d.%0*d" % (base, n, len(str(n)), r)

def run(exe, deck, meshes, wd, tag="run", nranks=1, args=(), timeout=120, env=None, outbase=None, read=True, retry_timeout=True, mpiargs=()):
    """meshes: one Mesh (serial) or list of per-rank Meshes.  Returns Run(rc,out,err,timed_out,results,san)"""
    d = os.path.join(wd, tag); os.makedirs(d, exist_ok=True)
    if meshes is not None:
        if not isinstance(meshes, (list, tuple)): meshes = [meshes]
        stem = deck.mesh[:-2] if isinstance(deck, Deck) else "m"
        for r, m in enumerate(meshes): exo.write(os.path.join(d, part_name(stem + ".g", nranks, r)), m)
    with open(os.path.join(d, "in.in"), "w") as f: f.write(str(deck))
    cmd = [exe] + list(args) + ["in.in"]
    if nranks > 1: cmd = ["mpirun", "--oversubscribe", "--bind-to", "none"] + list(mpiargs) + ["-np", str(nranks)] + cmd
    e = dict(ENV); e.update(env or {}); e.setdefault("TMPDIR", "/tmp")
    x = Run(); x.cmd = " ".join(cmd); x.dir = d
    x.rc, x.out, x.err, x.timed_out = (sh_twice if retry_timeout else sh)(cmd, d, timeout, e)
    x.san = san_report(x.err + "\n" + x.out)
    x.res = []
    if read and x.rc == 0:
        stem = (deck.out[:-2] if isinstance(deck, Deck) else "m") if outbase is None else outbase
        for r in range(nranks):
            p = os.path.join(d, part_name(stem + ".out.e", nranks, r))
            try: x.res.append(exo.read(p))
            except IOError as ex: x.res.append(None)
    x.r = x.res[0] if x.res else None
    return x

def ok(o, x, what=""):
    """records a violation when a valid run did not end normally; returns True when results can be judged"""
    if x.san:
        o.violation("run:" + x.san[0], "sanitizer report in a valid run %s: %s" % (what, x.san[1])); return False
    if x.timed_out:
        o.violation("run:hang", "valid run did not end %s: %s\n%s" % (what, x.out[-600:], x.err[-600:])); return False
    if x.rc != 0:
        o.violation("run:failed", "valid run failed rc=%s %s: %s\n%s" % (x.rc, what, x.out[-800:], x.err[-1200:])); return False
    if any(r is None for r in x.res) or not x.res:
        o.violation("run:nooutput", "valid run left no readable output database %s" % what); return False
    return True

def field(r, name, shape="vector"):
    """nodal field of a Result as (nt, n[, 3])"""
    if shape == "scalar": return r.nodal[name]
    return np.stack([r.nodal[name + "_" + c] for c in "xyz"], 2)

SYM = ["xx", "yy", "zz", "xy", "yz", "zx"]
FULL = ["xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"]
def elem_field(r, bid, name, comps):
    d = r.elem[bid]
    return np.stack([d[name + "_" + c] for c in comps], 2)
