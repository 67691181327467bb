"""C09: reported approximate maximum stable time step and the warning."""
import re, numpy as np, vbuild, models, app, ref, meshgen
RULE = ("case = random mesh anywhere in space, random materials, 1 or N ranks, requested time step below/above the limit by factors 1e-6..10; "
        "non-trivial = distinct (mesh, ratio)")
def ncases(tier): return 800 if tier == "quick" else 2500
MIN_DISTINCT = 60
def prepare(tier, seed): return {"exe": vbuild.app("plain")}

def case(o, rng, idx, tier, wd, sh):
    par = idx % 4 == 3; nr = int(rng.integers(2, 5)) if par else 1
    scale = 10.0 ** rng.uniform(-3, 3); org = scale * rng.uniform(-1, 1, 3) * 10.0 ** rng.uniform(-1, 1.5) * rng.integers(0, 2, 3)
    m = meshgen.hexa(rng, dims=rng.integers(2, 4, 3) if par else None, scale=scale, origin=org, twist=float(rng.choice([0, 0.3, 1.2])), shear=float(rng.choice([0, 0, 1.0, 2.5])) * float(rng.choice([-1, 1])), distort=float(rng.choice([0, 0.3, 0.45])), holes=float(rng.choice([0, 0.3])))
    meshgen.add_sets(rng, m, 1)
    mats = models.rand_mats(rng, m)
    for mt in mats: mt.K *= 10.0 ** rng.uniform(-2, 2); mt.G = mt.K * rng.uniform(0.1, 1); mt.rho *= 10.0 ** rng.uniform(-1, 1)
    md = ref.Model(m, mats); crit = md.crit_dt()
    ratio = float(rng.choice([0.1, 0.5, 1 - 1e-3, 1 - 1e-6, 1 + 1e-6, 1 + 1e-3, 2, 10]))
    n = int(rng.integers(1, 4)); t0 = float(rng.choice([0, 0, crit * 5])); 
    k = models.Case(); k.mesh = m; k.mats = mats; k.nsteps = n; k.t0 = t0; k.t1 = t0 + n * crit * ratio; k.freq = 0; k.conds = []
    dt = (k.t1 - k.t0) / n
    try: ms = meshgen.partition(rng, m, nr) if par else [m]
    except ValueError: return
    x = app.run(sh["exe"], models.deck(k, "displacement"), ms, wd, nranks=nr, args=["--use_tpetra"] if par and idx % 8 == 7 else [], read=False)
    if x.rc != 0 or x.timed_out: o.violation("run:failed", "run failed rc=%s: %s %s" % (x.rc, x.out[-500:], x.err[-800:])); return
    a = re.search(r"Approximate maximum stable time step:\s*(\S+)", x.out); b = re.search(r"User specified time step:\s*(\S+)", x.out)
    if not a or not b: o.violation("report", "no time step report in the output: %s" % x.out[-600:]); return
    try: a, b = float(a.group(1)), float(b.group(1))
    except ValueError: o.violation("report", "unreadable time step report: %s" % x.out[-600:]); return
    where = "%d ranks" % nr
    o.maxi("relative deviation", abs(a - crit) / crit)
    if not abs(a - crit) <= 2e-5 * crit: o.violation("limit:%s" % ("parallel" if par else "serial"), "%s: reports %g, smallest characteristic length / wave speed is %g (mesh box %s..%s)" % (where, a, crit, m.coords.min(0), m.coords.max(0))); return
    if not abs(b - dt) <= 2e-5 * dt: o.violation("user-step", "reports user time step %g, deck says %g" % (b, dt)); return
    warned = "WARNING" in x.out and "exceeds" in x.out
    if warned != (dt > crit): o.violation("warning", "%s: time step %r, limit %r (ratio %r): warning %s" % (where, dt, crit, ratio, "printed" if warned else "missing")); return
    o.count("warnings seen" if warned else "runs without warning"); o.count("parallel runs", par); o.count("elements", m.num_elem()); o.count("negative-coordinate meshes", (m.coords.max(0) < 0).any())
    o.case((idx, ratio))
    if idx < 3: o.sample({"ranks": nr, "critical": crit, "reported": a, "ratio": ratio, "warned": warned})
