"""C06: output schedule; changing what/when is written never changes what both runs write."""
import numpy as np, vbuild, models, app, ref, meshgen
RULE = ("case = one model run 3-4 times with different output frequencies and output field lists; non-trivial = distinct (schedule, field list) "
        "with at least one written step and field common to two runs")
def ncases(tier): return 220 if tier == "quick" else 1200
MIN_DISTINCT = 30
def prepare(tier, seed): return {"exe": vbuild.app("plain")}
NOD = ["lumped_mass", "reference_coordinate", "displacement", "velocity", "acceleration", "internal_force", "external_force"]
ELE = ["stress", "deformation_gradient", "volume"] + ["ipt%02d_%s" % (i, f) for i in (1, 3, 8) for f in ("stress", "deformation_gradient")]

def expected_steps(n, freq):
    s = [0]
    if freq:
        for kk in range(1, n + 1):
            if (kk - 1) % freq == 0 or kk == n: s.append(kk)
    return s

def case(o, rng, idx, tier, wd, sh):
    long = idx % 37 == 5
    k = models.rand_case(rng, dims=(1, 1, 1) if long else None, nsteps=int(rng.integers(250, 700) if long else rng.integers(1, 22)), freq=1, holes=0.2 if idx % 3 == 0 else 0.0)
    runs = []
    # irrational looking and large time offsets
    full = models.deck(k, " ".join(NOD + ELE))
    confs = [(1, NOD + ELE)]
    for _ in range(3):
        f = int(rng.choice([0, 1, 2, 3, 5, 7, k.nsteps, k.nsteps + 1, max(1, k.nsteps - 1)]))
        allf = NOD + ELE; sel = [allf[i] for i in rng.permutation(len(allf))[:int(rng.integers(1, len(allf) + 1))]]
        confs.append((f, sel))
    for i, (f, sel) in enumerate(confs):
        x = app.run(sh["exe"], models.deck(k, " ".join(sel), freq=f), k.mesh, wd, tag="r%d" % i)
        if not app.ok(o, x, "freq %d fields %s" % (f, sel)): return
        st = expected_steps(k.nsteps, f); r = x.r
        acc = [k.t0]
        for _ in range(k.nsteps): acc.append(acc[-1] + (k.t1 - k.t0) / k.nsteps)
        if len(r.times) != len(st):
            o.violation("schedule", "%d load steps, output frequency %d: wrote %d states at %s, expected steps %s" % (k.nsteps, f, len(r.times), list(r.times), st)); return
        want = np.array([acc[q] for q in st]); dt = (k.t1 - k.t0) / k.nsteps
        if not np.abs(r.times - want).max() <= 1e-6 * dt + 1e-14 * (abs(k.t0) + abs(k.t1)):
            o.violation("times", "%d load steps, frequency %d: times %s, expected %s" % (k.nsteps, f, list(r.times), list(want))); return
        if not (np.diff(r.times) > 0).all(): o.violation("order", "time values not increasing: %s" % list(r.times)); return
        runs.append((f, sel, st, r)); o.count("states written", len(st)); o.count("runs")
    base = runs[0]; common = 0
    for f, sel, st, r in runs[1:]:
        for nm, A in r.nodal.items():
            if nm not in base[3].nodal: o.violation("missing", "%s missing from the run that requested everything" % nm); return
            B = base[3].nodal[nm][st]; common += A.size
            if not ((A == B) | (np.isnan(A) & np.isnan(B))).all():
                w = np.argwhere(A != B)[0]; o.violation("interference:nodal", "%s at step %d node %d is %r with frequency %d fields %s, %r with frequency 1 and all fields" % (nm, st[w[0]], w[1], A[tuple(w)], f, sel, B[tuple(w)])); return
        for bid, d in r.elem.items():
            for nm, A in d.items():
                if nm not in base[3].elem[bid]: o.violation("missing", "%s missing from the run that requested everything" % nm); return
                B = base[3].elem[bid][nm][st]; common += A.size
                if not ((A == B) | (np.isnan(A) & np.isnan(B))).all():
                    w = np.argwhere(A != B)[0]; o.violation("interference:element", "%s of block %d at step %d element %d is %r with frequency %d fields %s, %r with frequency 1 and all fields" % (nm, bid, st[w[0]], w[1], A[tuple(w)], f, sel, B[tuple(w)])); return
        for s in sel:
            have = r.nodal_names + r.elem_names
            if not any(h == s or h.startswith(s + "_") for h in have): o.violation("field-absent", "requested field %s is not in the output" % s); return
        if common: o.case((idx, f, " ".join(sel), k.nsteps))
    o.count("values compared bit for bit", common)
    if idx < 2: o.sample({"steps": k.nsteps, "runs": [(f, s) for f, s, _, _ in runs]})
