"""C01: every written step of an explicit run equals the independent reference simulation."""
import numpy as np, vbuild, models, app, ref, meshgen
RULE = ("case = random multi-block distorted hex mesh x materials x initial/boundary conditions x steps; non-trivial = distinct "
        "(mesh, deck) whose motion is non-zero and was compared at >= 2 written steps")
ASSUMPTIONS = ["velocities at components under prescribed displacement are excluded (the code reports the correction velocity there)"]
def ncases(tier): return 900 if tier == "quick" else 3000
MIN_DISTINCT = 20
def prepare(tier, seed): return {"exe": vbuild.app("plain")}
FIELDS = "lumped_mass displacement velocity acceleration internal_force reference_coordinate"

def compare(o, k, md, rec, r, tag="", rel=1e-9, fields=("displacement", "velocity", "acceleration", "internal_force")):
    """compares a Result with reference records; returns False after the first deviation"""
    if len(r.times) != len(rec):
        o.violation("steps", "%s wrote %d steps, expected %d (%s)" % (tag, len(r.times), len(rec), [q[0] for q in rec])); return False
    nz = models.noise(k, md, rec); live = md.m > 0
    g = models.governed(k)
    isdisp = np.array([[c is not None and c.kind == "prescribed_displacement" for c in row] for row in g])
    idx = {"displacement": 2, "velocity": 3, "acceleration": 4, "internal_force": 5}; nk = {"displacement": "u", "velocity": "v", "acceleration": "a", "internal_force": "f"}
    if "lumped_mass" in r.nodal:
        e = np.abs(r.nodal["lumped_mass"] - md.m).max()
        if not e <= 1e-12 * md.m.max(): o.violation("lumped_mass", "%s lumped mass off by %g (max %g)" % (tag, e, md.m.max())); return False
    tt = max(abs(q[1]) for q in rec) + abs(k.t1)
    for i, q in enumerate(rec):
        if not abs(r.times[i] - q[1]) <= 1e-12 * tt: o.violation("time", "%s step %d time %r expected %r" % (tag, i, r.times[i], q[1])); return False
    for fn in fields:
        A = app.field(r, fn); R = np.stack([q[idx[fn]] for q in rec])
        sc = np.abs(R[:, live]).max() if live.any() else 0
        tol = rel * sc + nz[nk[fn]]
        mask = np.broadcast_to(live[:, None], (md.n, 3)).copy()
        for i, q in enumerate(rec):
            mk = mask.copy()
            if fn == "velocity" and q[0] > 0: mk &= ~isdisp
            d = np.abs(A[i] - R[i]); bad = mk & ~(d <= tol)
            if mk.any() and sc > 0: o.maxi("relative deviation " + fn, float(np.nanmax(np.where(mk, d, 0)) / sc))
            o.count("values compared", mk.sum())
            if bad.any():
                w = np.argwhere(bad)[0]
                o.violation(fn, "%s %s differs at written step %d (t=%g) node %d comp %d: program %r reference %r (tol %g, scale %g, %d of %d bad)" %
                            (tag, fn, i, q[1], w[0], w[1], A[i][tuple(w)], R[i][tuple(w)], (tol if np.isscalar(tol) else tol[tuple(w)]), sc, bad.sum(), mk.sum()))
                return False
    return True

def traction(o, rng, idx, wd, sh):
    """a condition the deck can express: a traction on a side set must act (or be refused); known finding"""
    k = models.rand_case(rng, dims=(2, 2, 2), nsteps=4, freq=1, bc=False, ic=False, holes=0.0, distort=0.0, gids=False, nblocks=1)
    k.conds = []; k.mesh.side_sets = [dict(id=1, name="surface_1", elems=np.array([1, 2]), sides=np.array([5, 5]), df=None)]
    d = models.deck(k, FIELDS); d.bcs.append("prescribed_traction surface_1 x %g" % (1e-3 * max(float(m.K) for m in k.mats)))
    x = app.run(sh["exe"], d, k.mesh, wd)
    if x.rc != 0 and not x.san: o.count("traction refused"); return
    if not app.ok(o, x): return
    if not np.abs(app.field(x.r, "displacement")).max() > 1e-9 * k.h: o.violation("prescribed_traction without effect", "a body at rest under a prescribed_traction on a side set stays at rest, without a message")

def case(o, rng, idx, tier, wd, sh):
    if idx == ncases(tier) - 1: return traction(o, rng, idx, wd, sh)
    big = tier == "thorough" and idx % 10 == 0
    kw = dict(dims=rng.integers(2, 7, 3)) if big else {}
    k = models.rand_case(rng, nsteps=(int(rng.integers(10, 80)) if big else None), bc=rng.random() < 0.75, ic=True, holes=float(rng.choice([0, 0, 0.3])), twist=rng.random() < 0.3,
                         distort=float(rng.choice([0.0, 0.2, 0.4])), gids=rng.random() < 0.7, **kw)
    d = models.deck(k, FIELDS)
    x = app.run(sh["exe"], d, k.mesh, wd)
    if not app.ok(o, x): return
    md, rec = models.reference(k)
    um = np.abs(rec[-1][2]).max()
    if not np.isfinite(um) or um > 20 * k.h:
        o.count("skipped unstable model"); return
    good = compare(o, k, md, rec, x.r)
    o.count("blocks", len(k.mesh.blocks)); o.count("elements", k.mesh.num_elem()); o.count("steps", k.nsteps); o.count("conditions", len(k.conds))
    o.count("elastic blocks", sum(mt.model == "elastic" for mt in k.mats))
    if um > 0 and len(rec) >= 2: o.case((idx, k.mesh.num_elem(), k.nsteps, round(float(um), 12)))
    else: o.evals += 1
    if idx < 2: o.sample({"elements": k.mesh.num_elem(), "blocks": len(k.mesh.blocks), "steps": k.nsteps, "conditions": [c.text() for c in k.conds], "max displacement": float(um), "h": k.h})
