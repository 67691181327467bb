"""C05: prescribed velocities/displacements and initial velocities appear exactly where and as stated."""
import numpy as np, vbuild, models, app, ref, meshgen
RULE = ("case = random mesh with 3-8 overlapping node sets (named / nodelist_<id>, with/without distribution factors, empty, single node) and 2-14 "
        "conditions of all kinds, constants and expressions, some given twice; non-trivial = distinct deck with at least one governed component checked at >= 2 written steps")
ASSUMPTIONS = ["initial-velocity expressions are evaluated at t=0; the initial output precedes any prescribed displacement"]
def ncases(tier): return 900 if tier == "quick" else 3000
MIN_DISTINCT = 60
def prepare(tier, seed): return {"exe": vbuild.app("plain")}

def case(o, rng, idx, tier, wd, sh):
    ns = int(rng.integers(3, 9))
    k = models.rand_case(rng, nsteps=int(rng.integers(2, 14)), ic=False, bc=False, nsets=ns, freq=int(rng.integers(1, 4)), amp=0.15)
    m = k.mesh
    if rng.random() < 0.4: s = m.node_sets[rng.integers(ns)]; s["nodes"] = s["nodes"][:1]; s["df"] = None if s.get("df") is None else s["df"][:1]
    if rng.random() < 0.2: s = m.node_sets[rng.integers(ns)]; s["nodes"] = s["nodes"][:0]; s["df"] = None
    if rng.random() < 0.3: s = m.node_sets[rng.integers(ns)]; s["nodes"] = rng.permutation(len(m.coords)); s["df"] = None
    va = 0.15 * k.h / k.T; cen = m.coords.mean(0)
    tiny = 10.0 ** -rng.uniform(3, 13) if rng.random() < 0.15 else 1.0
    kinds = ["initial_velocity", "prescribed_velocity", "prescribed_displacement"]
    for _ in range(int(rng.integers(2, 15))):
        kd = str(rng.choice(kinds)); s = m.node_sets[rng.integers(ns)]
        e = models.rand_expr(rng, tiny * (va if kd != "prescribed_displacement" else 0.015 * k.h), k.L, k.T, cen, time=kd != "initial_velocity", kind=None if rng.random() < 0.8 else 0)
        k.conds.append(models.Cond(kd, s, int(rng.integers(3)), e, meshgen.set_ref(rng, s)))
    if rng.random() < 0.4:
        for _ in range(int(rng.integers(1, 3))): k.conds.insert(int(rng.integers(len(k.conds) + 1)), k.conds[rng.integers(len(k.conds))])
    x = app.run(sh["exe"], models.deck(k, "displacement velocity acceleration"), m, wd)
    if not app.ok(o, x): return
    md, rec = models.reference(k)
    r = x.r; u = app.field(r, "displacement"); v = app.field(r, "velocity")
    if not np.isfinite(rec[-1][2]).all() or np.abs(rec[-1][2]).max() > 20 * k.h: o.count("skipped unstable model"); return
    if len(r.times) != len(rec): o.violation("steps", "wrote %d steps, expected %d" % (len(r.times), len(rec))); return
    nz = models.noise(k, md, rec); X = md.X
    # 1. direct: the last condition naming a component
    g = models.governed(k); vs = max(np.abs(q[3]).max() for q in rec) + 1e-300; us = max(np.abs(q[2]).max() for q in rec) + 1e-300
    chk = 0
    for i, q in enumerate(rec):
        for (nd, c), w in np.ndenumerate(g):
            if w is None: continue
            val = float(w.expr.fn(X[nd:nd + 1], q[1])[0])
            if w.kind == "prescribed_velocity":
                chk += 1
                if not abs(v[i, nd, c] - val) <= 1e-11 * (abs(val) + vs):
                    o.violation("prescribed-velocity", "written step %d (t=%g) node %d component %d: velocity %r, condition '%s' gives %r" % (i, q[1], nd, c, v[i, nd, c], w.text(), val)); return
            elif q[0] > 0:
                chk += 1
                if not abs(u[i, nd, c] - val) <= 1e-11 * (abs(val) + us):
                    o.violation("prescribed-displacement", "written step %d (t=%g) node %d component %d: displacement %r, condition '%s' gives %r" % (i, q[1], nd, c, u[i, nd, c], w.text(), val)); return
    # 2. initial state, all components
    d = np.abs(v[0] - rec[0][3])
    if not (d <= 1e-11 * (np.abs(rec[0][3]) + vs)).all():
        w = np.unravel_index(d.argmax(), d.shape); o.violation("initial-velocity", "initial velocity of node %d component %d is %r, expected %r" % (w[0], w[1], v[0][w], rec[0][3][w])); return
    # 3. the rest follows the equations of motion
    isd = np.array([[c is not None and c.kind == "prescribed_displacement" for c in row] for row in g])
    for i, q in enumerate(rec):
        for nm, A, R, nk, sc in (("displacement", u[i], q[2], "u", us), ("velocity", v[i], q[3], "v", vs)):
            d = np.abs(A - R)
            if nm == "velocity" and i > 0: d[isd] = 0
            if not (d <= 1e-9 * sc + nz[nk]).all():
                w = np.unravel_index(d.argmax(), d.shape); o.violation("free-" + nm, "%s of node %d component %d at t=%g is %r, expected %r" % (nm, w[0], w[1], q[1], A[w], R[w])); return
    o.count("governed values checked", chk); o.count("conditions", len(k.conds)); o.count("expressions", sum(c.expr.const is None for c in k.conds))
    o.count("components named twice", sum(len([c for c in k.conds if c.kind != "initial_velocity" and c.comp == b and nd in c.set["nodes"]]) > 1 for nd in range(len(X)) for b in range(3)))
    if chk and len(rec) > 1: o.case((idx, chk))
    else: o.evals += 1
    if idx < 2: o.sample({"conditions": [c.text() for c in k.conds], "set sizes": [len(s["nodes"]) for s in m.node_sets]})
