"""C02: conservation of mass, momentum, angular momentum and energy along free motions."""
import numpy as np, vbuild, models, app, ref
RULE = ("case = random free multi-block mesh with random initial velocities, every step written; neo-Hookean models also at dt/2 for the "
        "energy order; non-trivial = distinct model with non-zero internal forces")
ASSUMPTIONS = ["energy is judged for the neo-Hookean law only (the linear law has no frame-indifferent energy)"]
def ncases(tier): return 480 if tier == "quick" else 3000
MIN_DISTINCT = 30
def prepare(tier, seed): return {"exe": vbuild.app("plain")}
FIELDS = "lumped_mass displacement velocity internal_force"

def case(o, rng, idx, tier, wd, sh):
    neo = idx % 2 == 0
    k = models.rand_case(rng, nsteps=int(rng.integers(5, 40)), bc=False, freq=1, kinds=("neohookean",) if neo else ("elastic", "neohookean"),
                         amp=0.3, holes=float(rng.choice([0, 0.3])), twist=True, nsets=4)
    x = app.run(sh["exe"], models.deck(k, FIELDS), k.mesh, wd)
    if not app.ok(o, x): return
    md = ref.Model(k.mesh, k.mats); r = x.r
    m = r.nodal["lumped_mass"]; u = app.field(r, "displacement"); v = app.field(r, "velocity"); f = app.field(r, "internal_force")
    if not (np.isfinite(u).all() and np.isfinite(f).all() and np.isfinite(v).all()) or np.abs(u).max() > 20 * k.h:
        md_, rec = models.reference(k)
        if np.abs(rec[-1][2]).max() > 20 * k.h or not np.isfinite(rec[-1][2]).all(): o.count("skipped unstable model"); return
        o.violation("nonfinite", "free motion became non-finite or blew up although the reference stays bounded"); return
    M = sum(mt.rho * ref.volume(md.X[c]).sum() for c, mt in zip(md.conn, k.mats))
    if not abs(m[0].sum() - M) <= 1e-11 * M: o.violation("mass", "nodal masses sum to %r, density x volume is %r" % (m[0].sum(), M))
    if not (m == m[0]).all(): o.violation("mass-changes", "nodal mass changed during the run")
    if not (m > 0).all(): o.violation("mass-sign", "non-positive nodal mass %r" % m.min())
    nz = models.noise(k, md, [(0, 0, u[-1], v[-1], f[-1], f[-1])])
    x0 = md.X; cen = x0.mean(0)
    fs = np.abs(f).sum((1,)).max() + nz["f"].sum()
    ftol = 1e-12 * np.abs(f).sum((1, 2)).max() + nz["f"].sum()
    R = f.sum(1); bad = np.abs(R).max()
    o.maxi("resultant / sum of forces", bad / max(fs, 1e-300))
    if not bad <= ftol: o.violation("resultant", "internal forces sum to %r at a step (tolerance %g, forces %g)" % (R[np.abs(R).max(1).argmax()], ftol, fs))
    X = x0 + u - cen; Q = np.cross(X, f).sum(1); L = np.abs(X).max()
    if not np.abs(Q).max() <= 4 * L * ftol: o.violation("moment", "moment of internal forces %r exceeds %g" % (Q[np.abs(Q).max(1).argmax()], 4 * L * ftol))
    mm = m[0][:, None]; P = (mm * v).sum(1); ps = (mm * np.abs(v)).sum() / len(v) + 1e-300
    T = k.dt * k.nsteps
    ptol = 1e-11 * ps + ftol * T
    if not np.abs(P - P[0]).max() <= ptol: o.violation("momentum", "linear momentum drifted by %r (tolerance %g, scale %g)" % (np.abs(P - P[0]).max(), ptol, ps))
    H = (mm * np.cross(X, v)).sum(1)
    htol = 4 * L * (1e-11 * ps * 3 + ftol * T)
    o.maxi("angular momentum drift / scale", np.abs(H - H[0]).max() / (L * ps))
    if not np.abs(H - H[0]).max() <= htol: o.violation("angular-momentum", "angular momentum drifted by %r (tolerance %g)" % (np.abs(H - H[0]).max(), htol))
    o.count("steps observed", len(r.times))
    if np.abs(f).max() > 0: o.case((idx, k.nsteps, k.mesh.num_elem()))
    if neo:
        def energy(uu, vv): return np.array([0.5 * (mm * b * b).sum() + md.strain_energy(a) for a, b in zip(uu, vv)])
        E = energy(u, v); e1 = np.abs(E - E[0]).max()
        k2 = k; k2.nsteps *= 2; k2.freq = 2; k2.dt *= 0.5
        y = app.run(sh["exe"], models.deck(k2, FIELDS), k.mesh, wd, tag="half")
        if not app.ok(o, y, "dt/2"): return
        E2 = energy(app.field(y.r, "displacement"), app.field(y.r, "velocity")); e2 = np.abs(E2 - E2[0]).max()
        amax = np.abs(md.X).max() + np.abs(u).max()   # strains are differences of coordinates: what rounding leaves of their energy
        floor = 1e-9 * abs(E[0]) + 2e-14 * (1 + amax / k.h) * sum(mt.K * ref.volume(md.X[c]).sum() for c, mt in zip(md.conn, k.mats))
        if e1 > 0.25 * abs(E[0]) + floor: o.violation("energy", "total energy moved by %g of %g within the stability limit" % (e1, E[0]))
        elif e1 > floor * 10:
            o.maxi("energy drift at dt / E", e1 / E[0]); o.maxi("energy drift at dt/2 / E", e2 / E[0]); o.maxi("energy drift ratio", e2 / e1); o.count("energy order observed")
            if e2 > 0.55 * e1 + floor: o.violation("energy-order", "energy drift %g at dt, %g at dt/2 (E=%g): not second order" % (e1, e2, E[0]))
    if idx < 2: o.sample({"elements": k.mesh.num_elem(), "steps": k.nsteps, "resultant": float(bad), "force scale": float(fs)})
