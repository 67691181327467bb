"""C08: deformation gradient, stress, volume and their averages agree with the nodal displacements."""
import numpy as np, vbuild, models, app, ref, meshgen
RULE = ("case = random multi-block model, random conditions, random field list; non-trivial = distinct (model, field list) with deformed elements; "
        "every value at every written step is recomputed from the written displacements")
def ncases(tier): return 750 if tier == "quick" else 2500
MIN_DISTINCT = 60
def prepare(tier, seed): return {"exe": vbuild.app("plain")}
AVG = ["stress", "deformation_gradient", "volume"]
IPT = ["ipt%02d_%s" % (i, f) for i in range(1, 9) for f in ("stress", "deformation_gradient")]
SY = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)]; FU = SY + [(1, 0), (2, 1), (0, 2)]

def case(o, rng, idx, tier, wd, sh):
    k = models.rand_case(rng, nsteps=int(rng.integers(1, 10)), freq=int(rng.integers(1, 4)), amp=float(rng.choice([0.1, 0.4])), twist=True, holes=float(rng.choice([0, 0.3])))
    allf = AVG + IPT
    mode = idx % 3
    if mode == 0: sel = list(rng.permutation(AVG)[:rng.integers(1, 4)])
    elif mode == 1: sel = list(rng.permutation(IPT)[:rng.integers(1, 8)])
    else: sel = list(rng.permutation(allf)[:rng.integers(2, 14)])
    lst = [str(s) for s in sel] + ["displacement"]; lst = [lst[i] for i in rng.permutation(len(lst))]
    x = app.run(sh["exe"], models.deck(k, " ".join(lst)), k.mesh, wd)
    if not app.ok(o, x): return
    r = x.r; u = app.field(r, "displacement"); md = ref.Model(k.mesh, k.mats)
    if not np.isfinite(u).all() or np.abs(u).max() > 20 * k.h: o.count("skipped unstable model"); return
    amp = 1 + (np.abs(md.X).max() + np.abs(u).max()) / k.h
    for bi, b in enumerate(r.blocks):
        c = md.conn[bi]; mt = k.mats[bi]; em = mt.K + mt.G
        for i in range(len(r.times)):
            xx = (md.X + u[i])[c]; Fm = ref.F(md.X[c], xx); w = ref.detJ(xx); V = w.sum(1)
            if not (w > 0).all(): o.count("inverted elements skipped"); continue
            S = mt.stress(Fm); fs = max(1.0, np.abs(Fm).max()); ss = max(em, np.abs(S).max())
            if i == 0 and len(r.times) > 1: o.count("initial states")
            for f in sel:
                f = str(f)
                if f == "volume":
                    got = r.elem[b["id"]]["volume"][i][:, None]; want = V[:, None]; tol = 1e-11 * amp * V.max()
                else:
                    base = f[6:] if f.startswith("ipt") else f; comps = app.SYM if base == "stress" else app.FULL; ij = SY if base == "stress" else FU
                    got = np.stack([r.elem[b["id"]]["%s_%s" % (f, q)][i] for q in comps], 1)
                    T = S if base == "stress" else Fm
                    T = T[:, int(f[3:5]) - 1] if f.startswith("ipt") else np.einsum("eq,eqab->eab", w, T) / V[:, None, None]
                    want = np.stack([T[:, a, bb] for a, bb in ij], 1); tol = 1e-12 * amp * (ss if base == "stress" else fs) * 0.1
                d = np.abs(got - want); o.count("values compared", d.size)
                o.maxi("deviation/tolerance", d.max() / tol)
                if not (d <= tol).all():
                    e = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, 1e300)), d.shape)
                    key = ("ipt " if f.startswith("ipt") else "avg ") + (f[6:] if f.startswith("ipt") else f)
                    if i == 0: key = "initial " + key
                    o.violation(key, "%s (fields '%s') of block %d (%s) element %d component %d at written step %d: %r, recomputed %r (tolerance %g)" %
                                (f, " ".join(lst), b["id"], mt.model, e[0], e[1], i, got[e], want[e], tol)); return
    if np.abs(u).max() > 0: o.case((idx, " ".join(lst)))
    if idx < 2: o.sample({"fields": lst, "blocks": [(b["id"], mt.model) for b, mt in zip(r.blocks, k.mats)], "steps": len(r.times)})
