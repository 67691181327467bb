"""C25: the performance-portable and the plain evaluation path agree."""
import re, numpy as np, vbuild, app, meshgen, ref, models
RULE = ("case = one random model through both model-data implementations (switched inside the program), either a probe that sets random displacement fields on 1-3 ranks and evaluates mass, time step, forces, gradients, "
        "stresses and averages, or a whole explicit run; every written value and the printed time steps are compared; non-trivial = distinct (model, fields) that deforms")
ASSUMPTIONS = ["contact is evaluated by one path only and is left out", "the plain path is entered by replacing the data manager's model data before the integrator starts"]
def ncases(tier): return 220 if tier == "quick" else 2500
MIN_DISTINCT = 50
def prepare(tier, seed): return {"exe": vbuild.harness("c25app", "plain"), "san": vbuild.harness("c25app", "san"), "seed": seed}
NODAL = ["displacement", "velocity", "acceleration", "internal_force", "external_force"]
ELEM = ["stress", "deformation_gradient", "volume"]
IPT = ["ipt%02d_%s" % (i, f) for i in range(1, 9) for f in ("stress", "deformation_gradient")]

def case(o, rng, idx, tier, wd, sh):
    probe = idx % 2 == 0; nr = int(rng.choice([1, 1, 1, 2, 3]))
    k = models.rand_case(rng, nsteps=int(rng.integers(1, 25)), freq=int(rng.integers(1, 4)), amp=float(rng.choice([0.1, 0.4])), twist=True, holes=float(rng.choice([0, .3])), nblocks=int(rng.integers(1, 5)), dims=rng.integers(1, 4, 3))
    sel = [str(f) for f in rng.permutation(ELEM + IPT)[:rng.integers(1, 7)]]
    lst = NODAL + ["lumped_mass"] + sel; lst = [lst[i] for i in rng.permutation(len(lst))]
    d = models.deck(k, " ".join(lst)); over = {}
    if rng.random() < .4:  # the plain path also takes single components by name
        l2 = []
        for f in lst:
            if f in ("volume", "lumped_mass") or rng.random() < .5: l2.append(f); continue
            l2 += [f + "_" + c for c in (app.FULL if "gradient" in f else app.SYM if "stress" in f else "xyz")]
        over = {"VERIF_FIELDS": " ".join(l2[i] for i in rng.permutation(len(l2)))}
    md = ref.Model(k.mesh, k.mats)
    try: parts = meshgen.partition(rng, k.mesh, nr, mode=str(rng.choice(["random", "slab", "block"]))) if nr > 1 else [k.mesh]
    except ValueError: return
    env = {}; steps = 0
    if probe: steps = int(rng.integers(2, 7)); env["VERIF_PROBE"] = "%d %d %.17g" % (rng.integers(1, 1 << 30), steps, k.h * float(rng.choice([1e-6, .02, .1, .2])))
    exe = sh["san"] if nr == 1 and idx % 8 in (0, 3) else sh["exe"]; X = []
    for plain in (0, 1):
        x = app.run(exe, d, parts, wd, tag="p%d" % plain, nranks=nr, env=dict(env, VERIF_PLAIN="1", **over) if plain else env, args=["--use_tpetra"] if nr > 1 and rng.random() < .3 else [])
        if not app.ok(o, x, "%s path, %s, %d ranks" % (["portable", "plain"][plain], "probe" if probe else "run", nr)): return
        b = re.findall(r"VERIF-BAD (.*)", x.out)
        if b: o.violation("view:" + b[0], "%s path: %s" % (["portable", "plain"][plain], "; ".join(b[:5]))); return
        x.dt = [float(v) for v in (re.findall(r"VERIF-DT \d+ (\S+)", x.out) if probe else re.findall(r"maximum stable time step:\s+(\S+)", x.out))]; X.append(x)
    a, b = X; noise = None
    if not (len(a.dt) == len(b.dt) == (steps if probe else 1)) or not np.allclose(a.dt, b.dt, rtol=1e-11 if probe else 1e-5, atol=0): o.violation("time step", "critical time steps %s, plain path %s" % (a.dt, b.dt)); return
    o.count("time steps compared", len(a.dt))
    if any(len(p.times) != len(q.times) or not np.array_equal(p.times, q.times) for p, q in zip(a.res, b.res)): o.violation("times", "written times differ: %s, plain path %s" % (a.r.times, b.r.times)); return
    if not np.isfinite(app.field(a.r, "displacement")).all() or max(np.abs(app.field(r, "displacement")).max() for r in a.res) > 20 * k.h: o.count("skipped unstable model"); return
    if not probe: noise = models.noise(k, *models.reference(k), safety=4)
    umax = max(np.abs(app.field(r, "displacement")).max() for r in a.res); amp = 1 + (np.abs(md.X).max() + umax) / k.h; E = max(m.K + m.G for m in k.mats)
    gix = {int(g): i for i, g in enumerate(k.mesh.node_gid)} if k.mesh.node_gid is not None else {i + 1: i for i in range(len(md.X))}
    ok = True
    # displacement of the whole mesh at every written step
    nt = len(a.r.times); U = np.zeros((nt, len(md.X), 3))
    for r in a.res: U[:, [gix[int(g)] for g in r.node_gid]] = app.field(r, "displacement")
    inv = np.zeros(nt, bool); FS = []
    for i in range(nt):
        inv[i] = any((ref.detJ((md.X + U[i])[c]) <= 1e-3 * ref.detJ(md.X[c])).any() for c in md.conn if len(c))
        FS.append(md.force_scale(U[i]) if not inv[i] else np.zeros((len(md.X), 3)))
    fsc = max(np.abs(f).max() for f in FS)
    def cmp(key, p, q, tol, i):
        dv = np.abs(p - q); o.count("values compared", dv.size)
        if not dv.size: return
        bad = ~(dv <= tol)
        with np.errstate(all="ignore"): z = np.where(dv > 0, dv / np.maximum(tol, 1e-300), 0); o.maxi("deviation/tolerance", np.nanmax(z))
        if bad.any():
            e = tuple(int(v) for v in np.unravel_index(np.argmax(bad), bad.shape)); o.violation(key, "%s at written step %d, entry %s: %r, plain path %r, allowed %r (%s, %d ranks, fields '%s')" % (key, i, e, p[e], q[e], float(np.broadcast_to(tol, dv.shape)[e]), "probe" if probe else "run", nr, " ".join(lst)))
    for r0, r1 in zip(a.res, b.res):
        if set(r0.nodal) != set(r1.nodal) or any(set(r0.elem[bb]) != set(r1.elem[bb]) for bb in r0.elem): o.violation("fields", "fields written differ: %s %s, plain path %s %s" % (sorted(r0.nodal), {q: sorted(r0.elem[q]) for q in r0.elem}, sorted(r1.nodal), {q: sorted(r1.elem[q]) for q in r1.elem})); return
        ix = np.array([gix[int(g)] for g in r0.node_gid])
        for i in range(nt):
            if inv[i]: o.count("inverted states skipped"); continue
            m0, m1 = r0.nodal["lumped_mass"][i], r1.nodal["lumped_mass"][i]; cmp("lumped mass", m0, m1, 1e-12 * amp * np.abs(m0), i)
            f0 = 1e-13 * amp * (FS[i][ix] if FS[i].ndim == 2 else FS[i][ix][:, None]) if not np.isscalar(FS[i]) else 1e-13 * amp * FS[i]
            f0 = f0 + 1e-14 * amp * fsc
            for nm in NODAL:
                p, q = app.field(r0, nm)[i], app.field(r1, nm)[i]
                if probe: t = {"internal_force": f0}.get(nm, 0.0)
                else:
                    t = {"displacement": noise["u"], "velocity": noise["v"], "acceleration": noise["a"][ix] if np.ndim(noise["a"]) else noise["a"], "internal_force": noise["f"][ix] + f0 if np.ndim(noise["f"]) else noise["f"] + f0, "external_force": 0.0}[nm]
                if nm == "acceleration" and probe: continue
                cmp(nm, p, q, t, i)
            du = 0 if probe else noise["u"]
            for bb in r0.elem:
                for nm in r0.elem[bb]:
                    p, q = r0.elem[bb][nm][i], r1.elem[bb][nm][i]
                    t = (1e-13 * amp + 8 * du / k.h) * (E if "stress" in nm else 1.0)
                    if nm == "volume": t = (1e-13 * amp + 30 * du / k.h) * np.abs(p).max()
                    else: t = t * (1 + (np.abs(p).max() / (E if "stress" in nm else 1)))
                    cmp(re.sub(r"ipt\d\d", "ipt", re.sub("_[xyz][xyz]$", "", nm)), p, q, t * 10, i)
        if o.viol: return
    if o.viol: return
    if umax > 0 and not inv.all(): o.case((idx, " ".join(lst), nr, probe)); o.count("probes" if probe else "runs"); o.count("parallel cases", nr > 1)
    if idx < 2: o.sample({"fields": lst, "ranks": nr, "critical": a.dt[:3], "blocks": [(q["id"], m.model) for q, m in zip(k.mesh.blocks, k.mats)]})
