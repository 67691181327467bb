"""C28: every load step a quasi-static run writes is in equilibrium; runs that cannot get there fail instead of writing."""
import os, re, numpy as np, vbuild, models, app, ref, meshgen, exo
RULE = ("case = random multi-block body, materials, displacement-controlled load history, tolerance, node and element ids; the residual of every written "
        "step is recomputed from the written displacements; non-trivial = distinct case with at least one loaded written step (or a failing solve)")
ASSUMPTIONS = ["every node belongs to an element", "every load step changes a prescribed displacement"]
def ncases(tier): return 260 if tier == "quick" else 2500
MIN_DISTINCT = 50
def prepare(tier, seed): return {"exe": vbuild.app("san"), "plain": vbuild.app("plain")}

def rexpr(*a, **k): return models.rand_expr(*a, steps=False, **k)

def norm(r): return float(np.sqrt((r * r).sum()) + 20 * np.abs(r).max())

def setup(rng, hard):
    m = meshgen.hexa(rng, dims=rng.integers(1, 4, 3) if rng.random() < .93 else rng.integers(3, 6, 3), distort=0.2, twist=0.2, holes=0.0)
    mats = models.rand_mats(rng, m)
    X = m.coords; L = float(np.ptp(X, axis=0).max()); cen = X.mean(0)
    d = rng.normal(size=3); p = X @ d; od = np.argsort(p); n = len(X)
    na = max(3, int(n * rng.uniform(0.2, 0.4))); nb = max(1, int(n * rng.uniform(0.1, 0.4)))
    ids = [int(i) for i in rng.choice(np.arange(1, 90), 3, replace=False)]
    A = od[:na]
    if n - na < 1: A = od[:n - 1]
    rest = od[len(A):]; B = rest[-nb:]
    S = []
    for i, nd, t in ((ids[0], A, "a"), (ids[1], B, "b"), (ids[2], rng.choice(n, max(1, n // 5), replace=False), "c")):
        s = dict(id=i, nodes=rng.permutation(nd), name="set_" + t if rng.random() < 0.6 else "")
        if rng.random() < 0.5: s["df"] = rng.random(len(nd))
        S.append(s)
    m.node_sets = [S[j] for j in rng.permutation(3)]
    k = models.Case(); k.mesh, k.mats = m, mats
    k.nsteps = int(rng.integers(1, 5)); k.t0 = float(rng.choice([0, 0, 0.5, -1])); k.t1 = k.t0 + float(rng.choice([1.0, 0.01, 30]))
    T = k.t1 - k.t0; k.freq = 1 if rng.random() < 0.7 else int(rng.integers(2, 4)); h = models.hmin(m)
    amp = (0.06 if not hard else float(rng.choice([0.06, 0.6, 6.0, 40.0]))) * h
    k.h = h; k.amp = amp
    conds = []
    for c in range(3):   # held
        z = rng.random() < 0.4
        conds.append(models.Cond("prescribed_displacement", S[0], c, models.Expr(None, lambda X, t: np.zeros(len(X)), const=0.0) if z else rexpr(rng, 0.1 * amp, L, T, cen), meshgen.set_ref(rng, S[0])))
    comps = rng.permutation(3)[:rng.integers(1, 4)]
    for j, c in enumerate(comps):
        c = int(c)
        if j == 0:   # the load that changes at every step
            r = float(amp * rng.uniform(0.3, 1) * rng.choice([-1, 1]) / T); ax = int(rng.integers(3)); g = float(rng.uniform(-0.3, 0.3) / L); c0 = float(cen[ax]); t0 = k.t0
            e = models.Expr("%s*(t - %s)*(1.0 + %s*(%s - %s))" % (models.fx(r), models.fx(t0), models.fx(g), "xyz"[ax], models.fx(c0)),
                            lambda X, t, r=r, ax=ax, g=g, c0=c0, t0=t0: r * (t - t0) * (1 + g * (X[:, ax] - c0)))
            conds.append(models.Cond("prescribed_displacement", S[1], c, e, meshgen.set_ref(rng, S[1])))
        elif rng.random() < 0.4:
            conds.append(models.Cond("prescribed_velocity", S[1], c, rexpr(rng, 0.3 * amp / T, L, T, cen), meshgen.set_ref(rng, S[1])))
        else:
            conds.append(models.Cond("prescribed_displacement", S[1], c, rexpr(rng, 0.3 * amp, L, T, cen), meshgen.set_ref(rng, S[1])))
    if rng.random() < 0.4:
        c = int(rng.integers(3))
        if rng.random() < 0.4: conds.append(models.Cond("prescribed_velocity", S[2], c, rexpr(rng, 0.1 * amp / T, L, T, cen), meshgen.set_ref(rng, S[2])))
        else: conds.append(models.Cond("prescribed_displacement", S[2], c, rexpr(rng, 0.1 * amp, L, T, cen), meshgen.set_ref(rng, S[2])))
    if rng.random() < 0.2: conds.append(models.Cond("initial_velocity", S[1], int(rng.integers(3)), rexpr(rng, amp / T, L, T, cen, time=False), meshgen.set_ref(rng, S[1])))
    rng.shuffle(conds); k.conds = conds
    return k

def collapse(rng):
    """a unit cube that the load flattens exactly: the last step has no equilibrium"""
    m = meshgen.hexa(rng, dims=(1, 1, 1), distort=0.0, scale=1.0, origin=[0, 0, 0]); m.coords = np.round((m.coords - m.coords.min(0)) / np.ptp(m.coords, axis=0))
    k = models.Case(); k.mesh = m; k.mats = models.rand_mats(rng, m, kinds=("neohookean",)); k.h = 1.0; k.nsteps = 4; k.t0 = 0.0; k.t1 = 1.0; k.freq = int(rng.integers(1, 3))
    ax = int(rng.integers(3)); A = dict(id=3, name="", nodes=np.where(m.coords[:, ax] == 0)[0]); B = dict(id=7, name="far", nodes=np.where(m.coords[:, ax] == 1)[0]); m.node_sets = [A, B]
    zero = models.Expr(None, lambda X, t: np.zeros(len(X)), const=0.0)
    k.conds = [models.Cond("prescribed_displacement", A, c, zero, "nodelist_3") for c in range(3)]
    if rng.random() < 0.5: k.conds.append(models.Cond("prescribed_displacement", B, (ax + 1) % 3, zero, "far"))
    k.conds.append(models.Cond("prescribed_displacement", B, ax, models.Expr("-1.0 * t", lambda X, t: np.full(len(X), -t)), "far"))
    return k

def apply_bc(k, t, tp, u):
    X = k.mesh.coords; u0 = u.copy()
    for c in k.conds:   # the condition listed last governs
        nd = np.asarray(c.set["nodes"], int); d = t - tp
        if c.kind == "prescribed_velocity": u[nd, c.comp] = u0[nd, c.comp] + c.expr.fn(X[nd], t) * d
        elif c.kind == "prescribed_displacement" and d > 0: u[nd, c.comp] = c.expr.fn(X[nd], t)

def tight(rng, k, m, exe, wd):
    """a tolerance that some load step misses when it stops at the iteration limit (mostly the last one that is run), from the progress a first run prints"""
    x = app.run(exe, models.deck(k, "displacement", scheme="quasistatic", extra=["nonlinear solver relative tolerance: 1e-9", "nonlinear solver maximum iterations: 60"]), m, wd, tag="first", read=False)
    S = []
    for q in re.split(r"\nStep ", x.out)[1:]:
        v = [float(a) for a in re.findall(r"residual = (\S+?)[,\s]", q)]
        if len(v) < 3 or not v[0] > 0: break
        S.append(np.array(v) / v[0])
    C = []
    for s in range(len(S)):
        for n in range(1, len(S[s]) - 1):
            a = S[s][:n + 1].min(); b = S[s][n + 1]
            for f in (1.5, 5, 30):   # missed by this factor, met by the next iteration
                t = a / f
                if 1e-10 < t < 0.5 and b < t / 1.2 and all(S[e][:n + 1].min() < t / 1.2 for e in range(s)): C.append((s, n, t))
    if not C: return None
    last = max(c[0] for c in C); C = [c for c in C if c[0] == last] if rng.random() < .8 else C
    s, n, t = C[int(rng.integers(len(C)))]
    if rng.random() < .8 and s + 1 < k.nsteps: k.t1 = k.t0 + (k.t1 - k.t0) / k.nsteps * (s + 1); k.nsteps = s + 1   # and nothing after it
    return float(t), int(n)

def case(o, rng, idx, tier, wd, sh):
    hard = idx % 4 == 3
    k = setup(rng, hard) if idx % 16 != 15 else collapse(rng); m = k.mesh; md = ref.Model(m, k.mats)
    tol = float(10 ** rng.uniform(-8, -1)) if not (hard and rng.random() < 0.5) else 1e-13
    dflt = rng.random() < 0.1
    maxit = int(rng.integers(40, 200)) if not hard else int(rng.choice([1, 2, 3, 5, 100]))
    ex = [] if dflt else ["nonlinear solver relative tolerance: %.17g" % tol, "nonlinear solver maximum iterations: %d" % maxit]
    if dflt: tol = 1e-6; maxit = 200
    lim = tight(rng, k, m, sh["plain"], wd) if idx % 4 == 1 else None
    if lim: tol, maxit = lim; hard = True; dflt = False; ex = ["nonlinear solver relative tolerance: %.17g" % tol, "nonlinear solver maximum iterations: %d" % maxit]; o.count("iteration limits just short of convergence")
    dk = models.deck(k, "displacement internal_force velocity stress volume deformation_gradient"[:-21 if idx % 2 else None], scheme="quasistatic", extra=ex)
    x = app.run(sh["exe"] if idx % 3 == 0 else sh["plain"], dk, m, wd, read=False)
    if x.san or x.timed_out: app.ok(o, x); return
    try: r = exo.read(os.path.join(x.dir, "m.out.e"))
    except IOError: o.violation("nooutput", "no readable output, exit status %s\n%s\n%s" % (x.rc, x.out[-600:], x.err[-600:])); return
    nt = len(r.times); dt = (k.t1 - k.t0) / k.nsteps
    T = [k.t0]; tp = k.t0
    for s in range(k.nsteps): tp = tp + dt; T.append(tp)
    want = [0] + [s + 1 for s in range(k.nsteps) if s % k.freq == 0 or s == k.nsteps - 1]
    desc = "tolerance %g, max iterations %d, %d steps, freq %d" % (tol, maxit, k.nsteps, k.freq)
    if x.rc == 0 and nt != len(want): o.violation("steps", "the run reports success with %d of %d steps written (%s)" % (nt, len(want), desc)); return
    if nt > len(want) or (nt and np.abs(np.array(r.times) - np.array([T[w] for w in want[:nt]])).max() > 1e-12 * max(1, abs(k.t0), abs(k.t1))):
        o.violation("times", "written times %s, expected %s" % (list(r.times), [T[w] for w in want])); return
    u = app.field(r, "displacement"); f = app.field(r, "internal_force")
    gov = np.zeros((md.n, 3), bool)
    for c in k.conds:
        if c.kind.startswith("prescribed"): gov[np.asarray(c.set["nodes"], int), c.comp] = True
    floor = 0
    with np.errstate(all="ignore"):
        pres = np.zeros((md.n, 3)); last = 0
        for i in range(nt):
            if not np.isfinite(u[i]).all(): o.violation("not-finite", "written step %d has displacements that are not numbers (%s)" % (i, desc)); return
            uprev = u[i - 1].copy() if i else None
            for s in range(last + 1, want[i] + 1): apply_bc(k, T[s], T[s - 1], pres)
            exp = pres if i else np.zeros((md.n, 3))
            dv = np.abs(u[i] - exp)[gov]; um = np.abs(exp).max() + 1e-300
            o.count("prescribed values compared", dv.size)
            if dv.size and dv.max() > 1e-12 * um: o.violation("prescribed", "step %d: prescribed displacement off by %g of %g (%s)" % (i, dv.max(), um, desc)); return
            if i == 0:
                if np.abs(u[0]).max() > 0: o.violation("initial", "initial state is displaced"); return
                last = want[i]; continue
            try: fi = md.internal(u[i])
            except np.linalg.LinAlgError:
                o.violation("degenerate", "step %d is written with an element of no volume, which has no equilibrium (%s)" % (i, desc)); return
            fs = md.force_scale(u[i]); amp = 200 * 2.3e-16 * (1 + (np.abs(md.X).max() + np.abs(u[i]).max()) / k.h)
            floor = amp * norm(fs); rr = np.where(gov, 0, fi); rn = norm(rr)
            if want[i] == last + 1:
                g = u[i - 1].copy(); g2 = g.copy(); apply_bc(k, T[want[i]], T[last], g2)
                g = np.where(gov, g2, g); r0 = norm(np.where(gov, 0, md.internal(g)))
            else:
                r0 = max(norm(np.where(gov, 0, md.internal(np.where(gov, exp, u[i - 1])))), norm(fi)) * 10
            o.count("written load steps"); o.count("unconstrained unknowns balanced", int((~gov).sum()))
            lim = tol * r0 * 1.001 + floor
            o.maxi("residual/allowed", rn / lim)
            if not rn <= lim:
                o.violation("not-in-equilibrium", "step %d: residual %g exceeds %g (initial %g; %s)" % (i, rn, lim, r0, desc)); return
            d = np.abs(f[i] - fi); o.count("nodal forces compared", d.size)
            if not (d <= amp * fs + amp * fs.max()).all(): o.violation("force", "step %d: internal force differs from the recomputed one by %g of %g" % (i, d.max(), np.abs(fi).max())); return
            for bi, b in enumerate(r.blocks):
                c = md.conn[bi]; mt = k.mats[bi]; xx = (md.X + u[i])[c]; w = ref.detJ(xx)
                if not (w > 0).all(): continue
                V = w.sum(1); S = mt.stress(ref.F(md.X[c], xx)); S = np.einsum("eq,eqab->eab", w, S) / V[:, None, None]
                got = r.elem[b["id"]]
                if "volume" in got and not (np.abs(got["volume"][i] - V) <= 1e-10 * V.max()).all(): o.violation("volume", "step %d block %d: volume differs" % (i, b["id"])); return
                ss = amp * max(np.abs(S).max(), mt.K + mt.G)
                for q, (a, bb) in zip(app.SYM, [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)]):
                    if not (np.abs(got["stress_" + q][i] - S[:, a, bb]) <= ss).all(): o.violation("stress", "step %d block %d: stress_%s differs by %g of %g" % (i, b["id"], q, np.abs(got["stress_" + q][i] - S[:, a, bb]).max(), np.abs(S).max())); return
                    o.count("stresses compared", len(V))
            last = want[i]
    if "nan" in x.out: o.count("runs with a residual that is not a number")
    if x.rc == 0: o.count("runs that succeed"); o.case(idx)
    else:
        o.count("runs that report failure"); o.count("failure: " + ("linear solver" if "CG solver failed" in x.out else "nonlinear solver" if "Nonlinear solver failed" in x.out else "other"))
        if "solver failed" not in x.out and not x.err: o.violation("silent", "the run fails, rc=%s, without saying so (%s)\n%s" % (x.rc, desc, x.out[-600:])); return
        if "solver failed" not in x.out: o.sample({"err": x.err[-300:], "rc": x.rc})
        easy = not hard and tol >= 1e-8
        if nt > 1 or hard: o.case(idx)
        if easy and "CG solver failed" not in x.out: o.violation("failed", "a gentle quasi-static model fails, rc=%s (%s)\n%s\n%s" % (x.rc, desc, x.out[-900:], x.err[-500:])); return
        if easy: o.violation("cg", "a gentle quasi-static model fails in the linear solver (%s)\n%s" % (desc, x.out[-900:])); return
    if idx < 3: o.sample({"steps": nt, "rc": x.rc, "deck": str(dk)[:600]})
