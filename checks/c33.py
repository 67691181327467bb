"""C33: a material with memory is handed its own past."""
import re, numpy as np, vbuild, app, meshgen, ref, models, c28
RULE = ("case = one random model with materials of the application's own (rate dependent, stress handed on from step to step, 0 to 19 state variables with labels of any length with declared initial values) beside the shipped ones, through the explicit scheme on the "
        "portable model data, the explicit scheme on the plain model data, or the quasi-static scheme, 1-3 ranks; every written displacement, force, stress, deformation gradient and state variable against an independent integration of the "
        "same history; non-trivial = distinct model that deforms over at least two steps")
ASSUMPTIONS = ["state variables on the portable path start at zero (its storage has no place for the declared initial values)", "quasi-static runs write every load step", "state variables are requested as output on the plain path only when every rank has a block with them"]
PAR = ["tau", "tauq", "span", "alpha", "beta", "gamma", "delta", "q0"]
def ncases(tier): return 160 if tier == "quick" else 2000
MIN_DISTINCT = 40
def prepare(tier, seed): return {"plain": vbuild.harness("c33app", "plain"), "san": vbuild.harness("c33app", "san"), "seed": seed}
SY = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)]

class Mem:
    model = "memory"
    def __init__(s, base, rng, span, states):
        s.K, s.G, s.rho = base.K, base.G, base.rho; s.ns = states; s.label = 'memo'
        s.p = dict(tau=span * 10 ** rng.uniform(-1, 1), tauq=span * 10 ** rng.uniform(-1, 1), span=span, alpha=rng.uniform(-.3, .3), beta=rng.uniform(-.2, .2), gamma=rng.uniform(-.2, .2), delta=rng.uniform(-.2, .2), q0=rng.uniform(-.002, .002)); s.p = {q: float(v) for q, v in s.p.items()}
    def wave(s): return np.sqrt(s.K / s.rho)
    def law(s, tn, t, Fn, F, Sn, Qn):
        dt = t - tn; dF = F - Fn; d = .5 * (dF + np.swapaxes(dF, -1, -2)); tr = np.trace(d, axis1=-2, axis2=-1); I = np.eye(3); p = s.p
        S = Sn * np.exp(-dt / p["tau"]) + 2 * s.G * d + ((s.K - 2 * s.G / 3) * tr)[..., None, None] * I
        if not s.ns: return S, None
        Qn = np.where(np.arange(19) < s.ns, Qn, 0.); Q = Qn.copy(); Q[..., 0] = Qn[..., 0] * np.exp(-dt / p["tauq"]) + tr
        for i in range(3): Q[..., 1 + i] += dF[..., i, (i + 1) % 3]
        for k, (i, j) in enumerate(SY): Q[..., 4 + k] += d[..., i, j]
        Q[..., 10:] += dF.reshape(dF.shape[:-2] + (9,)); w = dt / p["span"]; A = Q[..., 10:].reshape(dF.shape); A = .5 * (A + np.swapaxes(A, -1, -2)); Y = np.zeros_like(dF)
        for k, (i, j) in enumerate(SY): Y[..., i, j] = Y[..., j, i] = Q[..., 4 + k]
        return S + w * s.G * (p["gamma"] * Y + p["delta"] * A) + w * ((s.K * p["alpha"] * Q[..., 0])[..., None, None] * I + s.G * p["beta"] * Q[..., 1:4, None] * I), Q

class History(ref.Model):
    def __init__(s, mesh, mats, times, declared):
        super().__init__(mesh, mats); s.times, s.i = times, 0
        s.F = [np.broadcast_to(np.eye(3), (len(c), 8, 3, 3)).copy() for c in s.conn]; s.S = [np.zeros((len(c), 8, 3, 3)) for c in s.conn]
        s.Q = [(np.arange(1, 20) * mt.p["q0"] if declared else np.zeros(19)) * np.ones((len(c), 8, 1)) if isinstance(mt, Mem) and mt.ns else None for c, mt in zip(s.conn, mats)]
    def step(s, u, i, commit=True):
        """force of displacement u at the end of step i; commit: this is where the step ended"""
        f = np.zeros((s.n, 3)); x = s.X + u
        for b, (c, mt) in enumerate(zip(s.conn, s.mats)):
            if not len(c): continue
            J = ref.jac(x[c]); Fm = J @ np.linalg.inv(ref.jac(s.X[c])); Q = None
            if isinstance(mt, Mem): sig, Q = mt.law(s.times[i - 1], s.times[i], s.F[b], Fm, s.S[b], s.Q[b])
            else: sig = mt.stress(Fm)
            B = np.einsum("qnb,eqba->eqna", ref.DN, np.linalg.inv(J)); np.add.at(f, c, -np.einsum("eq,eqna,eqab->enb", np.linalg.det(J), B, sig))
            if commit: s.F[b], s.S[b], s.Q[b] = Fm, sig, Q
        return f
    def internal(s, u): s.i += 1; return s.step(u, s.i)
    def force_scale(s, u):
        f = np.zeros((s.n, 3)); x = s.X + u
        for b, (c, mt) in enumerate(zip(s.conn, s.mats)):
            if not len(c): continue
            J = ref.jac(x[c]); B = np.abs(np.einsum("qnb,eqba->eqna", ref.DN, np.linalg.inv(J))); sc = np.maximum(np.abs(s.S[b]).max((-1, -2)), mt.K + mt.G)
            np.add.at(f, c, np.repeat(np.einsum("eq,eqna,eq->en", np.abs(np.linalg.det(J)), B, sc)[..., None], 3, -1))
        return f
    def elements(s, u):
        """per block: volume averages of F, S, Q and the values at the points"""
        out = []
        for b, c in enumerate(s.conn):
            w = ref.detJ((s.X + u)[c]); w = w / w.sum(1, keepdims=True)
            out.append((np.einsum("eq,eqab->eab", w, s.F[b]), np.einsum("eq,eqab->eab", w, s.S[b]), None if s.Q[b] is None else np.einsum("eq,eqk->ek", w, s.Q[b]), s.F[b].copy(), s.S[b].copy(), None if s.Q[b] is None else s.Q[b].copy(), bool((w > 0).all())))
        return out

FULL = dict(zip(["xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"], [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0), (1, 0), (2, 1), (0, 2)]))
def expected(name, e):
    """value of element output `name` from History.elements"""
    m = re.match(r"(?:ipt(\d\d)_)?(stress|deformation_gradient|memo[a-z_]*)(?:_([xyz][xyz])|(\d+))$", name); q = None if m[1] is None else int(m[1]) - 1
    if m[2].startswith("memo"): a = e[2] if q is None else e[5][:, q]; return a[:, int(m[4])]
    a = e[(1 if m[2] == "stress" else 0) + (0 if q is None else 3)]
    if q is not None: a = a[:, q]
    return a[(slice(None),) + FULL[m[3]]]

def deck(k, fields, scheme, extra=()):
    names = ["mat%d" % i for i in range(len(k.mats))]; M = []
    for nm, mt in zip(names, k.mats):
        pr = dict(density=mt.rho, bulk_modulus=mt.K, shear_modulus=mt.G)
        if isinstance(mt, Mem):
            pr.update(mt.p); pr["memory"] = "%d:%s" % (mt.ns, mt.label)
        M.append((nm, mt.model, pr))
    return app.Deck(t0=k.t0, t1=k.t1, nsteps=k.nsteps, freq=k.freq, fields=fields, materials=M, blocks=[("block_%d" % b["id"], nm) for b, nm in zip(k.mesh.blocks, names)], bcs=[c.text() for c in k.conds], scheme=scheme, extra=list(extra))

def times(k):
    T = [k.t0]; dt = (k.t1 - k.t0) / k.nsteps
    for s in range(k.nsteps): T.append(T[-1] + dt)
    return T

def case(o, rng, idx, tier, wd, sh):
    mode = ["portable", "plain", "quasistatic"][idx % 3]; nr = int(rng.choice([1, 1, 2, 3])) if mode != "quasistatic" else 1
    if mode == "quasistatic": k = c28.setup(rng, False); k.freq = 1; k.nsteps = max(k.nsteps, 2)
    else: k = models.rand_case(rng, nsteps=int(rng.integers(2, 25)), freq=int(rng.choice([1, 1, 2, 3])), amp=float(rng.choice([.1, .3])), holes=float(rng.choice([0, .3])), nblocks=int(rng.integers(1, 4)), dims=rng.integers(1, 4, 3))
    span = k.t1 - k.t0; own = rng.random(len(k.mats)) < .75; own[rng.integers(len(own))] = True
    ns = int(rng.choice([1, 4, 11, 19, 19, 19])); label = "memo" if rng.random() < .6 else "memo_of_the_history_dependent_material_point_"[:int(rng.integers(5, 46))]
    k.mats = [Mem(m, rng, span, ns if rng.random() < .65 else 0) if w else m for m, w in zip(k.mats, own)]; m = k.mesh
    for q in k.mats: q.label = label
    try: parts = meshgen.partition(rng, m, nr, mode=str(rng.choice(["random", "slab", "block"]))) if nr > 1 else [m]
    except ValueError: return
    st = any(isinstance(q, Mem) and q.ns for q in k.mats)
    el = ["stress", "deformation_gradient"] + ["ipt%02d_%s" % (i, f) for i in range(1, 9) for f in ("stress", "deformation_gradient")]
    sb = {b["id"] for b, q in zip(m.blocks, k.mats) if isinstance(q, Mem) and q.ns}
    if st and mode != "portable" and all(sb & {b["id"] for b in q.blocks if len(b["conn"])} for q in parts): el += ["%s%d" % (label, i) for i in range(ns)] + ["ipt%02d_%s%d" % (i, label, j) for i in range(1, 9) for j in range(ns)]
    sel = [str(f) for f in rng.permutation(el)[:rng.integers(2, 14)]]
    lst = ["displacement", "internal_force"] + (["velocity"] if mode != "quasistatic" else []) + sel; lst = [lst[i] for i in rng.permutation(len(lst))]
    env = {}; shown = " ".join(lst)
    if mode == "plain": env = {"VERIF_PLAIN": "1", "VERIF_FIELDS": shown}; shown = "displacement"
    tol = float(10 ** rng.uniform(-8, -4)); extra = ["nonlinear solver relative tolerance: %.17g" % tol, "nonlinear solver maximum iterations: 200"] if mode == "quasistatic" else []
    d = deck(k, shown, "quasistatic" if mode == "quasistatic" else "explicit", extra); what = "%s, materials %s, %d ranks, %d steps" % (mode, [(q.model, q.ns if isinstance(q, Mem) else "") for q in k.mats], nr, k.nsteps)
    x = app.run(sh["san"] if nr == 1 and idx % 8 in (1, 3, 5) else sh["plain"], d, parts, wd, tag="h", nranks=nr, env=env, read=mode != "quasistatic")
    if mode == "quasistatic" and x.rc not in (0, None) and not x.san and "solver failed" in x.out: o.count("quasi-static runs without convergence"); return
    if mode == "quasistatic" and x.rc == 0 and not x.san: x.r = app.exo.read(app.os.path.join(x.dir, "m.out.e")); x.res = [x.r]
    if not app.ok(o, x, what): return
    b = re.findall(r"VERIF-BAD (.*)", x.out)
    if b: o.violation("material:" + b[0].split()[1], "%s (%s)" % ("; ".join(b[:4]), what)); return
    T = times(k); W = [0] + [i + 1 for i in range(k.nsteps) if i % k.freq == 0 or i == k.nsteps - 1]; nt = len(x.res[0].times)
    if nt != len(W): o.violation("steps", "%d states written, %d expected (%s)" % (nt, len(W), what)); return
    G = {int(g): i for i, g in enumerate(m.node_gid)} if m.node_gid is not None else {i + 1: i for i in range(len(m.coords))}
    U = np.full((nt, len(m.coords), 3), np.nan)
    for r in x.res: U[:, [G[int(g)] for g in r.node_gid]] = app.field(r, "displacement")
    h = History(m, k.mats, T, mode != "portable"); rec = []; E = max(q.K + q.G for q in k.mats)
    if mode == "quasistatic":
        gov = np.zeros((h.n, 3), bool)
        for c in k.conds:
            if c.kind.startswith("prescribed"): gov[np.asarray(c.set["nodes"], int), c.comp] = True
        rec.append((U[0], None, np.zeros((h.n, 3)), h.elements(U[0])))
        for i in range(1, nt):
            if not np.isfinite(U[i]).all(): o.violation("not finite", "written step %d (%s)" % (i, what)); return
            g = U[i - 1].copy(); c28.apply_bc(k, T[i], T[i - 1], g); g = np.where(gov, g, U[i - 1]); r0 = c28.norm(np.where(gov, 0, h.step(g, i, commit=False)))
            f = h.step(U[i], i); amp = 200 * 2.3e-16 * (1 + (np.abs(h.X).max() + np.abs(U[i]).max()) / k.h) * (2 + i); fs = h.force_scale(U[i]); lim = tol * r0 * 1.001 + amp * c28.norm(fs); rn = c28.norm(np.where(gov, 0, f)); o.maxi("residual/allowed", rn / lim); o.count("load steps balanced")
            if not rn <= lim: o.violation("not-in-equilibrium", "step %d: residual %g exceeds %g (%s)" % (i, rn, lim, what)); return
            rec.append((U[i], None, f, h.elements(U[i])))
        nz = dict(u=0.0, v=0.0, f=200 * 2.3e-16 * (1 + (np.abs(h.X).max() + np.abs(U).max()) / k.h) * (2 + nt) * max(1.0, 1) * (h.force_scale(U[-1]) + h.force_scale(U[-1]).max()))
    else:
        X = h.X; allrec = []
        def ic(v):
            for c in k.conds:
                if c.kind == "initial_velocity": nd = np.asarray(c.set["nodes"], int); v[nd, c.comp] = c.expr.fn(X[nd], 0.0)
        def bc(t, tp, u, v):
            for c in k.conds:
                nd = np.asarray(c.set["nodes"], int)
                if c.kind == "prescribed_velocity": v[nd, c.comp] = c.expr.fn(X[nd], t)
                elif c.kind == "prescribed_displacement" and t > tp: v[nd, c.comp] = (c.expr.fn(X[nd], t) - u[nd, c.comp]) / (t - tp)
        def keep(s, t, u, v, a, f): allrec.append((s, t, u.copy(), v.copy(), a.copy(), f.copy())); rec.append((u.copy(), v.copy(), f.copy(), h.elements(u)))
        ref.explicit(h, k.t0, k.t1, k.nsteps, k.freq, ic, bc, keep); nz = models.noise(k, h, allrec, safety=4 + .5 * k.nsteps)
        if not all(np.isfinite(q[2]).all() for q in allrec) or max(np.abs(q[2]).max() for q in allrec) > 5 * k.h: o.count("unstable models skipped"); return
    if any((ref.detJ((h.X + r[0])[c]) <= 1e-2 * ref.detJ(h.X[c])).any() for r in rec for c in h.conn if len(c)): o.count("inverted models skipped"); return
    amp = 1 + (np.abs(h.X).max() + np.abs(U).max()) / k.h; live = h.m > 0
    def cmp(key, nm, w, a, b, t):
        dv = np.abs(a - b); t = np.broadcast_to(t, dv.shape); o.count("values compared", dv.size)
        with np.errstate(all="ignore"): o.maxi("deviation/tolerance", np.nanmax(np.where(dv > 0, dv / np.maximum(t, 1e-300), 0), initial=0))
        if (dv <= t).all(): return True
        e = np.argwhere(~(dv <= t))[0]; o.violation(key, "%s after step %d, entry %s: %r, the independent history gives %r, allowed %g (%s)" % (nm, W[w], tuple(int(q) for q in e), float(a[tuple(e)]), float(b[tuple(e)]), float(t[tuple(e)]), what)); return False
    for r in x.res:
        ix = np.array([G[int(g)] for g in r.node_gid]); lv = live[ix]
        for w in range(nt):
            for nm, j, t in (("displacement", 0, nz["u"]), ("velocity", 1, nz["v"]), ("internal_force", 2, nz["f"])):
                if rec[w][j] is None: continue
                if not cmp(nm, nm, w, app.field(r, nm)[w][lv], rec[w][j][ix][lv], (t[ix][lv] if np.ndim(t) else t) + 1e-13 * np.abs(rec[w][j]).max()): return
            for bi, bb in enumerate(m.blocks):
                E0 = rec[w][3][bi]; B = next((q for q in r.blocks if q["id"] == bb["id"]), None)
                if B is None or not len(h.conn[bi]): continue
                # elements of this file in the order of the whole block: by their nodes
                key = {tuple(int(v) for v in c): j for j, c in enumerate(h.conn[bi])}; rows = [key[tuple(int(ix[v]) for v in c)] for c in np.asarray(B["conn"]).reshape(-1, 8)]
                if not rows: continue
                for nm in r.elem[bb["id"]]:
                    if "memo" in nm and E0[2] is None: continue
                    a = r.elem[bb["id"]][nm][w]; b = expected(nm, E0)[rows]; du = nz["u"] if np.ndim(nz["u"]) == 0 else np.max(nz["u"])
                    t = (2e-13 * amp * (2 + k.nsteps) + 20 * du / k.h) * (E if "stress" in nm else 1.0) * (1 + np.abs(b).max() / (E if "stress" in nm else 1))
                    if not cmp(re.sub(r"\d+", "", re.sub("_[xyz][xyz]$", "", nm)), nm, w, a, b, t): return
                    o.count("element values", len(rows)); o.count("state variable values", len(rows) if "memo" in nm else 0)
    um = max(np.abs(r[0]).max() for r in rec)
    if um > 0 and k.nsteps >= 2: o.case(idx); o.count(mode + " histories"); o.count("histories with state variables", st); o.count("parallel histories", nr > 1)
    if idx < 3: o.sample(what)
