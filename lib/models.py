"""Random complete models: mesh + materials + conditions + deck, and the reference run."""
import numpy as np
import meshgen, ref, app

def num(v): return "%.17g" % v

class Expr:
    """text of an expression and the numpy function it denotes"""
    def __init__(s, text, fn, const=None): s.text, s.fn, s.const = text, fn, const

def fx(v):
    """positional notation, negative numbers in parentheses (works around nothing: plain valid expression syntax)"""
    t = np.format_float_positional(abs(float(v)), trim="0")
    return t if v >= 0 else "(-%s)" % t

def rand_expr(rng, amp, L, T, center, time=True, kind=None, steps=True):
    """a smooth expression of magnitude <= about amp over the body (size L around center) and time scale T"""
    k = kind if kind is not None else rng.integers(0, 8 if time else 5)
    if kind is None and rng.random() < .15: k = 8 if time and steps and rng.random() < .5 else 9
    a = float(amp * rng.uniform(-1, 1)); w = float(rng.uniform(0.3, 2) / L); ax = int(rng.integers(3)); c = "xyz"[ax]; c0 = float(center[ax])
    om = float(rng.uniform(0.3, 3) / T); ph = float(rng.uniform(0, 6)); b = a / L; s = "(%s - %s)" % (c, fx(c0))
    if k == 0: return Expr(None, lambda X, t: np.full(len(X), a), const=a)
    if k == 1: return Expr("%s * %s" % (fx(b), s), lambda X, t: b * (X[:, ax] - c0))
    if k == 2: return Expr("%s*sin(%s*%s + %s)" % (fx(a), fx(w), c, fx(ph)), lambda X, t: a * np.sin(w * X[:, ax] + ph))
    if k == 3:
        d = (ax + 1) % 3; e = "xyz"[d]; h = -a / 2
        return Expr("(%s > %s) ? %s*cos(%s) : %s" % (c, fx(c0), fx(a), e, fx(h)), lambda X, t: np.where(X[:, ax] > c0, a * np.cos(X[:, d]), h))
    if k == 4: return Expr("%s*exp(-abs(%s) / %s)" % (fx(a), s, fx(L)), lambda X, t: a * np.exp(-np.abs(X[:, ax] - c0) / L))
    if k == 8:  # switched on or off at some time
        ts = T * float(rng.uniform(-.2, 1.2)); h = float(rng.choice([0, .3 * a]))
        if rng.random() < .5: return Expr("(t > %s) ? %s : %s" % (fx(ts), fx(a), fx(h)), lambda X, t: np.full(len(X), a if t > ts else h))
        return Expr("(t < %s & %s < %s) ? (%s*%s) : %s" % (fx(ts), c, fx(c0), fx(b), s, fx(h)), lambda X, t: np.where((t < ts) & (X[:, ax] < c0), b * (X[:, ax] - c0), h))
    if k == 9:  # all three coordinates
        q = ["(%s - %s)/%s" % (e, fx(float(center[i])), fx(L)) for i, e in enumerate("xyz")]; f = [lambda X, i=i: (X[:, i] - float(center[i])) / L for i in range(3)]
        return Expr("%s*(%s*(%s) - (%s)^2)" % (fx(a), q[ax], q[(ax + 1) % 3], q[(ax + 2) % 3]), lambda X, t: a * (f[ax](X) * f[(ax + 1) % 3](X) - f[(ax + 2) % 3](X) ** 2))
    if k == 5: return Expr("%s*sin(%s*t)" % (fx(a), fx(om)), lambda X, t: np.full(len(X), a * np.sin(om * t)))
    if k == 6: return Expr("%s*cos(%s*t + %s*%s)" % (fx(a), fx(om), fx(w), c), lambda X, t: a * np.cos(om * t + w * X[:, ax]))
    if k == 7:
        h = a / 2
        return Expr("%s * atan(t / %s) * sqrt(1.0 + (%s / %s)^2)" % (fx(h), fx(T), s, fx(L)),
                    lambda X, t: h * np.arctan(t / T) * np.sqrt(1 + ((X[:, ax] - c0) / L) ** 2))

class Cond:
    def __init__(s, kind, set_, comp, expr, ref_): s.kind, s.set, s.comp, s.expr, s.ref = kind, set_, comp, expr, ref_
    def text(s): return "%s %s %s %s" % (s.kind, s.ref, "xyz"[s.comp], num(s.expr.const) if s.expr.const is not None else '"%s"' % s.expr.text)

class Case: pass

def rand_mats(rng, m, kinds=("elastic", "neohookean"), base=None):
    mats = []
    wide = rng.random() < .12 and not base  # other systems of units
    base = base or 10.0 ** (rng.uniform(-4, 15) if wide else rng.uniform(5, 11)); rho = 10.0 ** (rng.uniform(-10, 6) if wide else rng.uniform(2, 4))
    contrast = 10.0 ** rng.uniform(0, 2) if rng.random() < .12 else 1.0
    for _ in m.blocks:
        K = base * rng.uniform(0.5, 2) * contrast ** rng.uniform(-1, 1); G = K * rng.uniform(0.2, 1.2)
        mats.append(ref.Mat(str(rng.choice(list(kinds))), float(K), float(G), float(rho * rng.uniform(0.5, 2))))
    return mats

def hmin(m):
    C, _ = meshgen.elem_blocks(m)
    P = m.coords[C]; D = np.sqrt(((P[:, :, None] - P[:, None]) ** 2).sum(-1)) + 1e300 * np.eye(8)
    V = ref.volume(P); A = np.max(np.sqrt(((P[:, :, None] - P[:, None]) ** 2).sum(-1)), axis=(1, 2)) ** 2
    return float(min(D.min(), (V / (A * 0.5)).min()))

def safe_dt(m, mats):
    c = max(np.sqrt((mt.K + 4 * mt.G / 3) / mt.rho) for mt in mats)
    return 0.35 * hmin(m) / c

def rand_case(rng, nsteps=None, dims=None, nsets=3, ic=True, bc=True, time=True, mats=None, freq=None, t0=None, amp=0.15, mesh=None, kinds=("elastic", "neohookean"), **kw):
    k = Case()
    m = mesh if mesh is not None else meshgen.hexa(rng, dims=dims, **kw)
    if nsets: meshgen.add_sets(rng, m, nsets if rng.random() < .93 else nsets + int(rng.integers(4, 14)))
    k.mesh = m; k.mats = mats or rand_mats(rng, m, kinds)
    k.nsteps = int(nsteps or rng.integers(1, 16))
    if nsteps is None and rng.random() < .03 and m.num_elem() < 30: k.nsteps = int(rng.integers(90, 300))
    dt = safe_dt(m, k.mats) * rng.uniform(0.3, 1.0)
    k.t0 = float(t0 if t0 is not None else rng.choice([0.0, 0.0, 0.0, dt * 3.7, -2.5 * dt, 60.25 * dt])); k.t1 = float(k.t0 + dt * k.nsteps); k.dt = dt
    k.freq = int(freq if freq is not None else rng.integers(1, 4))
    T = dt * max(k.nsteps, 3); h = hmin(m); cen = m.coords.mean(0); L = float(np.ptp(m.coords, axis=0).max())
    k.L, k.h, k.T = L, h, T
    if rng.random() < .1: amp *= 10.0 ** -rng.uniform(1, 9)   # barely moving
    va = amp * h / T
    k.conds = []
    if ic:
        for _ in range(int(rng.integers(1, 4))):
            s = m.node_sets[rng.integers(len(m.node_sets))]
            k.conds.append(Cond("initial_velocity", s, int(rng.integers(3)), rand_expr(rng, va, L, T, cen, time=False), meshgen.set_ref(rng, s)))
    if bc:
        for _ in range(int(rng.integers(1, 5 if rng.random() < .9 else 25))):
            s = m.node_sets[rng.integers(len(m.node_sets))]
            if rng.random() < 0.5:
                k.conds.append(Cond("prescribed_velocity", s, int(rng.integers(3)), rand_expr(rng, va, L, T, cen, time), meshgen.set_ref(rng, s)))
            else:
                k.conds.append(Cond("prescribed_displacement", s, int(rng.integers(3)), rand_expr(rng, 0.1 * amp * h, L, T, cen, time), meshgen.set_ref(rng, s)))
        rng.shuffle(k.conds)
    return k

def deck(k, fields, **kw):
    names = ["mat%d" % i for i in range(len(k.mats))]
    d = app.Deck(t0=k.t0, t1=k.t1, nsteps=k.nsteps, freq=k.freq, fields=fields,
                 materials=[(nm, mt.model, dict(density=mt.rho, bulk_modulus=mt.K, shear_modulus=mt.G)) for nm, mt in zip(names, k.mats)],
                 blocks=[("block_%d" % b["id"], nm) for b, nm in zip(k.mesh.blocks, names)], bcs=[c.text() for c in k.conds])
    for a, v in kw.items(): setattr(d, a, v)
    return d

def governed(k, kinds=("prescribed_velocity", "prescribed_displacement")):
    """(n,3) object array: the condition that governs each component after the first step (None when free)"""
    g = np.full((len(k.mesh.coords), 3), None, dtype=object)
    for c in k.conds:
        if c.kind in kinds:
            for nd in c.set["nodes"]: g[nd, c.comp] = c
    return g

def reference(k):
    md = ref.Model(k.mesh, k.mats); X = md.X; rec = []
    def ic(v):
        for c in k.conds:
            if c.kind == "initial_velocity":
                nd = np.asarray(c.set["nodes"], int); v[nd, c.comp] = c.expr.fn(X[nd], 0.0)
    def bc(t, tp, u, v):
        d = t - tp
        for c in k.conds:
            nd = np.asarray(c.set["nodes"], int)
            if not len(nd): continue
            if c.kind == "prescribed_velocity": v[nd, c.comp] = c.expr.fn(X[nd], t)
            elif c.kind == "prescribed_displacement" and d > 0: v[nd, c.comp] = (c.expr.fn(X[nd], t) - u[nd, c.comp]) / d
    ref.explicit(md, k.t0, k.t1, k.nsteps, k.freq, ic, bc, lambda *a: rec.append((a[0], a[1]) + tuple(q.copy() for q in a[2:])))
    return md, rec

def noise(k, md, rec, safety=1.0):
    """absolute rounding-noise allowance per node for displacement, velocity, acceleration, force"""
    eps = 2.3e-16; umax = max(np.abs(r[2]).max() for r in rec)
    amax = np.abs(md.X).max() + umax
    e0 = 200 * eps * (1 + amax / k.h) * safety
    f0 = e0 * md.force_scale(rec[-1][2])
    with np.errstate(all="ignore"):
        a0 = (f0 / md.m[:, None])
    amx = np.nanmax(a0[np.isfinite(a0)]) if np.isfinite(a0).any() else 0
    T = k.dt * max(k.nsteps, 1)
    v0 = amx * T * 0.5; u0 = v0 * T * 0.3
    return dict(f=f0 + 0, a=a0 + 0, v=v0, u=u0 + eps * umax)
