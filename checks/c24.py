"""C24: contact forces obey action and reaction."""
import numpy as np, vbuild, hrun, app, meshgen, ref, models
from exo import Mesh
RULE = ("case = 2500 (thorough 100000) random groups of quadrilaterals and nodes with contacts above, at and below the faces, sent through the manager's enforcement, the interface and single entities; or one run of the program with a "
        "brute-force search plugged in, two bodies pressed into each other, on 1-3 ranks; forces, resultants and moments against the penalty law; non-trivial = distinct group with penetration, or run in which contacts acted")
ASSUMPTIONS = ["search itself is supplied by the check: the tree builds none", "in parallel runs contacts between ranks are not searched; every rank's own contacts are"]
PER = {"quick": 2000, "thorough": 100000}
NH = {"quick": 16, "thorough": 64}; NE = {"quick": 48, "thorough": 600}
def ncases(tier): return NH[tier] + NE[tier]
MIN_DISTINCT = 5000
def prepare(tier, seed): return {"exe": vbuild.harness("c24", "san"), "app": vbuild.harness("c24app", "plain"), "seed": seed}
FIELDS = "displacement velocity acceleration internal_force contact_force lumped_mass"
HF = [[0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [0, 4, 7, 3], [0, 3, 2, 1], [4, 5, 6, 7]]

def bodies(rng):
    """two bodies, the second above the first with a small gap, primary/secondary blocks of each"""
    while True:
        a = meshgen.hexa(rng, dims=rng.integers(1, 3, 3), distort=0.08, scale=1.0, origin=[0, 0, 0], gids=False, nblocks=int(rng.integers(1, 3)))
        b = meshgen.hexa(rng, dims=rng.integers(1, 3, 3), distort=0.08, scale=1.0, origin=[0, 0, 0], gids=False, nblocks=int(rng.integers(1, 3)))
        ids = rng.choice(np.arange(1, 60), len(a.blocks) + len(b.blocks), replace=False)
        ax = int(rng.integers(3)); s = float(rng.choice([-1, 1]))
        lo, hi = (a, b) if s > 0 else (b, a)
        X = b.coords
        X += (a.coords.mean(0) - X.mean(0)); X += rng.uniform(-.2, .2, 3)
        gap = 0.02 * min(models.hmin(a), models.hmin(b))
        X[:, ax] += (a.coords[:, ax].max() - X[:, ax].min() + gap) if s > 0 else (a.coords[:, ax].min() - X[:, ax].max() - gap)
        m = Mesh(); m.coords = np.concatenate([a.coords, b.coords]); n = len(a.coords)
        for q, bl in enumerate(a.blocks + b.blocks):
            m.blocks.append(dict(bl, id=int(ids[q]), name="block_%d" % ids[q], conn=bl["conn"] + (n if q >= len(a.blocks) else 0)))
        m.node_sets = [dict(id=1, name="first", nodes=np.arange(n)), dict(id=2, name="second", nodes=np.arange(n, len(m.coords)))]
        ne = m.num_elem(); m.node_gid = rng.permutation(np.arange(1, 2 * len(m.coords) + 1))[:len(m.coords)]; m.elem_gid = rng.permutation(np.arange(1, 2 * ne + 1))[:ne]
        return m, list(range(len(a.blocks))), list(range(len(a.blocks), len(m.blocks))), ax, s, gap

def skin(m, bl):
    f = {}
    for b in bl:
        for e in m.blocks[b]["conn"]:
            for q in HF: f.setdefault(tuple(sorted(e[q])), []).append(e[q])
    return [v[0] for v in f.values() if len(v) == 1]

def contact(m, u, prim, sec, depth, penalty, h):
    """forces of the penalty law on the whole mesh; None when a decision is too close to call"""
    x = m.coords + u; Q = np.array(skin(m, prim)); nodes = np.unique(np.array(skin(m, sec)))
    T = np.concatenate([np.stack([Q[:, k], Q[:, (k + 1) % 4]], 1) for k in range(4)]); F4 = np.concatenate([Q] * 4)
    a, b, c = x[T[:, 0]], x[T[:, 1]], x[F4].mean(1); U, Vv = b - a, c - a; n = np.cross(U, Vv); n2 = (n * n).sum(1); nn = n / np.sqrt(n2)[:, None]
    f = np.zeros_like(x); hits = 0; close = False; scale = 0.0
    for i in nodes:
        w = x[i] - a; g3 = (np.cross(U, w) * n).sum(1) / n2; g2 = (np.cross(w, Vv) * n).sum(1) / n2; g1 = 1 - g2 - g3; gap = (w * nn).sum(1)
        bm = np.minimum(np.minimum(g1, g2), g3); cand = (gap < 1e-12 * h) & (gap > -depth - 1e-9 * h) & (bm > -1e-9)
        if (cand & ((np.abs(bm) < 1e-9) | (np.abs(gap + depth) < 1e-9 * h) | (np.abs(gap) < 1e-12 * h))).any(): close = True
        ok = np.where((bm >= 0) & (gap < 0) & (gap >= -depth))[0]
        for j in ok:
            v = penalty * gap[j] / len(ok) * nn[j]; f[i] -= v; f[T[j, 0]] += g1[j] * v; f[T[j, 1]] += g2[j] * v
            for q in F4[j]: f[q] += g3[j] / 4 * v
            hits += 1; scale += np.abs(v).max()
    return f, hits, close, scale

def e2e(o, rng, idx, tier, wd, sh):
    m, A, B, ax, s, gap = bodies(rng); prim, sec = (A, B) if rng.random() < .5 else (B, A)
    mats = models.rand_mats(rng, m); dt = models.safe_dt(m, mats) * float(rng.uniform(.2, .6)); md = ref.Model(m, mats); h = models.hmin(m)
    ns = int(rng.integers(15, 50)); pen = float(rng.uniform(.02, .2)) * md.m[md.m > 0].min() / dt ** 2; v = float(rng.uniform(.1, .5)) * h / (ns * dt) + gap / (ns * dt * .2); depth = 0.3 * h
    bcs = ["initial_velocity first %s %.17g" % ("xyz"[ax], s * v / 2), "initial_velocity second %s %.17g" % ("xyz"[ax], -s * v / 2)]
    for nm in ("first", "second"):
        for q in range(3):
            if q != ax and rng.random() < .5: bcs.append("initial_velocity %s %s %.17g" % (nm, "xyz"[q], .3 * v * rng.uniform(-1, 1)))
    nr = int(rng.choice([1, 1, 2, 3])); freq = int(rng.integers(1, 4))
    d = app.Deck(t0=0, t1=dt * ns, nsteps=ns, freq=freq, fields=FIELDS, materials=[("mat%d" % i, mt.model, dict(density=mt.rho, bulk_modulus=mt.K, shear_modulus=mt.G)) for i, mt in enumerate(mats)], blocks=[("block_%d" % b["id"], "mat%d" % i) for i, b in enumerate(m.blocks)], bcs=bcs,
                 extra=["contact: primary_blocks %s secondary_blocks %s penalty_parameter %.17g" % (" ".join("block_%d" % m.blocks[b]["id"] for b in prim), " ".join("block_%d" % m.blocks[b]["id"] for b in sec), pen)])
    if nr > 1:
        try: parts = meshgen.partition(rng, m, nr, mode=str(rng.choice(["random", "slab", "block"])))
        except ValueError: return
    else: parts = [m]
    x = app.run(sh["app"], d, parts, wd, nranks=nr, args=["--use_tpetra"] if nr > 1 and rng.random() < .5 else [], env={"VERIF_DEPTH": "%.17g" % depth})
    if not app.ok(o, x, "contact, %d ranks" % nr): return
    n = len(m.coords); nt = len(x.r.times); G = {int(g): i for i, g in enumerate(m.node_gid)}; R = {}
    for nm in ("displacement", "velocity", "acceleration", "internal_force", "contact_force"):
        full = np.full((nt, n, 3), np.nan)
        for r in x.res:
            ix = np.array([G[int(g)] for g in r.node_gid]); V = app.field(r, nm); old = full[:, ix]
            bad = ~np.isnan(old) & (np.abs(old - V) > 1e-9 * (np.nanmax(np.abs(full)) if np.isfinite(full).any() else 0) + 1e-300)
            if nm == "contact_force" and bad.any(): o.violation("ranks disagree", "%s of shared nodes differs between ranks" % nm)
            full[:, ix] = V
        R[nm] = full
    if not all(np.isfinite(v).all() for v in R.values()): o.violation("not finite", "contact run produced non-finite fields"); return
    fc = R["contact_force"]; mass = md.m[:, None]; acted = 0
    P0 = (mass * R["velocity"][0]).sum(0); PS = (mass * np.abs(R["velocity"])).sum((1, 2)).max(); pmax = 0
    if (fc[0] != 0).any(): o.violation("force at the start", "contact force is not zero at the initial state")
    for t in range(1, nt):
        f, hits, close, sc = contact(m, R["displacement"][t], prim, sec, depth, pen, h); got = fc[t]; tot = np.abs(got).sum(); o.evals += 1
        if np.abs(got.sum(0)).max() > 1e-10 * tot + 1e-13 * pen * h: o.violation("resultant", "step %d: contact forces %g leave a resultant of %s (%d ranks)" % (t, tot, got.sum(0), nr))
        mom = np.cross(m.coords + R["displacement"][t] - m.coords.mean(0), got).sum(0)
        if np.abs(mom).max() > 1e-9 * (tot + pen * h * 1e-4) * np.ptp(m.coords): o.violation("moment", "step %d: contact forces %g leave a moment of %s" % (t, tot, mom))
        want = R["internal_force"][t] + got; err = np.abs(mass * R["acceleration"][t] - want).max(1); lim = 1e-9 * (np.abs(R["internal_force"][t]).max() + np.abs(got).max())
        if (err > lim).any(): o.violation("motion", "step %d: mass times acceleration deviates from internal plus contact force by %g" % (t, err.max()))
        if hits and nr == 1 and not close:
            acted += 1
            if np.abs(got - f).max() > 1e-8 * sc + 1e-13 * pen * (np.abs(m.coords).max() + h):
                w = np.unravel_index(np.argmax(np.abs(got - f)), f.shape); o.violation("contact force", "step %d: node %d component %d has contact force %.12g, the penalty law gives %.12g (%d contacts)" % (t, w[0], w[1], got[w], f[w], hits))
        elif not hits and not close and nr == 1 and (np.abs(got) > 0).any(): o.violation("force without penetration", "step %d: contact force %g, nothing penetrates" % (t, np.abs(got).max()))
        elif nr > 1 and tot > 0: acted += 1
        if close: o.count("steps with a decision too close to call")
        P = (mass * R["velocity"][t]).sum(0); pmax = max(pmax, np.abs(P - P0).max() / PS)
    o.maxi("momentum drift", pmax)
    if pmax > 1e-9: o.violation("momentum", "total momentum drifts by %g of %g" % (pmax * PS, PS))
    o.count("program runs"); o.count("steps with contact", acted); o.count("program runs in parallel", nr > 1)
    if acted: o.case((idx, nr, ns))
    if idx - NH[tier] < 2: o.sample({"ranks": nr, "steps": ns, "steps with contact": acted, "penalty": pen})

def case(o, rng, idx, tier, wd, sh):
    if idx < NH[tier]: hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
    else: e2e(o, rng, idx, tier, wd, sh)
