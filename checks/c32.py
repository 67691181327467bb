"""C32: an ensemble run gives every sample the trajectory it would have on its own."""
import copy, os, re, numpy as np, vbuild, app, meshgen, ref, models, common
RULE = ("case = one random model run as an ensemble (program built with the uncertainty-quantification option): 0-4 exact and 0-4 interpolated samples of the moduli of one or more materials, materials shared by several blocks or without "
        "uncertain parameters, 1-4 ranks; the written displacement, velocity and force of the nominal state and of every sample against the independent integrator run with that sample's moduli (interpolated samples: with the interpolated "
        "force), the parameter file, some samples against a separate run of the program; or one faulty ensemble input; non-trivial = distinct ensemble that deforms, or distinct faulty input")
ASSUMPTIONS = ["uncertain parameters are the bulk and shear modulus of elastic and neo-Hookean materials, the parameters of the off-nominal stress routine", "no contact in ensemble runs"]
def ncases(tier): return 240 if tier == "quick" else 1500
MIN_DISTINCT = 30
def prepare(tier, seed): return {"plain": vbuild.app("plain", ensemble=True), "san": vbuild.app("san", ensemble=True), "seed": seed}

def make(rng):
    k = models.rand_case(rng, nsteps=int(rng.integers(1, 20)), freq=int(rng.choice([1, 1, 2, 3])), amp=float(rng.choice([.1, .3])), holes=float(rng.choice([0, .3])), nblocks=int(rng.integers(1, 5)), dims=rng.integers(1, 4, 3))
    k.keys = ["mat%d" % i for i in range(len(k.mats))]
    if rng.random() < .4 and len(k.mats) > 1:                      # one material for several blocks
        i, j = rng.choice(len(k.mats), 2, replace=False); k.keys[j] = k.keys[i]; k.mats[j] = k.mats[i]
    p = list(rng.permutation(len(set(k.keys)))); ren = {q: str(rng.choice(["steel", "m", "material_"])) + str(p[n]) for n, q in enumerate(sorted(set(k.keys)))}   # the order of names is not the order of lines
    k.keys = [ren[q] for q in k.keys]; k.matof = dict(zip(k.keys, k.mats))
    names = [str(q) for q in rng.permutation(sorted(set(k.keys)))]; un = names[:int(rng.integers(1, len(names) + 1))]
    k.params = []; k.lines = []
    for q in un:
        ps = [str(v) for v in rng.permutation(["bulk_modulus", "shear_modulus"])[:int(rng.integers(1, 3))]]; w = []
        for v in ps:
            nominal = k.matof[q].K if v == "bulk_modulus" else k.matof[q].G; sd = float(nominal * rng.uniform(.05, .45) * (-1 if rng.random() < .2 else 1)); k.params.append((q, v, sd)); w += [v, models.num(sd)]
        k.lines.append((q, w))
    k.ne, k.na = int(rng.integers(0, 5)), int(rng.integers(0, 5))
    if rng.random() < .12: k.ne = int(rng.integers(5, 15)); k.na = int(rng.integers(0, 13)); k.nsteps = min(k.nsteps, 5); k.t1 = float(k.t0 + k.dt * k.nsteps)   # counts of two digits
    if k.ne + k.na == 0: k.ne = 1
    k.xi = rng.uniform(-1, 1, (k.ne + k.na, len(k.params))); k.xi[rng.random(k.xi.shape) < .1] = 0
    k.xi = np.array([[float("%.12g" % v) for v in r] for r in k.xi]).reshape(k.ne + k.na, len(k.params))
    k.co = np.zeros((k.na, k.ne + 1))
    for r in k.co:
        h = rng.integers(4)
        if h == 0: r[rng.integers(len(r))] = 1.0
        elif h == 1: w = rng.random(len(r)); r[:] = w / w.sum()
        else: r[:] = rng.uniform(-1, 1, len(r)); r[0] += 1 - r.sum()
    return k

def sample_text(rng, k):
    sp = lambda: " " * int(rng.integers(1, 4)) if rng.random() < .9 else "\t"; f = lambda v: str(rng.choice(["%.17g", "%.17e"])) % v; L = ["%d%s%d" % (k.ne, sp(), k.na)]
    for i in range(k.ne): L.append(sp().join(f(v) for v in k.xi[i]))
    for i in range(k.na): L.append(sp().join(f(v) for v in k.xi[k.ne + i]) + sp() + ":" + sp() + sp().join(f(v) for v in k.co[i]))
    return "\n".join(L) + "\n"

def moduli(k, s):
    """materials of sample s"""
    M = {q: copy.copy(m) for q, m in k.matof.items()}
    for j, (q, v, sd) in enumerate(k.params):
        if v == "bulk_modulus": M[q].K += sd * k.xi[s, j]
        else: M[q].G += sd * k.xi[s, j]
    return [M[q] for q in k.keys]

def deck(k, fields, mats=None):
    used = []
    for q in k.keys:
        if q not in used: used.append(q)
    d = app.Deck(t0=k.t0, t1=k.t1, nsteps=k.nsteps, freq=k.freq, fields=fields, blocks=[("block_%d" % b["id"], q) for b, q in zip(k.mesh.blocks, k.keys)], bcs=[c.text() for c in k.conds])
    by = dict(zip(k.keys, mats or k.mats))
    d.materials = [(q, by[q].model, dict(density=by[q].rho, bulk_modulus=by[q].K, shear_modulus=by[q].G)) for q in used]
    return d

class Forces:
    """a model whose forces are given for each step"""
    def __init__(s, md, seq): s.n, s.m, s.seq, s.i = md.n, md.m, seq, 0
    def internal(s, u): s.i += 1; return s.seq[s.i - 1]

def integrate(k, md):
    X = np.asarray(k.mesh.coords); rec = []
    def ic(v):
        for c in k.conds:
            if c.kind == "initial_velocity": nd = np.asarray(c.set["nodes"], int); v[nd, c.comp] = c.expr.fn(X[nd], 0.0)
    def bc(t, tp, u, v):
        for c in k.conds:
            nd = np.asarray(c.set["nodes"], int)
            if c.kind == "prescribed_velocity": v[nd, c.comp] = c.expr.fn(X[nd], t)
            elif c.kind == "prescribed_displacement" and t > tp: v[nd, c.comp] = (c.expr.fn(X[nd], t) - u[nd, c.comp]) / (t - tp)
    ref.explicit(md, k.t0, k.t1, k.nsteps, 1, ic, bc, lambda *a: rec.append((a[0], a[1]) + tuple(q.copy() for q in a[2:]))); return rec

def written(k): return [0] + [i + 1 for i in range(k.nsteps) if i % k.freq == 0 or i == k.nsteps - 1]

def good(o, rng, idx, wd, sh):
    k = make(rng); nr = int(rng.choice([1, 1, 2, 3, 4])); m = k.mesh
    try: parts = meshgen.partition(rng, m, nr, mode=str(rng.choice(["random", "slab", "block"]))) if nr > 1 else [m]
    except ValueError: return
    names = {("exact", i): ("exact_%s_" + str(i + 1)) for i in range(k.ne)}; names.update({("sample", i): ("sample_%s_" + str(i + 1)) for i in range(k.na)})
    fl = ["displacement", "velocity", "internal_force"] + [n % f for n in names.values() for f in ("displacement", "velocity", "force")]; fl = [fl[i] for i in rng.permutation(len(fl))]
    d = deck(k, " ".join(fl)); d.extra = ["uq parameters: %s%s%s" % (q, str(rng.choice([" ", " ", "  ", "\t"])), " ".join(w)) for q, w in k.lines] + ["uq model: file samples.txt"]; rng.shuffle(d.extra)
    k.lines.sort(key=lambda l: next(i for i, e in enumerate(d.extra) if e.split()[:3] == ["uq", "parameters:", l[0]]))
    old = k.params; k.params = [p for q, _ in k.lines for p in old if p[0] == q]        # columns follow the order of the lines
    os.makedirs(os.path.join(wd, "u"), exist_ok=True); open(os.path.join(wd, "u", "samples.txt"), "w").write(sample_text(rng, k))
    san = idx % 4 == 1
    x = app.run(sh["san" if san and nr == 1 else "plain"], d, parts, wd, tag="u", nranks=nr, args=["--use_uq"])
    what = "%d exact and %d interpolated samples, %d blocks, materials %s, uncertain %s, %d ranks" % (k.ne, k.na, len(m.blocks), k.keys, [(p[0], p[1]) for p in k.params], nr)
    if not app.ok(o, x, "(ensemble: %s)" % what): return
    # the file of scaled parameters
    try: P = open(os.path.join(x.dir, "parameter_samples.dat")).read().split("\n")
    except OSError: o.violation("parameter file", "parameter_samples.dat not written (%s)" % what); return
    head = P[0].replace("#", " ").split(); ids = {q: [b["id"] for b, q2 in zip(m.blocks, k.keys) if q2 == q] for q in k.keys}
    if len(head) != len(k.params) or any(h not in ["%s_%d" % (v, i) for i in ids[q]] for h, (q, v, sd) in zip(head, k.params)): o.violation("parameter names", "parameter_samples.dat names %s, the columns are %s (%s)" % (head, [(v, ids[q]) for q, v, sd in k.params], what)); return
    rows = [[float(v) for v in l.split()] for l in P[1:] if l.strip()]
    want = [[(k.matof[q].K if v == "bulk_modulus" else k.matof[q].G) + sd * k.xi[s, j] for j, (q, v, sd) in enumerate(k.params)] for s in range(k.ne + k.na)]
    if np.shape(rows) != np.shape(want) or not np.allclose(rows, want, rtol=1e-5): o.violation("parameter file", "parameter_samples.dat holds %s, expected %s (%s)" % (rows, want, what)); return
    G = {int(g): i for i, g in enumerate(m.node_gid)} if m.node_gid is not None else {i + 1: i for i in range(len(m.coords))}
    W = written(k); nt = len(x.r.times); n = len(m.coords)
    if nt != len(W): o.violation("steps", "%d states written, %d expected" % (nt, len(W))); return
    def whole(name):
        F = np.full((nt, n, 3), np.nan)
        for r in x.res: F[:, [G[int(g)] for g in r.node_gid]] = app.field(r, name)
        return F
    R = {}; N = {}
    def refrun(mats):
        md = ref.Model(m, mats); rec = integrate(k, md); k2 = copy.copy(k); k2.mats = mats; return md, rec, models.noise(k2, md, rec, safety=4)
    md, rec, nz = refrun(k.mats); base = rec; live = md.m > 0
    hmax = max(np.abs(r[2]).max() for r in rec)
    sets = [("nominal", None, "displacement", "velocity", "internal_force", rec, nz)]; ex = []
    for i in range(k.ne):
        mds, rs, ns = refrun(moduli(k, i)); ex.append((rs, ns)); q = names["exact", i]; sets.append(("exact sample %d" % (i + 1), i, q % "displacement", q % "velocity", q % "force", rs, ns))
    for i in range(k.na):
        seq = [sum(c * r[s][5] for c, r in zip(k.co[i], [base] + [e[0] for e in ex])) for s in range(1, k.nsteps + 1)]
        rs = integrate(k, Forces(md, seq)); tot = {f: sum(abs(c) * z[f] for c, z in zip(k.co[i], [nz] + [e[1] for e in ex])) + nz[f] for f in ("u", "v", "f")}; q = names["sample", i]
        sets.append(("interpolated sample %d" % (i + 1), None, q % "displacement", q % "velocity", q % "force", rs, tot))
    for lab, es, un, vn, fn, rs, z in sets:
        if not all(np.isfinite(q[live]).all() for s in rs for q in s[2:4]) or max(np.abs(s[2]).max() for s in rs) > 5 * k.h: o.count("unstable trajectories skipped"); continue
        if any((ref.detJ((md.X + s[2])[c]) <= 1e-2 * ref.detJ(md.X[c])).any() for s in rs for c in md.conn if len(c)): o.count("inverted trajectories skipped"); continue
        for nm, j, t in ((un, 2, z["u"]), (vn, 3, z["v"]), (fn, 5, z["f"])):
            A = whole(nm)
            for w, s in enumerate(W):
                dv = np.abs(A[w] - rs[s][j]); tol = np.broadcast_to(np.asarray(t) + 1e-13 * np.abs(rs[s][j]).max(), dv.shape); o.count("values compared", dv.size); bad = (~(dv <= tol))[live]
                with np.errstate(all="ignore"): o.maxi("deviation/tolerance", np.nanmax(np.where(dv > 0, dv / np.maximum(tol, 1e-300), 0)[live]))
                if bad.any():
                    e = np.argwhere(~(dv <= tol) & live[:, None])[0]; o.violation(lab.rstrip("0123456789 ") + ":" + ("force" if j == 5 else nm.split("_")[1] if "_" in nm else nm), "%s: %s of node %d component %d after step %d is %r, the separate run gives %r, allowed %r (%s)" % (lab, nm, e[0], e[1], s, A[w][tuple(e)], rs[s][j][tuple(e)], float(tol[tuple(e)]), what)); return
        o.count("trajectories"); o.count(lab.split(" ")[0] + " trajectories")
        # the same sample as a run of its own
        if es is not None and rng.random() < .3:
            y = app.run(sh["plain"], deck(k, "displacement velocity internal_force", moduli(k, es)), parts, wd, tag="s%d" % es, nranks=nr)
            if not app.ok(o, y, "(single run of a sample)"): return
            for r, p in zip(x.res, y.res):
                ix = np.array([G[int(g)] for g in r.node_gid])
                for nm, q, t in ((un, "displacement", z["u"]), (vn, "velocity", z["v"]), (fn, "internal_force", z["f"])):
                    dv = np.abs(app.field(r, nm) - app.field(p, q)); tol = 2 * (np.asarray(t)[ix] if np.ndim(t) else t) + 1e-13 * np.abs(app.field(p, q)).max()
                    if not (dv <= tol).all(): o.violation("single run", "%s of %s differs by %g from a separate run of the program (%s)" % (nm, lab, dv.max(), what)); return
            o.count("samples also run on their own")
    o.case("%d|%s" % (idx, common.hashlib.sha1(repr((k.xi.tolist(), k.co.tolist(), k.keys)).encode()).hexdigest()[:12])); o.sample(what)
    o.count("ensembles in parallel", nr > 1); o.count("ensembles with a material in several blocks", len(set(k.keys)) < len(k.keys)); o.count("ensembles with materials that are certain", len(k.lines) < len(set(k.keys))); o.count("ensembles without interpolated samples", k.na == 0); o.count("ensembles without exact samples", k.ne == 0)

def wrong(o, rng, idx, wd, sh):
    """faulty ensemble input: a diagnosed failure"""
    k = make(rng); k.ne = max(k.ne, 1); m = k.mesh; k.xi = rng.uniform(-1, 1, (k.ne + k.na, len(k.params))); k.co = rng.uniform(0, 1, (k.na, k.ne + 1))
    T = sample_text(rng, k).split("\n"); par = [[q] + w for q, w in k.lines]; mod = "file samples.txt"; faults = ["no file", "empty file", "few columns", "many columns", "word", "rows missing", "no model line", "no parameter lines", "unknown material", "range missing", "range word", "counts word", "one count", "model word", "no file name", "unknown parameter", "negative count"]
    if k.na: faults += ["no colon", "few coefficients", "many coefficients"]
    how = faults[(idx // 4) % len(faults)]; r = 1 + int(rng.integers(k.ne)); a = 1 + k.ne + int(rng.integers(max(k.na, 1))); write = True
    if how == "no file": write = False
    elif how == "empty file": T = [""]
    elif how == "few columns": T[r] = " ".join(T[r].split()[:-1])
    elif how == "many columns": T[r] += " 0.5"
    elif how == "word": T[r] = " ".join(["abc"] + T[r].split()[1:])
    elif how == "rows missing": T = T[:-2 - int(rng.integers(max(k.na, 1)))]
    elif how == "no colon": T[a] = T[a].replace(":", "")
    elif how == "few coefficients": T[a] = " ".join(T[a].split()[:-1])
    elif how == "many coefficients": T[a] += " 0.5"
    elif how == "counts word": T[0] = "two 1"
    elif how == "negative count": T[0] = str(rng.choice(["-1 1", "1 -1", "-2 -2"]))
    elif how == "one count": T[0] = str(k.ne)
    elif how == "no model line": mod = None
    elif how == "no parameter lines": par = []
    elif how == "unknown material": par[0][0] = "nosuch"
    elif how == "range missing": par[0] = par[0][:-1]
    elif how == "range word": par[0][2] = "wide"
    elif how == "model word": mod = "sampled samples.txt"
    elif how == "no file name": mod = "file"
    elif how == "unknown parameter": par[0][1] = str(rng.choice(["bulk", "modulus", "yield_stress", "densitty"]))
    d = deck(k, "displacement"); d.extra = ["uq parameters: " + " ".join(w) for w in par] + (["uq model: " + mod] if mod else [])
    os.makedirs(os.path.join(wd, "w"), exist_ok=True)
    if write: open(os.path.join(wd, "w", "samples.txt"), "w").write("\n".join(T))
    x = app.run(sh["san"], d, [m], wd, tag="w", args=["--use_uq"], read=False)
    o.case("faulty: %s %d" % (how, idx)); o.count("faulty ensembles"); o.count("faulty: " + how)
    if x.san: o.violation("faulty:" + how, "faulty ensemble input (%s): %s" % (how, x.san[1])); return
    if x.timed_out: o.violation("faulty:" + how, "faulty ensemble input (%s): no end" % how); return
    if x.rc == 0: o.violation("faulty:" + how, "faulty ensemble input (%s) was accepted: %s" % (how, x.out[-300:])); return
    if x.rc < 0 and x.rc != -6 or x.rc in (139, 136): o.violation("faulty:" + how, "faulty ensemble input (%s): crashed, rc=%s: %s" % (how, x.rc, x.err[-500:])); return
    if not (x.out + x.err).strip(): o.violation("faulty:" + how, "faulty ensemble input (%s): no message" % how)

def case(o, rng, idx, tier, wd, sh):
    if idx % 4 == 3: wrong(o, rng, idx, wd, sh)
    else: good(o, rng, idx, wd, sh)
