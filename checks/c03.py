"""C03: metamorphic pairs of runs (moved / rotated / mirrored / renumbered model) and rigid motions."""
import copy, numpy as np, vbuild, models, app, ref, meshgen
RULE = ("case = one model run twice, original and transformed (translation, rotation, axis permutation/mirror, renumbering of nodes, elements, "
        "blocks and corner order), or one rigidly moved body; non-trivial = distinct pair with non-zero motion compared")
def ncases(tier): return 560 if tier == "quick" else 1600
MIN_DISTINCT = 40
def prepare(tier, seed): return {"exe": vbuild.app("plain")}
FIELDS = "lumped_mass displacement velocity acceleration internal_force stress deformation_gradient volume"
NF = ("displacement", "velocity", "acceleration", "internal_force")

def const_case(rng, kinds, **kw):
    """conditions made of constant vectors on node sets (they transform with any linear map)"""
    k = models.rand_case(rng, nsteps=int(rng.integers(3, 15)), ic=False, bc=False, freq=int(rng.integers(1, 4)), kinds=kinds, nsets=4, amp=0.2, **kw)
    va = 0.2 * k.h / k.T
    k.vec = []
    for i, s in enumerate(k.mesh.node_sets[:4]):
        kind = ["initial_velocity", "initial_velocity", "prescribed_velocity", "prescribed_displacement"][i]
        k.vec.append((kind, s, (va if i < 3 else 0.02 * k.h) * rng.uniform(-1, 1, 3)))
    setconds(k, np.eye(3)); return k

def setconds(k, Q):
    k.conds = []
    for kind, s, v in k.vec:
        w = Q @ v; by = [t for t in k.mesh.node_sets if t["id"] == s["id"]][0]
        for c in range(3):
            k.conds.append(models.Cond(kind, by, c, models.Expr(None, None, const=float(w[c])), by["name"] or "nodelist_%d" % by["id"]))

def renumber(rng, k):
    """random renumbering; returns (case, node permutation new->old, [(old block, old element)] per new block)"""
    j = copy.deepcopy(k); m = j.mesh; n = len(m.coords)
    p = rng.permutation(n); inv = np.argsort(p)
    m.coords = k.mesh.coords[p]
    m.node_gid = rng.permutation(np.arange(1, 2 * n + 1))[:n]; ne = m.num_elem(); m.elem_gid = rng.permutation(np.arange(1, 2 * ne + 1))[:ne]
    bo = rng.permutation(len(m.blocks)); emap = []
    ids = rng.choice(np.arange(1, 99), len(bo), replace=False)
    blocks = []
    for q, b in enumerate(bo):
        src = k.mesh.blocks[b]; pe = rng.permutation(len(src["conn"]))
        cn = inv[src["conn"][pe]]
        cn = np.array([c[meshgen.ROT24[rng.integers(24)]] for c in cn])
        blocks.append(dict(id=int(ids[q]), name="block_%d" % ids[q], conn=cn, type="HEX8")); emap.append((b, pe))
    m.blocks = blocks; j.mats = [k.mats[b] for b in bo]
    m.node_sets = []
    sid = {}
    for t in rng.permutation(len(k.mesh.node_sets)):
        s = k.mesh.node_sets[t]; nd = rng.permutation(inv[np.asarray(s["nodes"])])
        i = int(rng.integers(100, 999)) + 1000 * int(t); m.node_sets.append(dict(id=i, nodes=nd, name="set%d" % i if rng.random() < .5 else "", df=np.ones(len(nd)))); sid[s["id"]] = i
    return j, p, emap, sid

def compare(o, key, k, a, b, Q, p, emap, md, vel_skip):
    rec = [(0, 0) + tuple(app.field(a, f)[-1] for f in NF)]
    nz = models.noise(k, md, rec, safety=4.0)
    if len(a.times) != len(b.times): o.violation(key + ":steps", "different number of steps"); return
    for f, nk in zip(NF, "uvaf"):
        A = np.einsum("ij,tnj->tni", Q, app.field(a, f)); B = app.field(b, f)
        A = A[:, p]; tolv = np.max(nz[nk], axis=-1, keepdims=True)[p] if not np.isscalar(nz[nk]) else nz[nk]
        sc = np.abs(A).max(); tol = 1e-8 * sc + 3 * tolv
        d = np.abs(A - B)
        if f == "velocity": d[:, vel_skip[p]] = 0
        o.maxi("deviation " + f, d.max() / max(sc, 1e-300)); o.count("values compared", d.size)
        if not (d <= tol).all():
            w = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, 1e300) - tol), d.shape)
            o.violation(key + ":" + f, "%s of the transformed model deviates by %g (scale %g) at step %d node %d" % (f, d[w], sc, w[0], w[1])); return
    # lumped mass
    if not np.abs(a.nodal["lumped_mass"][:, p] - b.nodal["lumped_mass"]).max() <= 1e-10 * a.nodal["lumped_mass"].max():
        o.violation(key + ":mass", "lumped mass changes under the transformation"); return
    emod = max(mt.K + mt.G for mt in k.mats)
    for nb, blk in enumerate(b.blocks):
        ob, pe = emap[nb] if emap else (nb, np.arange(len(blk["conn"])))
        oid = a.blocks[ob]["id"]
        def tens(r, i, nm, comps):
            d = r.elem[i]; g = lambda c: d[nm + "_" + c]
            if comps == 6: return np.stack([np.stack([g("xx"), g("xy"), g("zx")], -1), np.stack([g("xy"), g("yy"), g("yz")], -1), np.stack([g("zx"), g("yz"), g("zz")], -1)], -2)
            return np.stack([np.stack([g("xx"), g("xy"), g("xz")], -1), np.stack([g("yx"), g("yy"), g("yz")], -1), np.stack([g("zx"), g("zy"), g("zz")], -1)], -2)
        for nm, cs, s0 in (("stress", 6, emod), ("deformation_gradient", 9, 1.0)):
            A = Q @ tens(a, oid, nm, cs)[:, pe] @ Q.T; B = tens(b, blk["id"], nm, cs)
            # step 0 output precedes the first evaluation of the derived data
            d = np.abs(A - B)[1:]
            if d.size and not d.max() <= 1e-9 * s0 * max(1, 1e-3 * np.abs(k.mesh.coords).max() / k.h): o.violation(key + ":" + nm, "%s deviates by %g" % (nm, d.max())); return
        d = np.abs(a.elem[oid]["volume"][:, pe] - b.elem[blk["id"]]["volume"])
        if not d.max() <= 1e-8 * np.abs(b.elem[blk["id"]]["volume"]).max(): o.violation(key + ":volume", "volume deviates by %g" % d.max()); return

def rotmat(rng):
    q = rng.normal(size=4); q /= np.linalg.norm(q); w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])

def case(o, rng, idx, tier, wd, sh):
    mode = ["translate", "rotate", "axes", "renumber", "rigid-translation", "rigid-rotation", "renumber"][idx % 7]
    if mode.startswith("rigid"): return rigid(o, rng, idx, wd, sh, mode)
    kinds = ("neohookean",) if mode == "rotate" else ("elastic", "neohookean")
    if mode == "renumber" and idx % 2:
        k = models.rand_case(rng, freq=int(rng.integers(1, 4)), kinds=kinds)
    else: k = const_case(rng, kinds, twist=True)
    md = ref.Model(k.mesh, k.mats); Q = np.eye(3); p = np.arange(len(k.mesh.coords)); emap = None
    if mode == "renumber":
        j, p, emap, sid = renumber(rng, k); 
        j.conds = []
        for c in k.conds:
            s = [t for t in j.mesh.node_sets if t["id"] == sid[c.set["id"]]][0]
            j.conds.append(models.Cond(c.kind, s, c.comp, c.expr, s["name"] or "nodelist_%d" % s["id"]))
    else:
        j = copy.deepcopy(k)
        if mode == "translate": j.mesh.coords = k.mesh.coords + rng.uniform(-8, 8, 3) * k.L
        elif mode == "rotate": Q = rotmat(rng); j.mesh.coords = k.mesh.coords @ Q.T
        else:
            perm = rng.permutation(3); Q = np.zeros((3, 3)); Q[np.arange(3), perm] = rng.choice([-1.0, 1.0], 3)
            j.mesh.coords = k.mesh.coords @ Q.T
            if np.linalg.det(Q) < 0:
                for b in j.mesh.blocks: b["conn"] = b["conn"][:, meshgen.MIRROR]
        for kv, jv in zip(k.vec, j.vec): pass
        setconds(j, Q)
    x = app.run(sh["exe"], models.deck(k, FIELDS), k.mesh, wd, tag="a"); y = app.run(sh["exe"], models.deck(j, FIELDS), j.mesh, wd, tag="b")
    if not app.ok(o, x, "original") or not app.ok(o, y, mode): return
    u = app.field(x.r, "displacement")
    if not np.isfinite(u).all() or np.abs(u).max() > 20 * k.h: o.count("skipped unstable model"); return
    g = models.governed(k); skip = np.array([[c is not None and c.kind == "prescribed_displacement" for c in row] for row in g])
    if mode in ("rotate", "axes"): skip = np.repeat(skip.any(1)[:, None], 3, 1)
    compare(o, mode, j, x.r, y.r, Q, p, emap, md, skip)
    o.count("pairs " + mode)
    if np.abs(u).max() > 0: o.case((mode, idx, round(float(np.abs(u).max()), 14)))
    if idx < 4: o.sample({"mode": mode, "elements": k.mesh.num_elem(), "conditions": [c.text() for c in j.conds][:4]})

def rigid(o, rng, idx, wd, sh, mode):
    kinds = ("neohookean",) if mode == "rigid-rotation" else ("elastic", "neohookean")
    k = models.rand_case(rng, nsteps=int(rng.integers(2, 10)), ic=False, bc=False, freq=1, kinds=kinds, nsets=0, twist=True)
    n = len(k.mesh.coords); k.mesh.node_sets = [dict(id=7, nodes=rng.permutation(n), name="all", df=np.ones(n))]
    s = k.mesh.node_sets[0]; big = k.L * rng.uniform(0.5, 3)
    if mode == "rigid-translation":
        v = rng.normal(size=3) * big / (k.t1 - k.t0)
        bcs = ["initial_velocity all %s %s" % (c, models.num(v[i])) for i, c in enumerate("xyz")]
    else:
        a, b, c = rng.permutation(3); th = float(rng.uniform(0.5, 5)) / (k.t1 - k.t0)
        cen = k.mesh.coords.mean(0); f = models.fx; A, B = "xyz"[a], "xyz"[b]
        # the rotation angle is measured from the initial time
        ang = "(%s*(t - %s))" % (f(th), f(k.t0)); da = "(%s - %s)" % (A, f(cen[a])); db = "(%s - %s)" % (B, f(cen[b]))
        bcs = ['prescribed_displacement all %s "cos(%s)*%s - sin(%s)*%s - %s"' % (A, ang, da, ang, db, da),
               'prescribed_displacement all %s "sin(%s)*%s + cos(%s)*%s - %s"' % (B, ang, da, ang, db, db),
               'prescribed_displacement all %s 0.0' % "xyz"[c]]
    d = models.deck(k, FIELDS); d.bcs = bcs
    x = app.run(sh["exe"], d, k.mesh, wd)
    if not app.ok(o, x): return
    md = ref.Model(k.mesh, k.mats); r = x.r; u = app.field(r, "displacement"); f = app.field(r, "internal_force")
    nz = models.noise(k, md, [(0, 0, u[-1] * 0, u[-1], u[-1], u[-1])], safety=1 + np.abs(u).max() / k.h)
    if not (np.abs(f[1:]) <= 5 * nz["f"]).all(): o.violation(mode + ":force", "rigid motion produced internal force %g (allowance %g)" % (np.abs(f[1:]).max(), nz["f"].max())); return
    emod = max(mt.K + mt.G for mt in k.mats)
    for b in r.blocks:
        S = max(np.abs(r.elem[b["id"]]["stress_" + c][1:]).max() for c in app.SYM)
        o.maxi("stress / modulus under rigid motion", S / emod)
        if not S <= 1e-9 * emod * (1 + 1e-3 * (np.abs(k.mesh.coords).max() + np.abs(u).max()) / k.h): o.violation(mode + ":stress", "rigid motion produced stress %g (modulus %g)" % (S, emod)); return
        V = r.elem[b["id"]]["volume"][1:]; V0 = ref.volume(md.X[b["conn"]])
        if not np.abs(V - V0).max() <= 1e-8 * V0.max(): o.violation(mode + ":volume", "rigid motion changed volumes"); return
    if mode == "rigid-translation":
        tt = r.times - k.t0
        d = np.abs(u - tt[:, None, None] * v).max(); sc = np.abs(u).max()
        if not d <= 1e-7 * sc: o.violation(mode + ":motion", "free translation deviates by %g of %g" % (d, sc))
    o.count("rigid " + mode); o.case((mode, idx, round(float(np.abs(u).max()), 12)))
