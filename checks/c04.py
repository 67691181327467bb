"""C04: a decomposed run gives the single-rank results, matched by global id, with both reductions."""
import numpy as np, vbuild, models, app, ref, meshgen
RULE = ("case = random model run on 1 rank and on N ranks (random/slab/block/lopsided partitions, native or Tpetra reduction); non-trivial = distinct "
        "(partition, deck) with shared nodes and non-zero motion")
ASSUMPTIONS = ["element decompositions as produced by mesh decomposition tools: every rank file lists all blocks and node sets"]
WORKERS = 6
def ncases(tier): return 300 if tier == "quick" else 700
MIN_DISTINCT = 15
def prepare(tier, seed): return {"exe": vbuild.app("plain")}
FIELDS = "lumped_mass displacement velocity acceleration internal_force stress deformation_gradient volume reference_coordinate"

def compare(o, k, serial, results, parts, tag):
    gid = {int(g): i for i, g in enumerate(serial.node_gid)}
    emap = {}
    for b in serial.blocks:
        for i, g in enumerate(b["elem_gid"]): emap[int(g)] = (b["id"], i)
    md = ref.Model(k.mesh, k.mats); u = app.field(serial, "displacement")
    nz = models.noise(k, md, [(0, 0) + tuple(app.field(serial, f)[-1] for f in ("displacement", "velocity", "acceleration", "internal_force"))], safety=3.0)
    seen_n, seen_e = set(), 0
    g = models.governed(k); skip = np.array([[c is not None and c.kind == "prescribed_displacement" for c in row] for row in g])
    emod = max(mt.K + mt.G for mt in k.mats)
    for r, R in enumerate(results):
        if len(R.times) != len(serial.times) or np.abs(R.times - serial.times).max() > 1e-12 * (abs(k.t1) + abs(k.t0)):
            o.violation("times", "%s rank %d wrote times %s, serial %s" % (tag, r, R.times, serial.times)); return False
        try: ix = np.array([gid[int(q)] for q in R.node_gid])
        except KeyError as e: o.violation("node-gid", "%s rank %d writes unknown node id %s" % (tag, r, e)); return False
        seen_n.update(ix.tolist())
        for f, nk in (("reference_coordinate", None), ("displacement", "u"), ("velocity", "v"), ("acceleration", "a"), ("internal_force", "f")):
            A = app.field(serial, f)[:, ix]; B = app.field(R, f); sc = np.abs(app.field(serial, f)).max()
            tol = 1e-8 * sc + (0 if nk is None else (nz[nk][ix] if not np.isscalar(nz[nk]) else nz[nk]))
            d = np.abs(A - B)
            if f == "velocity": d[:, skip[ix]] = 0
            o.maxi("deviation " + f, d.max() / max(sc, 1e-300) if d.size else 0); o.count("values compared", d.size)
            if not (d <= tol).all():
                w = np.unravel_index(np.argmax(np.where(np.isfinite(d), d - tol, 1e300)), d.shape)
                o.violation(f, "%s rank %d: %s at step %d, global node %d, component %d is %r, serial %r (scale %g)" % (tag, r, f, w[0], R.node_gid[w[1]], w[2], B[w], A[w], sc)); return False
        d = np.abs(serial.nodal["lumped_mass"][:, ix] - R.nodal["lumped_mass"])
        if d.size and not d.max() <= 1e-11 * serial.nodal["lumped_mass"].max(): o.violation("lumped_mass", "%s rank %d: lumped mass deviates by %g" % (tag, r, d.max())); return False
        for b in R.blocks:
            if not len(b["conn"]): continue
            for nm, vals in R.elem[b["id"]].items():
                for i, q in enumerate(b["elem_gid"]):
                    if int(q) not in emap or emap[int(q)][0] != b["id"]: o.violation("elem-gid", "%s rank %d: element id %d not in block %d" % (tag, r, q, b["id"])); return False
                    s = serial.elem[b["id"]][nm][:, emap[int(q)][1]]; d = np.abs(s - vals[:, i]).max()
                    sc = emod if nm.startswith("stress") else (1.0 if nm.startswith("def") else np.abs(s).max())
                    if not d <= 1e-8 * sc * max(1, 1e-3 * np.abs(k.mesh.coords).max() / k.h):
                        o.violation("element:" + nm.split("_")[0], "%s rank %d: %s of element %d deviates by %g" % (tag, r, nm, q, d)); return False
            seen_e += len(b["conn"])
    if len(seen_n) != len(gid) or seen_e != len(emap): o.violation("coverage", "%s wrote %d of %d nodes, %d of %d elements" % (tag, len(seen_n), len(gid), seen_e, len(emap))); return False
    return True

def case(o, rng, idx, tier, wd, sh):
    nr = int(rng.choice([2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 6, 8, 11])) if tier == "quick" else int(rng.choice([2, 3, 4, 5, 7, 11]))
    dims = rng.integers(2, 4, 3) if nr < 6 else np.array([3, 3, 2]) if nr < 9 else np.array([4, 3, 3])
    if nr < 5 and rng.random() < .2: dims = rng.integers(4, 7, 3) if rng.random() < .6 else rng.integers(8, 11, 3)
    k = models.rand_case(rng, dims=dims, nsteps=int(rng.integers(3, 12)), freq=int(rng.integers(1, 4)), nsets=4, holes=float(rng.choice([0, 0.2])))
    if rng.random() < 0.4:  # a set on very few nodes, so that it exists on some ranks only
        k.mesh.node_sets[0]["nodes"] = k.mesh.node_sets[0]["nodes"][:1]
        if k.mesh.node_sets[0].get("df") is not None: k.mesh.node_sets[0]["df"] = k.mesh.node_sets[0]["df"][:1]
    d = models.deck(k, FIELDS)
    x = app.run(sh["exe"], d, k.mesh, wd, tag="serial")
    if not app.ok(o, x, "serial"): return
    u = app.field(x.r, "displacement")
    if not np.isfinite(u).all() or np.abs(u).max() > 20 * k.h: o.count("skipped unstable model"); return
    try: parts = meshgen.partition(rng, k.mesh, nr, mode=str(rng.choice(["random", "random", "slab", "block", "single"])))
    except ValueError: o.count("skipped small mesh"); return
    tp = idx % 2 == 1
    y = app.run(sh["exe"], d, parts, wd, tag="par", nranks=nr, args=["--use_tpetra"] if tp else [], timeout=120)
    tag = "%d ranks %s" % (nr, "tpetra" if tp else "native")
    if not app.ok(o, y, tag): return
    good = compare(o, k, x.r, y.res, parts, tag)
    cnt = np.zeros(len(k.mesh.coords), int)
    for p in parts: cnt[p.local_nodes] += 1
    o.count("shared nodes", (cnt > 1).sum()); o.maxi("ranks sharing one node", cnt.max()); o.count("runs " + ("tpetra" if tp else "native"))
    o.count("ranks without some block", sum(any(len(b["conn"]) == 0 for b in p.blocks) for p in parts))
    if (cnt > 1).any() and np.abs(u).max() > 0: o.case((idx, nr, tp))
    if idx < 2: o.sample({"ranks": nr, "tpetra": tp, "elements": k.mesh.num_elem(), "shared nodes": int((cnt > 1).sum()), "max ranks per node": int(cnt.max())})
