"""C07: the output database carries the input mesh and exactly the requested fields."""
import numpy as np, vbuild, models, app, ref, meshgen, exo
RULE = ("case = random mesh (sparse/permuted ids, unnamed blocks, long names, classic and netCDF-4 files, unused nodes, node/side sets with and without distribution factors, 1 or N ranks) "
        "and random field list; non-trivial = distinct mesh compared completely")
WORKERS = 8
def ncases(tier): return 600 if tier == "quick" else 1600
MIN_DISTINCT = 40
def prepare(tier, seed): return {"exe": vbuild.app("plain")}
NOD = {"lumped_mass": [""], "reference_coordinate": "xyz", "displacement": "xyz", "velocity": "xyz", "acceleration": "xyz", "internal_force": "xyz", "external_force": "xyz"}
ELE = {"stress": app.SYM, "deformation_gradient": app.FULL, "volume": [""]}
for i in range(1, 9): ELE["ipt%02d_stress" % i] = app.SYM; ELE["ipt%02d_deformation_gradient" % i] = app.FULL
def labels(f, c): return [f + ("_" + q if q else "") for q in c]

def check_mesh(o, m, r, tag):
    def bad(key, msg): o.violation(key, tag + ": " + msg); return False
    if r.dim != 3: return bad("dim", "dimension %d" % r.dim)
    if r.coords.shape != m.coords.shape or not (r.coords == m.coords).all(): return bad("coordinates", "coordinates differ")
    if [b["id"] for b in r.blocks] != [b["id"] for b in m.blocks]: return bad("block-ids", "blocks %s, mesh has %s" % ([b["id"] for b in r.blocks], [b["id"] for b in m.blocks]))
    for a, b in zip(m.blocks, r.blocks):
        want = a["name"] or "block_%d" % a["id"]
        if b["name"] != want: return bad("block-names", "block %d is called %r, mesh says %r" % (a["id"], b["name"], want))
        if len(a["conn"]) != len(b["conn"]): return bad("block-size", "block %d has %d elements, mesh %d" % (a["id"], len(b["conn"]), len(a["conn"])))
        if len(a["conn"]) and (b["conn"].shape[1] != 8 or not (a["conn"] == b["conn"]).all()): return bad("connectivity", "connectivity of block %d differs" % a["id"])
        if len(a["conn"]) and not b["type"].upper().startswith("HEX"): return bad("element-type", "block %d has element type %r" % (a["id"], b["type"]))
    ng = m.node_gid if m.node_gid is not None else np.arange(1, len(m.coords) + 1); eg = m.elem_gid if m.elem_gid is not None else np.arange(1, m.num_elem() + 1)
    if not np.array_equal(r.node_gid, ng): return bad("node-gid", "node ids differ")
    if not np.array_equal(r.elem_gid, eg): return bad("elem-gid", "element ids differ")
    if [s["id"] for s in r.node_sets] != [s["id"] for s in m.node_sets]: return bad("set-ids", "node sets %s, mesh has %s" % ([s["id"] for s in r.node_sets], [s["id"] for s in m.node_sets]))
    for a, b in zip(m.node_sets, r.node_sets):
        if not np.array_equal(a["nodes"], b["nodes"]): return bad("set-members", "node set %d has members %s, mesh says %s" % (a["id"], list(b["nodes"])[:9], list(a["nodes"])[:9]))
        df = a.get("df"); df = [] if df is None else df
        if not np.array_equal(df, b["df"]): return bad("set-factors", "distribution factors of node set %d differ" % a["id"])
    return True

def check_fields(o, m, r, sel, tag):
    wn = sorted(sum([labels(f, NOD[f]) for f in sel if f in NOD], [])); we = sorted(sum([labels(f, ELE[f]) for f in sel if f in ELE], []))
    if m.num_elem() == 0: we = []
    if sorted(r.nodal_names) != wn: o.violation("nodal-names", "%s: nodal variables %s, requested %s" % (tag, sorted(r.nodal_names), wn)); return False
    if sorted(r.elem_names) != we: o.violation("element-names", "%s: element variables %s, requested %s" % (tag, sorted(r.elem_names), we)); return False
    for b in r.blocks:
        if len(b["conn"]) and sorted(r.elem.get(b["id"], {})) != we: o.violation("element-truth", "%s: block %d has values for %s only" % (tag, b["id"], sorted(r.elem.get(b["id"], {})))); return False
    if "reference_coordinate" in sel:
        X = app.field(r, "reference_coordinate")
        if not (X == m.coords).all(): o.violation("reference-coordinate", "%s: reference_coordinate is not the mesh coordinates" % tag); return False
    if "lumped_mass" in sel and not (r.nodal["lumped_mass"] >= 0).all(): o.violation("lumped-mass", "%s: negative mass" % tag); return False
    return True

def case(o, rng, idx, tier, wd, sh):
    par = idx % 5 == 4; nr = int(rng.integers(2, 5)) if par else 1
    k = models.rand_case(rng, dims=rng.integers(2, 4, 3) if par else None, nsteps=int(rng.integers(1, 4)), bc=False, nsets=int(rng.integers(1, 7)), holes=float(rng.choice([0, 0.3])), gids=par or rng.random() < 0.6)
    m = k.mesh; names = iter(rng.permutation(["alpha", "Body Two", "b", "x" * 31, "block_77", "Zeta-9", "y" * 33, "a_block_name_of_more_than_thirty-two_characters" * 2])); m.fmt = str(rng.choice(["", ""] + list(exo.FORMATS)))
    for b in m.blocks:
        q = rng.random()
        if q < 0.3: b["name"] = ""
        elif q < 0.5: b["name"] = str(next(names)).replace(" ", "_")
    orphan = 0
    if not par and rng.random() < 0.4:  # nodes that belong to no element
        orphan = int(rng.integers(1, 4)); n = len(m.coords)
        m.coords = np.concatenate([m.coords, m.coords[:orphan] + 7 * k.L])
        if m.node_gid is not None: m.node_gid = np.concatenate([m.node_gid, 3000000 + np.arange(orphan)])
        if rng.random() < 0.5: m.node_sets[0]["nodes"] = np.concatenate([m.node_sets[0]["nodes"], [n]]); m.node_sets[0]["df"] = None
        if rng.random() < 0.5:  # not at the end
            p = rng.permutation(n + orphan); inv = np.argsort(p); m.coords = m.coords[p]
            if m.node_gid is not None: m.node_gid = m.node_gid[p]
            for b in m.blocks: b["conn"] = inv[b["conn"]]
            for s in m.node_sets: s["nodes"] = inv[np.asarray(s["nodes"])]
    for s in m.node_sets:
        if rng.random() < 0.1: s["nodes"] = s["nodes"][:0]; s["df"] = None
    if not par and rng.random() < 0.3:
        for i in range(int(rng.integers(1, 3))):
            ne = int(rng.integers(1, m.num_elem() + 1))
            ss = dict(id=200 + i * 3, name="" if i else "side_a", elems=rng.choice(m.num_elem(), ne, replace=False), sides=rng.integers(0, 6, ne))
            if rng.random() < 0.5: ss["df"] = np.ones(4 * ne)
            m.side_sets.append(ss)
    allf = list(NOD) + list(ELE); sel = [allf[i] for i in rng.permutation(len(allf))[:int(rng.integers(1, 14))]]
    d = models.deck(k, " ".join(sel))
    if par:
        try: ms = meshgen.partition(rng, m, nr)
        except ValueError: return
    else: ms = [m]
    x = app.run(sh["exe"], d, ms, wd, nranks=nr, args=["--use_tpetra"] if par and rng.random() < 0.3 else [])
    if not app.ok(o, x, "ranks %d" % nr): return
    for r, (a, b) in enumerate(zip(ms, x.res)):
        tag = "rank %d/%d" % (r, nr)
        if not check_mesh(o, a, b, tag) or not check_fields(o, a, b, sel, tag): return
    o.count("databases compared", nr); o.count("unused nodes", orphan); o.count("node sets", len(m.node_sets)); o.count("side sets in input", len(m.side_sets)); o.count("blocks", len(m.blocks))
    o.count("empty blocks on a rank", sum(len(b["conn"]) == 0 for p in ms for b in p.blocks))
    o.case((idx, nr, m.num_elem(), len(sel)))
    if idx < 2: o.sample({"ranks": nr, "blocks": [(b["id"], b["name"]) for b in m.blocks], "fields": sel, "unused nodes": orphan})
