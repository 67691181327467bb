"""C10: what the mesh readers return, against the file as the Exodus library sees it."""
import json, os, numpy as np, vbuild, hrun, meshgen, exo
RULE = ("case = mesh file written through the Exodus C library (permuted and sparse ids, block and set names present or not, mostly up to 32 characters, some up to 120, empty sets and blocks, distribution factors, "
        "side sets, missing id maps, original_global_id_map maps, single precision, classic and netCDF-4 files with 32 and 64 bit integers, unused nodes, one rank's piece of a decomposed mesh), read by GenesisMesh and dumped through every accessor; "
        "then copied through Initialize and through the text format; non-trivial = distinct mesh compared completely")
ASSUMPTIONS = ["text format: names without blanks (blank-separated format), coordinates to the 16 digits written, no distribution factors or side sets (not part of the format)"]
PER = {"quick": 12, "thorough": 60}
def ncases(tier): return 90 if tier == "quick" else 200
MIN_DISTINCT = 200
def prepare(tier, seed): return {"exe": vbuild.harness("c10", "san", only=["nimble_genesis_mesh.cc", "nimble_exodus_output.cc"])}
def nm(rng, used, maxl=32):
    A = "abcdefghijklmnopqrstuvwxyzABCXYZ_-.:/#0123456789"
    while True:
        s = "".join(A[i] for i in rng.integers(0, len(A), int(rng.choice([1, 3, 8, 20, 31, maxl] * 3 + [33, 64, 120])))); 
        if s not in used: used.add(s); return s
def build(rng):
    m = meshgen.hexa(rng, dims=rng.integers(1, 5, 3), nblocks=int(rng.integers(1, 6)), holes=float(rng.choice([0, .3])), gids=rng.random() < .8, sparse_ids=rng.random() < .7, scale=10.0 ** rng.uniform(-6, 6))
    big = rng.random() < .2; n = len(m.coords); ne = m.num_elem(); used = set()
    if big:
        for b in m.blocks: b["id"] = int(rng.integers(1000, 2 ** 31 - 1)); b["name"] = ""
        if m.node_gid is not None: m.node_gid = m.node_gid.astype(np.int64) + 2 ** 30; m.elem_gid = m.elem_gid.astype(np.int64) + 2 ** 30
    for b in m.blocks: b["name"] = nm(rng, used) if rng.random() < .5 else ""
    meshgen.add_sets(rng, m, int(rng.integers(0, 6)), minsize=0)
    for s in m.node_sets:
        s["name"] = nm(rng, used) if rng.random() < .5 else ""
        if rng.random() < .15: s["nodes"] = s["nodes"][:0]; s["df"] = None
    ids = rng.choice(np.arange(1, 90), 4, replace=False)
    for k in range(int(rng.integers(0, 4))):
        q = int(rng.integers(0, 2 * ne)); s = dict(id=int(ids[k]), elems=rng.integers(0, ne, q), sides=rng.integers(0, 6, q), name=nm(rng, used) if rng.random() < .5 else "")
        if q and rng.random() < .5: s["df"] = rng.random(4 * q)
        m.side_sets.append(s)
    orphan = 0
    if rng.random() < .3: o = int(rng.integers(1, 4)); m.coords = np.concatenate([m.coords, rng.random((o, 3))]); m.node_gid = None if m.node_gid is None else np.concatenate([m.node_gid, (2 ** 31 - 1 if big else 100000) - np.arange(o)])
    if rng.random() < .3 and len(m.blocks) > 1:  # an empty block
        k = int(rng.integers(len(m.blocks))); cut = m.blocks[k]["conn"]; off = sum(len(b["conn"]) for b in m.blocks[:k])
        if m.elem_gid is not None: m.elem_gid = np.delete(m.elem_gid, np.arange(off, off + len(cut)))
        m.blocks[k]["conn"] = cut[:0]; m.side_sets = []
        if rng.random() < .3:  # the header of an empty block need not say how many nodes its elements would have
            m.blocks[k]["conn"] = np.zeros((0, 0), int)
    if rng.random() < .25 and m.num_elem() > 3 and not m.side_sets:
        m = meshgen.partition(rng, m, int(rng.integers(2, 4)))[0]
        if rng.random() < .5: m.node_map2 = ("original_global_id_map", m.node_gid); m.elem_map2 = ("original_global_id_map", m.elem_gid); m.node_gid = None; m.elem_gid = None
        elif rng.random() < .5: m.node_map2 = ("original_global_id_map", rng.permutation(m.node_gid))
    m.title = nm(rng, used, 80)[:80]
    return m
def case(o, rng, idx, tier, wd, sh):
    files = []
    for k in range(PER[tier]):
        m = build(rng); p = os.path.join(wd, "m%d.g" % k); exo.write(p, m, io=4 if rng.random() < .15 else 8, fmt="" if rng.random() < .6 else str(rng.choice(list(exo.FORMATS)))); files.append(p)
    hrun.run(o, [sh["exe"]] + files, wd, timeout=120)
    if o.viol: return
    for p in files:
        f = exo.read(p); L = [json.loads(l) for l in open(p + ".json")]
        g = None
        raw = f
        ng, eg = f.node_gid, f.elem_gid
        aux = exo.aux_maps(p)
        if aux[0] is not None: ng = aux[0]
        if aux[1] is not None: eg = aux[1]
        for way, d in zip(("exodus", "copy", "text"), L):
            if d is None: continue
            compare(o, way, d, f, ng, eg, os.path.basename(p))
        if L[3]["none"]: o.violation("none", "a mesh named none is valid")
        if not L[4]["missing"]: o.violation("missing-text", "reading a missing text mesh does not fail")
        pr = L[5]
        if ("num nodes:  %d\n" % len(f.coords)) not in pr or ("num elems:  %d\n" % f.num_elem()) not in pr: o.violation("print", "printed summary %r does not fit the mesh" % pr)
        o.case("%s-%d" % (hash(f.coords.tobytes()), len(f.node_sets)))
        o.count("nodes", len(f.coords)); o.count("blocks", len(f.blocks)); o.count("node sets", len(f.node_sets)); o.count("side sets", len(f.side_sets))
        o.count("empty blocks", sum(len(b["conn"]) == 0 for b in f.blocks)); o.count("auxiliary maps", sum(a is not None for a in aux)); o.count("empty sets", sum(len(s["nodes"]) == 0 for s in f.node_sets))
    if idx == 0: o.sample("mesh with blocks %s, node sets %s" % ([(b["id"], b["name"], len(b["conn"])) for b in f.blocks], [(s["id"], s["name"], len(s["nodes"])) for s in f.node_sets]))
def compare(o, way, d, f, ng, eg, tag):
    def eq(key, a, b):
        if a != b: o.violation(way + ":" + key, "%s, %s: %s is %s, file has %s" % (tag, way, key, str(a)[:300], str(b)[:300]))
    li = lambda a: [int(x) for x in a]
    n, ne = len(f.coords), f.num_elem(); on = [b for b in f.blocks if len(b["conn"])]
    eq("dimension", d["dim"], 3); eq("valid", d["valid"], 1); eq("nodes", d["n"], n); eq("elements", d["ne"], ne); eq("node ids", d["nngid"], n)
    if n:
        for i, c in enumerate("xyz"):
            a = np.array(d[c]); w = f.coords[:, i]
            if way == "text":
                if a.shape != w.shape or not (np.abs(a - w) <= 1.01e-15 * np.abs(w)).all(): eq("coordinates " + c, a.tolist(), w.tolist())
            elif a.tolist() != w.tolist(): eq("coordinates " + c, a.tolist(), w.tolist())
        eq("node global ids", d["ngid"], li(ng - 1)); eq("largest node id", d["maxgid"], int(ng.max()) - 1)
        if way != "text": eq("bounding box", d["box"], [float(x) for i in range(3) for x in (f.coords[:, i].min(), f.coords[:, i].max())])
        elif not np.allclose(d["box"], [x for i in range(3) for x in (f.coords[:, i].min(), f.coords[:, i].max())], rtol=1e-15, atol=0): eq("bounding box", d["box"], "")
        mid = (f.coords.min(0) + f.coords.max(0)) / 2; big = np.abs(f.coords).max(0)
        if not (np.abs(np.array(d["centre"]) - mid) <= 4e-16 * big + (1e-15 * big if way == "text" else 0)).all(): eq("centre", d["centre"], mid.tolist())
    if ne: eq("element global ids", d["egid"], li(eg - 1))
    eq("block ids", d["bids"], [b["id"] for b in on]); allb = f.blocks if way == "exodus" else on
    eq("all block ids", d["abids"], [b["id"] for b in allb]); eq("all block names", d["abnames"], [b["name"] or "block_%d" % b["id"] for b in allb]); eq("block count", [d["nb"], d["nab"]], [len(on), len(allb)])
    eq("block tables", d["nsize"], [len(on)] * 3); off = 0
    for a, b in zip(d["blocks"], on):
        k = len(b["conn"]); name = b["name"] or "block_%d" % b["id"]
        eq("block id", [a["id"], a["byname"], a["has"], a["onproc"]], [b["id"], b["id"], 1, [b["id"]]]); eq("block name", a["name"], name)
        eq("block sizes", [a["n"], a["n2"], a["npe"], a["npe2"]], [k, k, b["conn"].shape[1], b["conn"].shape[1]]); eq("element type", a["type"], "HEX")
        eq("block element ids", a["gids"], li(eg[off:off + k] - 1)); off += k
        c = b["conn"].ravel().tolist(); eq("connectivity", a["conn"], c); eq("connectivity table", a["conn2"], c)
    if way != "copy":
        eq("node set ids", [s["id"] for s in d["ns"]], [s["id"] for s in f.node_sets]); eq("node set tables", d["nsn"], [len(f.node_sets)] * 3)
        for a, s in zip(d["ns"], f.node_sets):
            eq("node set name", a["name"], s["name"] or "nodelist_%d" % s["id"]); eq("node set members", a["m"], li(s["nodes"]))
            if way == "exodus": eq("node set factors", a["df"], s["df"].tolist())
    if way == "exodus":
        eq("side set ids", [s["id"] for s in d["ss"]], [s["id"] for s in f.side_sets]); eq("side set tables", d["ssn"], [len(f.side_sets)] * 3)
        for a, s in zip(d["ss"], f.side_sets): eq("side set name", a["name"], s["name"] or "sideset_%d" % s["id"]); eq("side set members", a["m"], li(s["elems"])); eq("side set factors", a["df"], s["df"].tolist())
    eq("unknown block", [d["unknown"], d["thrown"]], [0, 3])
