"""C34: the contact visualization shows the contact surface where it is and in the state it is in."""
import os, re, numpy as np, vbuild, app, meshgen, ref, models, exo, c24
RULE = ("case = one contact run with visualization on 1-6 ranks, two bodies pressed into each other with a brute-force search plugged in, or random primary and secondary blocks of one body with the default search; every file, every written "
        "state: times, triangles and nodes against the outside faces of the mesh displaced by the main output, ids over all ranks, contact state and number of contacts against the geometry shown; non-trivial = distinct run whose surface moved")
ASSUMPTIONS = ["contact states are set by the search, which the check supplies", "a contact node is shown with an id one above that of its mesh node, as in the reference result of the contact_entity_creation test"]
def ncases(tier): return 300 if tier == "quick" else 1500
MIN_DISTINCT = 40
def prepare(tier, seed): return {"plain": vbuild.app("plain"), "c": vbuild.harness("c24app", "plain")}

def states(x, T, nodes, ids, corner, depth, h):
    """which triangles and nodes are in contact in one written state; None when a decision is too close to call"""
    a, b, c = x[T[:, 0]], x[T[:, 1]], x[T[:, 2]]; U, V = b - a, c - a; n = np.cross(U, V); n2 = (n * n).sum(1); nn = n / np.sqrt(n2)[:, None]
    st = np.zeros(len(T), bool); sn = np.zeros(len(nodes), bool)
    for q, i in enumerate(nodes):
        w = x[i] - a; g3 = (np.cross(U, w) * n).sum(1) / n2; g2 = (np.cross(w, V) * n).sum(1) / n2; g1 = 1 - g2 - g3; gap = (w * nn).sum(1); bm = np.minimum(np.minimum(g1, g2), g3); own = (corner == ids[q]).any(1)
        cand = ~own & (gap < 1e-9 * h) & (gap > -depth - 1e-9 * h) & (bm > -1e-9)
        if (cand & ((np.abs(bm) < 1e-9) | (np.abs(gap + depth) < 1e-9 * h) | (np.abs(gap) < 1e-9 * h))).any(): return None
        hit = cand & (bm >= 0) & (gap < 0); st |= hit; sn[q] = hit.any()
    return st, sn

def case(o, rng, idx, tier, wd, sh):
    pen = idx % 2 == 0; nr = int(rng.choice([1, 1, 2, 3, 4, 6])); env = {}; depth = 0.0; bcs = []
    if pen:
        m, A, B, ax, s, gap = c24.bodies(rng); prim, sec = (A, B) if rng.random() < .5 else (B, A)
        mats = models.rand_mats(rng, m); dt = models.safe_dt(m, mats) * float(rng.uniform(.2, .6)); md = ref.Model(m, mats); h = models.hmin(m); ns = int(rng.integers(8, 40)); freq = int(rng.choice([1, 2, 3, 7, 0]))
        p = float(rng.uniform(.02, .2)) * md.m[md.m > 0].min() / dt ** 2; v = float(rng.uniform(.1, .5)) * h / (ns * dt) + gap / (ns * dt * .2); depth = 0.3 * h; env = {"VERIF_DEPTH": "%.17g" % depth}
        bcs = ["initial_velocity first %s %.17g" % ("xyz"[ax], s * v / 2), "initial_velocity second %s %.17g" % ("xyz"[ax], -s * v / 2)]
        if rng.random() < .5: bcs.append("initial_velocity first %s %.17g" % ("xyz"[(ax + 1) % 3], .3 * v))
        d = app.Deck(t0=float(rng.choice([0, dt * 5.5])), nsteps=ns, freq=freq, materials=[("mat%d" % i, mt.model, dict(density=mt.rho, bulk_modulus=mt.K, shear_modulus=mt.G)) for i, mt in enumerate(mats)],
                     blocks=[("block_%d" % b["id"], "mat%d" % i) for i, b in enumerate(m.blocks)], bcs=bcs); d.t1 = d.t0 + dt * ns; exe = sh["c"]
    else:
        k = models.rand_case(rng, dims=rng.integers(1, 5, 3), nblocks=int(rng.integers(2, 6)), nsteps=int(rng.integers(2, 12)), holes=float(rng.choice([0, .3])), freq=int(rng.choice([1, 2, 3, 5]))); m = k.mesh; nb = len(m.blocks); h = k.h; p = 1.0
        if nb < 2: return
        c = rng.permutation(nb); q = int(rng.integers(1, nb)); prim, sec = [int(i) for i in c[:q]], [int(i) for i in (c[q:] if rng.random() < .7 else c[max(0, q - 1):])]
        if set(prim) & set(sec): sec = [i for i in sec if i not in prim]
        d = models.deck(k, ""); exe = sh["plain"]; freq = k.freq
    if not sec: return
    ve, vb = [("on", "on"), ("on", "off"), ("off", "on")][int(rng.integers(3))]
    d.fields = "displacement"; d.extra += ["contact: primary_blocks %s secondary_blocks %s penalty_parameter %.17g" % (" ".join("block_%d" % m.blocks[b]["id"] for b in prim), " ".join("block_%d" % m.blocks[b]["id"] for b in sec), p),
        "contact visualization: visualize_contact_entities %s visualize_bounding_boxes %s file_name vis.e" % (ve, vb)]
    parts = [m]
    if nr > 1:
        try: parts = meshgen.partition(rng, m, nr, mode=str(rng.choice(["random", "slab", "block"])))
        except ValueError: nr = 1; parts = [m]
    x = app.run(exe, d, parts, wd, nranks=nr, env=env); tag = "%d ranks" % nr
    if not app.ok(o, x, tag): return
    G = {int(g): i for i, g in enumerate(m.node_gid if m.node_gid is not None else np.arange(1, len(m.coords) + 1))}; nt = len(x.r.times); u = np.full((nt, len(m.coords), 3), np.nan)
    for r in x.res: u[:, [G[int(g)] for g in r.node_gid]] = app.field(r, "displacement")
    if not np.isfinite(u).all() or np.abs(u).max() > 50 * h: o.count("skipped unstable model"); return
    V = []
    for r in range(nr):
        f = os.path.join(wd, "run", app.part_name("vis.out.e", nr, r))
        try: V.append(exo.read(f))
        except Exception as e: o.violation("no file", "%s: visualization of rank %d unreadable: %s (%s)" % (tag, r, e, sorted(q for q in os.listdir(os.path.join(wd, "run")) if "vis" in q))); return
    where = {c.tobytes(): i for i, c in enumerate(m.coords + 0.0)}; gid = {i: g for g, i in G.items()}
    quads = c24.skin(m, prim); edges = {}
    for fi, f in enumerate(quads):
        for j in range(4): edges.setdefault((int(f[j]), int(f[(j + 1) % 4])), []).append((fi, j))
    want_nodes = set(int(i) for i in np.unique(np.array(c24.skin(m, sec)))); seen_t, seen_n, ids_n, ids_e = set(), set(), [], []; tol = 1e-12 * (np.abs(m.coords).max() + np.abs(u).max()); moved = 0
    for r, g in enumerate(V):
        w = "%s, file of rank %d" % (tag, r); o.evals += 1
        if [b["name"] for b in g.blocks] != ["contact_faces", "contact_nodes"] or [b["npe"] for b in g.blocks if len(b["conn"])] != [b for b, q in zip((3, 1), g.blocks) if len(q["conn"])]: o.violation("blocks", "%s: blocks %s" % (w, [(b["name"], b["npe"], len(b["conn"])) for b in g.blocks])); return
        if list(g.times) != list(x.r.times): o.violation("times", "%s: times %s, main output %s" % (w, list(g.times)[:6], list(x.r.times)[:6])); return
        T, N = g.blocks[0]["conn"].reshape(-1, 3), g.blocks[1]["conn"].reshape(-1)
        ids_n += list(g.node_gid); ids_e += list(g.elem_gid)
        if sorted(list(T.ravel()) + list(N)) != list(range(len(g.coords))): o.violation("nodes", "%s: the entities do not use every node once" % w); return
        corner = np.full((len(T), 4), -1)
        pos = np.zeros((nt, len(g.coords), 3)); x0 = g.coords + 0.0
        for e, t in enumerate(T):
            a, b = where.get(x0[t[0]].tobytes()), where.get(x0[t[1]].tobytes()); best = None
            for fi, j in edges.get((a, b), []):
                dd = np.abs(m.coords[quads[fi]].mean(0) - x0[t[2]]).max()
                if dd <= tol and (best is None or dd < best[0]): best = (dd, fi, j)
            if best is None: o.violation("triangle", "%s: triangle %s is no quarter of an outside face of the primary blocks" % (w, x0[t].tolist())); return
            if best[1:] in seen_t: o.violation("triangle twice", "%s: triangle %s shown twice" % (w, x0[t].tolist())); return
            seen_t.add(best[1:]); q = quads[best[1]]; corner[e] = q
            pos[:, t[0]] = m.coords[a] + u[:, a]; pos[:, t[1]] = m.coords[b] + u[:, b]; pos[:, t[2]] = (m.coords[q] + u[:, q]).mean(1)
        own = []
        for e, n in enumerate(N):
            a = where.get(x0[n].tobytes())
            if a not in want_nodes: o.violation("node", "%s: contact node at %s is not on the outside of the secondary blocks" % (w, x0[n].tolist())); return
            if a in seen_n: o.violation("node twice", "%s: contact node at %s shown twice" % (w, x0[n].tolist())); return
            seen_n.add(a); own.append(a); pos[:, n] = m.coords[a] + u[:, a]
            if len(T) + e < len(g.elem_gid) and (g.node_gid[n] != gid[a] + 1 or g.elem_gid[len(T) + e] != gid[a] + 1): o.violation("node id", "%s: contact node of mesh node %d has node id %d, element id %d" % (w, gid[a], g.node_gid[n], g.elem_gid[len(T) + e])); return
        if not len(g.coords): o.count("ranks without contact entities"); continue
        D = app.field(g, "displacement"); S = g.nodal["contact_status"]; err = np.abs(x0[None] + D - pos).max()
        o.maxi("deviation of a position / size", err / np.abs(m.coords).max())
        if not err <= 4 * tol: k_ = np.unravel_index(np.argmax(np.abs(x0[None] + D - pos)), D.shape); o.violation("position", "%s: state %d, node %d component %d is shown at %.15g, the main output has it at %.15g" % (w, k_[0], k_[1], k_[2], (x0[None] + D)[k_], pos[k_])); return
        moved = max(moved, np.abs(D).max()); nc = g.glob["num_contacts"]
        for t in range(nt):
            z = states(pos[t], T, list(N), np.array(own), corner, depth, h) if pen and t else (np.zeros(len(T), bool), np.zeros(len(N), bool))
            if z is None: o.count("states with a decision too close to call"); continue
            for what, got, wt in (("triangle", S[t][T], z[0][:, None]), ("node", S[t][N], z[1])):
                if np.size(got) and (got != wt).any(): o.violation("status", "%s: state %d: contact status of %ss is %d times 1, the geometry has %d" % (w, t, what, (got != 0).sum(), np.broadcast_to(wt, np.shape(got)).sum())); return
            if nc[t] != z[0].sum(): o.violation("number of contacts", "%s: state %d: num_contacts %g, %d triangles in contact" % (w, t, nc[t], z[0].sum())); return
            o.count("states compared"); o.count("triangles in contact", z[0].sum())
    if len(seen_t) != 4 * len(quads) or seen_n != want_nodes: o.violation("missing", "%s: %d of %d triangles, %d of %d contact nodes are shown" % (tag, len(seen_t), 4 * len(quads), len(seen_n), len(want_nodes))); return
    for what, l in (("node", ids_n), ("element", ids_e)):
        if len(set(l)) != len(l): o.violation("ids", "%s: %s ids of the visualization are not unique over the ranks" % (tag, what)); return
    o.count("triangles", len(seen_t)); o.count("contact nodes", len(seen_n)); o.count("parallel runs", nr > 1)
    if moved > 0: o.case((idx, nr, len(seen_t), nt))
    if idx < 2: o.sample({"ranks": nr, "triangles": len(seen_t), "nodes": len(seen_n), "states": nt, "penetration": pen})
