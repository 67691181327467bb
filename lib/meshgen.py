"""Random hexahedral meshes, node sets, decompositions."""
import numpy as np
from exo import Mesh

def grid_nodes(nx, ny, nz):
    i, j, k = np.meshgrid(np.arange(nx + 1), np.arange(ny + 1), np.arange(nz + 1), indexing="ij")
    return np.stack([i.ravel(), j.ravel(), k.ravel()], 1).astype(float)

def grid_conn(nx, ny, nz):
    def nid(i, j, k): return (i * (ny + 1) + j) * (nz + 1) + k
    c = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                c.append([nid(i, j, k), nid(i + 1, j, k), nid(i + 1, j + 1, k), nid(i, j + 1, k),
                          nid(i, j, k + 1), nid(i + 1, j, k + 1), nid(i + 1, j + 1, k + 1), nid(i, j + 1, k + 1)])
    return np.array(c, int)

# the 24 orientation-preserving renumberings of a hexahedron's nodes
def _rots():
    P = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]])
    import itertools
    out = []
    for perm in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            R = np.zeros((3, 3), int)
            for a in range(3): R[a, perm[a]] = s[a]
            if round(np.linalg.det(R)) != 1: continue
            Q = P @ R.T
            out.append([int(np.where((P == q).all(1))[0][0]) for q in Q])
    return np.array(out)
ROT24 = _rots()
MIRROR = np.array([1, 0, 3, 2, 5, 4, 7, 6])

def some_ids(rng, n, top, wide=0.15):
    """n different ids up to top; now and then up to a million"""
    if rng.random() < wide: return rng.permutation(np.unique(1 + (10.0 ** rng.uniform(2, 6, 3 * n + 20)).astype(int)))[:n]
    return rng.permutation(np.arange(1, top + 1))[:n]

def hexa(rng, dims=None, nblocks=None, distort=None, shuffle=True, scale=None, origin=None, sparse_ids=True, holes=0.0, gids=True,
         rot_conn=True, twist=False, contiguous_blocks=False, shear=0.0):
    """random mesh: a distorted grid with elements assigned to blocks (some dropped), arbitrary numbering; distort not given: now and then a regular grid"""
    if distort is None:
        distort = 0.25
        if rng.random() < 0.2: distort, rot_conn = 0.0, rng.random() < .3; shuffle = shuffle and rng.random() < .5
    if dims is None:
        dims = rng.integers(1, 4, 3)
        if rng.random() < 0.04:  # now and then a larger mesh or a long bar
            dims = rng.integers(4, 6, 3) if rng.random() < .5 else rng.permutation([int(rng.integers(30, 90)), int(rng.integers(1, 3)), 1])
        elif rng.random() < 0.01: dims = rng.integers(9, 13, 3)  # more elements than any sensible batch size
    nx, ny, nz = [int(d) for d in dims]
    X = grid_nodes(nx, ny, nz); C = grid_conn(nx, ny, nz)
    X = X + distort * (rng.random(X.shape) - 0.5)
    if scale is None: scale = 10.0 ** (rng.uniform(-1, 1) if rng.random() < .88 else rng.uniform(-7, 4))
    h = scale * (0.6 + 0.8 * rng.random(3)) / max(dims)
    A = np.diag(h)
    if twist:  # random shear of the whole body (keeps orientation)
        A = (np.eye(3) + (0.3 if twist is True else float(twist)) * (rng.random((3, 3)) - 0.5)) @ A
    if shear:  # simple shear along the thinnest direction
        b = int(np.argmin(h)); a = (b + int(rng.integers(1, 3))) % 3
        A = np.diag(h); A[a, b] += shear * h[b]
    X = X @ A.T
    if origin is None: origin = scale * rng.uniform(-3, 3, 3)
    X = X + np.asarray(origin)
    ne = len(C)
    keep = np.ones(ne, bool)
    if holes > 0 and ne > 2:
        keep = rng.random(ne) > holes
        if not keep.any(): keep[0] = True
    if nblocks is None: nblocks = int(rng.integers(1, min(4 if rng.random() < .92 else 14, keep.sum()) + 1))
    nblocks = max(1, min(nblocks, int(keep.sum())))
    C = C[keep]; ne = len(C)
    if contiguous_blocks: lab = (np.arange(ne) * nblocks) // ne
    else:
        lab = rng.integers(0, nblocks, ne); lab[:nblocks] = np.arange(nblocks); rng.shuffle(lab)
    if rot_conn: C = np.array([c[ROT24[rng.integers(24)]] for c in C])
    m = Mesh()
    used = np.unique(C); newid = -np.ones(len(X), int)
    order = rng.permutation(len(used)) if shuffle else np.arange(len(used))
    newid[used[order]] = np.arange(len(used))
    inv = used[order]
    m.coords = X[inv]; C = newid[C]
    ids = some_ids(rng, nblocks, 60) if sparse_ids else np.arange(1, nblocks + 1)
    for b in range(nblocks):
        e = np.where(lab == b)[0]
        if shuffle: e = rng.permutation(e)
        m.blocks.append(dict(id=int(ids[b]), name="block_%d" % ids[b], conn=C[e], type="HEX8"))
    n = len(m.coords)
    if gids:
        m.node_gid = some_ids(rng, n, 3 * n) if sparse_ids else np.arange(1, n + 1)
        m.elem_gid = some_ids(rng, ne, 3 * ne) if sparse_ids else np.arange(1, ne + 1)
    return m

def add_sets(rng, m, k, df=None, minsize=1, names=True, maxfrac=0.6):
    n = len(m.coords)
    ids = some_ids(rng, k, 90)
    style = int(rng.integers(1, 4)) if k > 1 and rng.random() < 0.25 else 0   # names easily taken for one another
    for i in range(k):
        sz = int(rng.integers(minsize, max(minsize + 1, int(n * maxfrac) + 1)))
        nd = rng.choice(n, min(sz, n), replace=False)
        if rng.random() < 0.25: nd = nd[np.lexsort(m.coords[nd][:, rng.permutation(3)].T)]  # in the order of the positions
        s = dict(id=int(ids[i]), nodes=nd, name=("ns_%s%d" % ("abcdefgh"[i % 8], ids[i]) + ("_of_nodes_with_a_name_written_out_at_length" if ids[i] % 6 == 1 else "")) if names and rng.random() < 0.7 else "")
        if style and s["name"]: s["name"] = ("set_of_nodes_of_the_upper_assembly_%d" % i, "n" + "x" * i, "".join(c.upper() if i >> j & 1 else c for j, c in enumerate("clamped")))[style - 1]
        has = rng.random() < 0.6 if df is None else df
        if has: s["df"] = rng.random(len(nd))
        m.node_sets.append(s)
    return m

def set_ref(rng, s):
    """a way the deck may refer to node set s"""
    return s["name"] if s["name"] else "nodelist_%d" % s["id"]

def elem_blocks(m):
    """(conn (ne,8), block index (ne,)) in file order"""
    C = np.concatenate([b["conn"] for b in m.blocks if len(b["conn"])]); B = np.concatenate([[i] * len(b["conn"]) for i, b in enumerate(m.blocks)]).astype(int)
    return C, B

def partition(rng, m, nranks, mode=None):
    """splits m into per-rank meshes (element decomposition); every rank file carries the ids and names of all blocks and sets"""
    ne = m.num_elem(); C, B = elem_blocks(m)
    if mode is None: mode = rng.choice(["random", "slab", "block", "single"])
    if mode == "random": owner = rng.integers(0, nranks, ne)
    elif mode == "block": owner = B % nranks
    elif mode == "single":   # most elements on one rank, one on each other
        owner = np.full(ne, rng.integers(nranks)); 
    else:
        cen = m.coords[C].mean(1)[:, rng.integers(3)]; owner = (np.argsort(np.argsort(cen)) * nranks) // ne
    # every rank has at least one element
    for r in range(nranks):
        if not (owner == r).any():
            cand = [e for e in range(ne) if (owner == owner[e]).sum() > 1]
            if not cand: raise ValueError("too few elements")
            owner[rng.choice(cand)] = r
    parts = []
    egid = m.elem_gid if m.elem_gid is not None else np.arange(1, ne + 1)
    ngid = m.node_gid if m.node_gid is not None else np.arange(1, len(m.coords) + 1)
    off = np.cumsum([0] + [len(b["conn"]) for b in m.blocks])
    for r in range(nranks):
        p = Mesh(); p.title = m.title
        mine = np.where(owner == r)[0]
        nodes = np.unique(C[mine])
        if rng.random() < 0.7: nodes = rng.permutation(nodes)
        loc = -np.ones(len(m.coords), int); loc[nodes] = np.arange(len(nodes))
        p.coords = m.coords[nodes]; p.node_gid = np.asarray(ngid)[nodes]
        eg = []
        for ib, b in enumerate(m.blocks):
            e = [k for k in mine if off[ib] <= k < off[ib + 1]]
            p.blocks.append(dict(id=b["id"], name=b["name"], type="HEX8", conn=loc[C[e]] if e else np.zeros((0, 8), int)))
            eg += [egid[k] for k in e]
        p.elem_gid = np.array(eg, int)
        for s in m.node_sets:
            has = s.get("df") is not None and len(s["df"]) > 0
            sel = [k for k, nd in enumerate(s["nodes"]) if loc[nd] >= 0]
            q = dict(id=s["id"], name=s["name"], nodes=loc[np.asarray(s["nodes"])[sel]] if sel else np.zeros(0, int))
            if has: q["df"] = np.asarray(s["df"])[sel]
            p.node_sets.append(q)
        p.local_elems = mine; p.local_nodes = nodes
        parts.append(p)
    return parts
