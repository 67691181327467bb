"""C27: repeated runs give bit-identical results, whatever memory, message timings and files left behind."""
import os, re, glob, numpy as np, vbuild, app, meshgen, ref, models, exo, c24, c26, c28
RULE = ("case = one deck, mesh and rank count run once as baseline and then again under disturbance: heap filled with random bytes, stack variables started as bit patterns, larger environment and other paths, random delays around MPI calls "
        "with other message protocols, in a directory with output files of other runs or garbage under the names to be written, and twice in one directory; every output database and printed time step compared bit for bit; "
        "non-trivial = distinct deck with a loaded state of which every repetition was compared")
ASSUMPTIONS = ["the MPI library sums in an order that depends on the ranks and the message size only"]
def ncases(tier): return 64 if tier == "quick" else 1200
MIN_DISTINCT = 40
def prepare(tier, seed): return {"plain": vbuild.app("plain"), "pattern": vbuild.app("pattern"), "c": vbuild.harness("c24app", "plain"), "cp": vbuild.harness("c24app", "pattern"), "delay": vbuild.preload("delay")}

def printed(t): return re.findall(r"(?m)^.*(?:time step:|residual =|nonzeros|, time |Number of N|Number of E|Number of G|contact entries).*$", t)

def db(p):
    try: r = exo.read(p)
    except IOError as e: return {"unreadable": os.path.basename(str(e)).encode()}
    q = {"coordinates": r.coords.tobytes(), "node ids": r.node_gid.tobytes(), "element ids": r.elem_gid.tobytes(), "times": r.times.tobytes(), "names": repr((r.nodal_names, r.elem_names, r.glob_names)).encode(),
         "blocks": repr([(b["id"], b["name"], b["type"]) for b in r.blocks]).encode(), "sets": repr([(s["id"], s["name"]) for s in r.node_sets]).encode()}
    for b in r.blocks: q["connectivity %d" % b["id"]] = b["conn"].tobytes()
    for s in r.node_sets: q["node set %d" % s["id"]] = s["nodes"].tobytes() + s["df"].tobytes()
    for k, v in r.nodal.items(): q[k] = v.tobytes()
    for b, d in r.elem.items():
        for k, v in d.items(): q["%s of block %d" % (k, b)] = v.tobytes()
    return q

def content(x):
    """everything an output database holds, by name of the file"""
    out = {}
    for p in sorted(glob.glob(os.path.join(x.dir, "*.e*"))):
        f = os.path.basename(p)
        out[f] = db(p)
    return out

def make(rng, idx):
    kind = ["explicit", "parallel", "contact", "quasistatic", "explicit", "parallel", "parallel", "contact"][idx % 8]; env = {}; nr = 1
    if kind == "contact":
        m, A, B, ax, s, gap = c24.bodies(rng); mats = models.rand_mats(rng, m); dt = models.safe_dt(m, mats) * .5; md = ref.Model(m, mats); h = models.hmin(m); ns = int(rng.integers(8, 30)); pen = float(rng.uniform(.02, .2)) * md.m[md.m > 0].min() / dt ** 2
        v = .3 * h / (ns * dt) + gap / (ns * dt * .2); env["VERIF_DEPTH"] = "%.17g" % (.3 * h)
        d = app.Deck(t0=0, t1=dt * ns, nsteps=ns, freq=int(rng.integers(1, 4)), fields="displacement contact_force " + c26.fields(rng).replace("displacement", "").replace("contact_force", ""), materials=[("mat%d" % i, mt.model, dict(density=mt.rho, bulk_modulus=mt.K, shear_modulus=mt.G)) for i, mt in enumerate(mats)],
                     blocks=[("block_%d" % b["id"], "mat%d" % i) for i, b in enumerate(m.blocks)], bcs=["initial_velocity first %s %.17g" % ("xyz"[ax], s * v / 2), "initial_velocity second %s %.17g" % ("xyz"[ax], -s * v / 2)])
        d.extra.append("contact: primary_blocks %s secondary_blocks %s penalty_parameter %.17g" % (" ".join("block_%d" % m.blocks[b]["id"] for b in A), " ".join("block_%d" % m.blocks[b]["id"] for b in B), pen))
        if rng.random() < .6: d.extra.append("contact visualization: visualize_contact_entities on visualize_bounding_boxes %s file_name vis.e" % rng.choice(["on", "off"]))
        nr = int(rng.choice([1, 2, 3]))
    elif kind == "quasistatic":
        k = c28.setup(rng, False); m = k.mesh; d = models.deck(k, c26.fields(rng, True), scheme="quasistatic", extra=["nonlinear solver relative tolerance: 1e-4"])
    else:
        if kind == "parallel": nr = int(rng.integers(2, 5))
        k = models.rand_case(rng, dims=rng.integers(2, 5, 3) if nr > 1 else rng.integers(1, 4, 3), nsteps=int(rng.integers(2, 25)), nsets=int(rng.integers(1, 5)), amp=float(rng.choice([.1, .3])), holes=float(rng.choice([0, .3])), freq=int(rng.choice([1, 2, 3])), twist=True)
        c26.odd(rng, k.mesh, nr > 1); m = k.mesh; k.mats = (k.mats * 3)[:len(m.blocks)]
        d = models.deck(k, "displacement velocity internal_force " + " ".join(w for w in c26.fields(rng).split() if w not in ("displacement", "velocity", "internal_force"))); d.blocks = [("block_%d" % b["id"], "mat%d" % min(i, len(k.mats) - 1)) for i, b in enumerate(m.blocks)]
    if nr > 1:
        try: parts = meshgen.partition(rng, m, nr)
        except ValueError: return None
    else: parts = [m]
    if rng.random() < .3: d.extra.append("write timing data file: on")
    return kind, m, parts, d, nr, env

def litter(rng, wd, tag, names, x0, x1):
    """leaves files under the names a run is about to write; x1 = finished run of another deck"""
    p = os.path.join(wd, tag); os.makedirs(p, exist_ok=True); how = []
    other = sorted(glob.glob(os.path.join(x1.dir, "*.e*"))) if x1 else []
    for f in names:
        c = rng.integers(4)
        if c == 0: b = rng.integers(0, 256, int(rng.integers(0, 60000)), dtype=np.uint8).tobytes(); how.append("random bytes")
        elif c == 1 and other: b = open(other[rng.integers(len(other))], "rb").read(); how.append("output of another run")
        elif c == 2: b = open(os.path.join(x0.dir, f), "rb").read(); b = b[:int(len(b) * rng.random())]; how.append("truncated output")
        else: b = open(os.path.join(x0.dir, f), "rb").read() + b"\1" * 5000; how.append("longer output")
        open(os.path.join(p, f), "wb").write(b)
    return how

def case(o, rng, idx, tier, wd, sh):
    q = make(rng, idx)
    if q is None: return
    kind, m, parts, d, nr, env = q; con = kind == "contact"; exe = sh["c" if con else "plain"]; args = ["--use_tpetra"] if nr > 1 and rng.random() < .4 else []
    def go(tag, e=exe, env2=None, **kw):
        x = app.run(e, d, kw.pop("meshes", parts), wd, tag=tag, nranks=nr, args=args, env=dict(env, **(env2 or {})), **kw); return x
    a = go("a")
    if not app.ok(o, a, "(%s, %d ranks)" % (kind, nr)): return
    A = content(a); pa = printed(a.out)
    names = [f for f in A if f != "m.e"]
    if not names: o.violation("no output", "no output files in %s" % os.listdir(a.dir)); return
    u = np.concatenate([app.field(r, "displacement").ravel() for r in a.res]) if "displacement_x" in a.r.nodal else np.concatenate([v.ravel() for r in a.res for v in r.nodal.values()] + [np.zeros(1)])
    def same(x, what):
        if not app.ok(o, x, "(%s, %d ranks, %s)" % (kind, nr, what)): return False
        B = content(x); pb = printed(x.out)
        if set(A) - set(B): o.violation("files", "%s: files %s, first run %s" % (what, sorted(B), sorted(A))); return False
        for f in A:
            if set(A[f]) != set(B[f]): o.violation("content", "%s: %s holds %s, first run %s" % (what, f, sorted(B[f]), sorted(A[f]))); return False
            for k in A[f]:
                if A[f][k] != B[f][k]:
                    s, t = np.frombuffer(A[f][k], np.uint8), np.frombuffer(B[f][k], np.uint8); det = ""
                    if len(s) == len(t) and len(s) % 8 == 0 and k not in ("names", "blocks", "sets"): s, t = s.view(float), t.view(float); w = np.where(s.view(np.int64) != t.view(np.int64))[0]; det = "%d of %d values, first %r then %r" % (len(w), len(s), s[w[0]], t[w[0]])
                    o.violation("differs:" + what.split(" ")[0], "%s: %s of %s differs between runs of the same deck (%s, %d ranks %s): %s" % (what, k, f, kind, nr, args, det)); return False
                o.count("bytes compared", len(A[f][k]))
        if pa != pb: o.violation("printed", "%s: printed %s, first run %s" % (what, [v for v in pb if v not in pa][:3], [v for v in pa if v not in pb][:3])); return False
        o.count("repetitions: " + what.split(":")[0]); return True
    ev = lambda: {"MALLOC_PERTURB_": str(int(rng.integers(1, 256))), "MALLOC_MMAP_THRESHOLD_": str(int(rng.choice([0, 4096, 1 << 25])))}
    if not same(go("b" + "x" * int(rng.integers(1, 120)), env2=dict(ev(), PAD="p" * int(rng.integers(1, 60000)))), "heap filled with other bytes"): return
    if not same(go("c", e=sh["cp" if con else "pattern"], env2=ev()), "stack variables started as patterns"): return
    if nr > 1:
        mc = {"OMPI_MCA_btl": str(rng.choice(["self,vader", "self,tcp"])), "OMPI_MCA_btl_tcp_if_include": "lo", "OMPI_MCA_btl_vader_eager_limit": str(rng.choice([256, 4096, 65536])), "OMPI_MCA_btl_tcp_eager_limit": str(rng.choice([512, 65536])), "OMPI_MCA_btl_tcp_rndv_eager_limit": str(rng.choice([512, 65536]))}
        dl = dict(LD_PRELOAD=sh["delay"], VERIF_DELAY=str(int(rng.integers(1, 1 << 30)))); xd = go("d", env2=dict(mc, **dl))
        if xd.rc and "tcp" in mc["OMPI_MCA_btl"] and "error occurred in MPI_Init" in xd.out:      # no loopback network here: shared memory then
            mc["OMPI_MCA_btl"] = "self,vader"; o.count("no loopback network"); xd = go("d", env2=dict(mc, **dl))
        if not same(xd, "delayed messages: %s" % mc["OMPI_MCA_btl"]): return
    # another deck in the same place first
    x1 = None
    if rng.random() < .5:
        keep = d.fields, d.t1, d.nsteps, d.freq
        d.fields = "displacement"; d.nsteps = int(rng.integers(1, 40)) if kind != "quasistatic" else d.nsteps; d.t1 = d.t0 + (keep[1] - d.t0) * d.nsteps / keep[2]; d.freq = int(rng.integers(1, 3))
        x1 = go("e"); d.fields, d.t1, d.nsteps, d.freq = keep
        if not app.ok(o, x1, "(other output, %s)" % kind): return
        if not same(go("e"), "after another run in the directory"): return
    how = litter(rng, wd, "f", names, a, x1)
    if not same(go("f"), "files left: " + ",".join(sorted(set(how)))): return
    if not same(go("a"), "again in the same directory"): return
    if np.isfinite(u).all() and np.abs(u).max() > 0: o.case((idx, kind, nr)); o.count(kind + " decks"); o.count("output files per run", len(names))
    if idx < 4: o.sample({"kind": kind, "ranks": nr, "args": args, "files": names, "left behind": how, "fields": d.fields})
