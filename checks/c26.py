"""C26: valid runs are free of memory errors and undefined behaviour."""
import os, re, glob, numpy as np, vbuild, app, meshgen, ref, models, common, exo, c24, c28
RULE = ("case = one valid run of the program built with AddressSanitizer, UndefinedBehaviorSanitizer, checked containers and bounds-checked Kokkos views, or under valgrind memcheck: explicit, quasi-static and contact decks on random "
        "meshes with odd sets, names, unused nodes and empty blocks, 1-4 ranks, with and without Tpetra; a report, a crash, a hang or a failing run is a violation; non-trivial = distinct run that ended and wrote its output")
ASSUMPTIONS = ["memory errors inside the MPI, Trilinos, Exodus and system libraries are not judged", "leaks at exit are not judged"]
def ncases(tier): return 120 if tier == "quick" else 2500
MIN_DISTINCT = 80; EMPTY = .25
def prepare(tier, seed): return {"exe": vbuild.app("hard"), "contact": vbuild.harness("c24app", "hard"), "vg": vbuild.app("vg"), "vgcontact": vbuild.harness("c24app", "vg")}
NOD = ["lumped_mass", "reference_coordinate", "displacement", "velocity", "acceleration", "internal_force", "external_force", "contact_force"]
ELE = ["stress", "deformation_gradient", "volume"] + ["ipt%02d_%s" % (i, f) for i in range(1, 9) for f in ("stress", "deformation_gradient")]

def fields(rng, qs=False):
    f = list(rng.permutation(NOD)[:rng.integers(0, 6)]) + list(rng.permutation(ELE)[:rng.integers(0, 7)])
    if qs: f = [x for x in f if x != "lumped_mass"]
    if qs and rng.random() < .5:
        f = [x for x in f if x not in ("stress", "internal_force")] + ["stress_" + str(c) for c in rng.permutation(app.SYM)[:3]] + ["internal_force_" + str(rng.choice(list("xyz")))]
    return " ".join(str(x) for x in rng.permutation(f)) if f else "displacement"

def odd(rng, m, par):
    """sets, names and nodes a mesh may have that the model does not need"""
    n = len(m.coords)
    for b in m.blocks:
        if rng.random() < .3: b["name"] = ["", "b%d" % b["id"], "x" * 31][rng.integers(3)] if not par else "b%d" % b["id"]
    if not par and rng.random() < .4:
        q = int(rng.integers(1, 4)); m.coords = np.concatenate([m.coords, m.coords[:q] + 100])
        if m.node_gid is not None: m.node_gid = np.concatenate([m.node_gid, 3000000 + np.arange(q)])
    if rng.random() < .3: m.node_sets.append(dict(id=2000000, name="", nodes=np.zeros(0, int)))
    if rng.random() < .3: m.node_sets.append(dict(id=2000001, name="all_of_them", nodes=np.arange(n), df=np.ones(n)))
    if not par and rng.random() < .3: m.side_sets = [dict(id=5, name="side", elems=np.array([1]), sides=np.array([3]), df=np.zeros(0)), dict(id=9, name="", elems=np.zeros(0, int), sides=np.zeros(0, int), df=np.zeros(0))]
    if rng.random() < .3: m.blocks.insert(int(rng.integers(len(m.blocks) + 1)), dict(id=2000002, name="nothing", conn=np.zeros((0, 8), int), type="HEX8"))

def vg_report(err):
    """memcheck reports that pass through NimbleSM's own code, outside the transport layer of MPI"""
    for blk in re.split(r"(?m)^==\d+== *$", err):
        t = re.sub(r"(?m)^==\d+== ?", "", blk)
        if not re.search(r"Invalid (read|write|free)|uninitialised|Mismatched free|overlap", t): continue
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*)", t)
        own = [f for f in fr if re.search(r"nimble|GTCP", f)]
        if not own: continue
        first = next((f for f in fr if not re.search(r"^(mem|str|operator|malloc|calloc|realloc|free|std::|__)", f)), "")
        if re.search(r"lib(mpi|open|pmix|psm|fabric|ucp)|mca_", first): continue
        key = re.sub(r"[\d,]+", "N", t.strip().split("\n")[0])[:60]
        return "memcheck:%s:%s" % (key, re.sub(r"\(.*", "", own[0])), t[:2500]
    return None

def large_ids(o, rng, idx, wd, sh):
    """contact on a mesh whose global ids are valid Exodus ids but too large for the ids the contact entities get (known finding)"""
    k = models.rand_case(rng, dims=(2, 1, 1), nsteps=2, nblocks=2, nsets=2, freq=1); m = k.mesh; d = models.deck(k, "displacement")
    m.node_gid = 80000000 + np.arange(len(m.coords)); m.elem_gid = 80000000 + np.arange(m.num_elem())
    d.extra.append("contact: primary_blocks block_%d secondary_blocks block_%d penalty_parameter 1e7" % (m.blocks[0]["id"], m.blocks[1]["id"]))
    d.extra.append("contact visualization: visualize_contact_entities on visualize_bounding_boxes on file_name vis.e")
    x = app.run(sh["exe"], d, [m], wd)
    if not x.san: app.ok(o, x, "(contact, large ids)")
    for l in sorted(set(re.findall(r"runtime error: ([a-z ]+[a-z])", x.err))): o.violation("large ids: " + l, "global ids from 80000000: " + x.san[1])
    if x.san and "runtime error" not in x.err: app.ok(o, x, "(contact, large ids)")

def case(o, rng, idx, tier, wd, sh):
    if idx == ncases(tier) - 1: return large_ids(o, rng, idx, wd, sh)
    kind = ["explicit", "explicit", "parallel", "contact", "penetration", "quasistatic", "parallel", "memcheck"][idx % 8]; mem = kind == "memcheck"
    if mem: kind = ["explicit", "penetration", "quasistatic", "parallel"][(idx // 8) % 4]
    nr = 1; args = []; env = {}; ex = []; exe = sh["vg" if mem else "exe"]; wrap = []
    if kind in ("explicit", "parallel"):
        nr = 1 if kind == "explicit" else int(rng.integers(2, 5)) if not mem else 2
        large = not mem and rng.random() < .06
        k = models.rand_case(rng, nblocks=1 if large else None, dims=rng.integers(10, 13, 3) if large else rng.integers(2, 4, 3) if nr > 1 else rng.integers(1, 4, 3), nsteps=int(rng.integers(1, 12)), nsets=int(rng.integers(1, 6)), amp=float(rng.choice([.1, .3])), holes=float(rng.choice([0, .3])), freq=int(rng.choice([0, 1, 2, 5])), twist=True)
        odd(rng, k.mesh, nr > 1); m = k.mesh
        k.mats = (k.mats * 3)[:len(m.blocks)]
        d = models.deck(k, fields(rng)); d.blocks = [("block_%d" % b["id"], "mat%d" % min(i, len(k.mats) - 1)) for i, b in enumerate(m.blocks)]
        if rng.random() < .2: d.freq = None
    elif kind == "contact":
        k = models.rand_case(rng, dims=rng.integers(1, 4, 3), nsteps=int(rng.integers(1, 6)), nblocks=int(rng.integers(2, 5)), nsets=2); m = k.mesh; nb = len(m.blocks); d = models.deck(k, fields(rng))
        if nb < 2: return
        c = rng.permutation(nb); q = int(rng.integers(1, nb)); ex.append("contact: primary_blocks %s secondary_blocks %s penalty_parameter 1e7" % (" ".join("block_%d" % m.blocks[i]["id"] for i in c[:q]), " ".join("block_%d" % m.blocks[i]["id"] for i in c[q:])))
        nr = int(rng.choice([1, 1, 2, 3]))
    elif kind == "penetration":
        m, A, B, ax, s, gap = c24.bodies(rng); mats = models.rand_mats(rng, m); dt = models.safe_dt(m, mats) * .5; md = ref.Model(m, mats); h = models.hmin(m); ns = int(rng.integers(4, 16)); pen = float(rng.uniform(.02, .2)) * md.m[md.m > 0].min() / dt ** 2
        v = .3 * h / (ns * dt) + gap / (ns * dt * .2); env["VERIF_DEPTH"] = "%.17g" % (.3 * h); exe = sh["vgcontact" if mem else "contact"]
        d = app.Deck(t0=0, t1=dt * ns, nsteps=ns, freq=int(rng.integers(1, 4)), fields=fields(rng), materials=[("mat%d" % i, mt.model, dict(density=mt.rho, bulk_modulus=mt.K, shear_modulus=mt.G)) for i, mt in enumerate(mats)], blocks=[("block_%d" % b["id"], "mat%d" % i) for i, b in enumerate(m.blocks)],
                     bcs=["initial_velocity first %s %.17g" % ("xyz"[ax], s * v / 2), "initial_velocity second %s %.17g" % ("xyz"[ax], -s * v / 2)])
        ex.append("contact: primary_blocks %s secondary_blocks %s penalty_parameter %.17g" % (" ".join("block_%d" % m.blocks[b]["id"] for b in A), " ".join("block_%d" % m.blocks[b]["id"] for b in B), pen)); nr = int(rng.choice([1, 1, 2, 3])) if not mem else 1
    else:
        k = c28.setup(rng, False); m = k.mesh; d = models.deck(k, fields(rng, True), scheme="quasistatic", extra=["nonlinear solver relative tolerance: 1e-4"])
        if rng.random() < .4:
            for b in m.blocks: b["name"] = ""
    if kind in ("contact", "penetration") and rng.random() < .7: ex.append("contact visualization: visualize_contact_entities on visualize_bounding_boxes %s file_name vis.e" % rng.choice(["on", "off"]))
    if rng.random() < .4: ex.append("write timing data file: on")
    if rng.random() < .2: ex.append("use two level mesh decomposition: off")
    d.extra += [str(e) for e in rng.permutation(ex)]
    if nr > 1:
        try: parts = meshgen.partition(rng, m, nr)
        except ValueError: return
        if rng.random() < (EMPTY if kind == "parallel" else 0):  # a rank without elements
            e = exo.Mesh(); e.blocks = [dict(b, conn=np.zeros((0, 8), int)) for b in m.blocks]; e.node_sets = [dict(q, nodes=np.zeros(0, int), df=np.zeros(0)) for q in m.node_sets]; e.node_gid = np.zeros(0, int); e.elem_gid = np.zeros(0, int)
            parts.insert(int(rng.integers(nr + 1)), e); nr += 1; o.count("runs with an empty rank")
        if rng.random() < .5: args.append("--use_tpetra")
    else:
        parts = [m]
        if rng.random() < .2 and kind != "quasistatic": args.append("--use_tpetra")
    if mem:
        x = app.run("valgrind", d, parts, wd, nranks=nr, args=["-q", "--error-limit=no", "--num-callers=30", "--log-file=vg.%p", exe] + args, env=env, timeout=150 if tier == "quick" else 400)
        if x.rc == 0 and any(r is not None for r in x.res):
            for p in glob.glob(os.path.join(x.dir, "vg.*")):
                r = vg_report(open(p, errors="replace").read()); o.count("memcheck logs")
                if r: o.violation(r[0], "memcheck report in a valid run (%s): %s" % (kind, r[1])); return
    else: x = app.run(exe, d, parts, wd, nranks=nr, args=args, env=env)
    if not app.ok(o, x, "(%s, %d ranks, %s)" % (kind, nr, " ".join(args))): return
    n = sum(r.nodal[q].size for r in x.res for q in r.nodal) + sum(v.size for r in x.res for e in r.elem.values() for v in e.values())
    o.case((idx, kind, nr)); o.count(kind + (" under memcheck" if mem else " runs")); o.count("values written", n); o.count("runs on several ranks", nr > 1)
    if idx < 8: o.sample({"kind": kind, "memcheck": mem, "ranks": nr, "args": args, "fields": d.fields, "extra": d.extra})
