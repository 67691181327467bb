"""C31: a run reads the files its deck names, writes the files named after it, and touches nothing else."""
import os, re, hashlib, shutil, numpy as np, vbuild, app, meshgen, ref, models, common, exo, c24, c27
RULE = ("case = one deck run under plain names, then under random file and directory names (dots, spaces, names containing .g and .e, absolute and relative, 1-12 ranks, contact visualization), among decoy meshes and bystander files; files read, "
        "written, created, changed and the contents of the databases compared; or a name that cannot be opened, which must end the run with a failure; non-trivial = distinct set of names and ranks")
ASSUMPTIONS = ["file names end in .g (mesh) and .e (output) or carry no extension; no '#', quotes, brackets, or leading and trailing white space", "contact visualization names hold no white space"]
def ncases(tier): return 160 if tier == "quick" else 2000
MIN_DISTINCT = 80
def prepare(tier, seed): return {"exe": vbuild.app("plain"), "c": vbuild.harness("c24app", "plain")}
A = "abcdefghijklmnopqrstuvwxyzABCDEG0123456789-_+=,@"
def word(rng, sp, dots=True):
    s = "".join(rng.choice(list(A)) for _ in range(int(rng.integers(1, 9)))) if rng.random() < .5 else str(rng.choice(["mesh", "run", "out", "g", "e", "none", "results", "cube", "1", "00", "exodus", "genesis"]))
    for _ in range(int(rng.integers(0, 4)) if dots else 0):
        s += str(rng.choice([".", ".e", ".g", ".exo", ".gen", ".out", ".v2", ".e.4.0", ".g.2.1", ".experiment", "-e", "_g", "..", " " if sp else "."])) + str(rng.choice(["", "x", "1", "g", "e", "out"]))
    if rng.random() < .1: s = "." + s
    s = s.strip().rstrip(".")
    return s if s else "w"
def stem(rng, sp):
    s = word(rng, sp)
    while s == "none": s = word(rng, sp)
    return s
def where(rng, sp): return [word(rng, sp) for _ in range(int(rng.choice([0, 0, 1, 1, 2, 3])))]
def sums(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f); out[os.path.relpath(p, root)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out

def case(o, rng, idx, tier, wd, sh):
    contact = idx % 5 == 4; many = idx % 12 == 7 and not contact; nr = int(rng.integers(10, 13)) if many else int(rng.choice([1, 1, 2, 3])); sp = rng.random() < .5
    if contact:
        m, P, S, ax, s, gap = c24.bodies(rng); mats = models.rand_mats(rng, m); dt = models.safe_dt(m, mats) * .5; d = app.Deck(t0=0, t1=dt * 3, nsteps=3, freq=1, fields="displacement contact_force", materials=[("mat%d" % i, mt.model, dict(density=mt.rho, bulk_modulus=mt.K, shear_modulus=mt.G)) for i, mt in enumerate(mats)],
                     blocks=[("block_%d" % b["id"], "mat%d" % i) for i, b in enumerate(m.blocks)], bcs=["initial_velocity first %s 1.5" % "xyz"[ax]])
        d.extra.append("contact: primary_blocks %s secondary_blocks %s penalty_parameter 1e3" % (" ".join("block_%d" % m.blocks[b]["id"] for b in P), " ".join("block_%d" % m.blocks[b]["id"] for b in S)))
    else:
        k = models.rand_case(rng, dims=(3, 2, 2) if many else rng.integers(1, 4, 3), nsteps=3, nsets=2, freq=int(rng.integers(1, 3)), nblocks=2 if many else None); m = k.mesh; d = models.deck(k, "displacement velocity stress")
    if nr > 1:
        try: parts = meshgen.partition(rng, m, nr)
        except ValueError: return
    else: parts = [m]
    args = ["--use_tpetra"] if nr > 1 and rng.random() < .3 else []; exe = sh["c" if contact else "exe"]; x0 = d.extra[:]
    vis = "contact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name "
    if contact: d.extra = x0 + [vis + "vis.e"]
    a = app.run(exe, d, parts, wd, tag="base", nranks=nr, args=args, env={"VERIF_DEPTH": "1e-3"})
    if not app.ok(o, a, "plain names, %d ranks" % nr): return
    # the places
    root = os.path.join(wd, "t"); cwd = os.path.join(root, *where(rng, sp)); os.makedirs(cwd, exist_ok=True); taken = set()
    def place(what, ext, sp):
        while True:
            mode = rng.integers(4); dirs = where(rng, sp); st = stem(rng, sp); e = ext if rng.random() < .8 or what == "mesh" or "." in st else ""
            if mode < 2: dr = os.path.join(*([""] + dirs))[0:] if 0 else (os.path.join(*dirs) if dirs else ""); full = os.path.join(cwd, dr)
            elif mode == 2 and cwd != root: dr = os.path.join("..", *dirs); full = os.path.normpath(os.path.join(cwd, dr))
            else: full = os.path.join(root, *dirs); dr = full
            if mode == 1: dr = os.path.join(".", dr)
            pr = os.path.join(dr, st) + e; base = os.path.join(full, st)
            if (" " in wd or " " in pr) and not sp: continue
            key = base
            if any(key == t or key.startswith(t + "/") or t.startswith(key + "/") for t in taken): continue
            try: os.makedirs(full, exist_ok=True)
            except (FileExistsError, NotADirectoryError): continue
            if os.path.exists(base): continue
            taken.add(key); return pr, base, st + e
    def part(b, r): return b if nr == 1 else "%s.%d.%0*d" % (b, nr, len(str(nr)), r)
    bad = str(rng.choice(["", "", "", "", "", "mesh", "output", "rank"])) if not contact else ""
    mesh, mb, mn = place("mesh", ".g", sp)
    out, ob, on = place("output", ".e", sp); v = place("vis", ".e", False) if contact else None
    if v and (" " in v[0]): return
    reads = [part(mb + ".g", r) for r in range(nr)]; writes = {part(ob + ".out.e", r): part("m.out.e", r) for r in range(nr)}
    if v: writes.update({part(v[1] + ".out.e", r): part("vis.out.e", r) for r in range(nr)})
    if len(set(reads) | set(writes)) < len(reads) + len(writes) or any(os.path.isdir(p) for p in list(reads) + list(writes)): return
    for r, q in enumerate(parts): exo.write(reads[r], q)
    # decoys: a mesh of another shape, and bystanders, under names a run must not use
    def decoys():
        for b, e in ((mb, ".g"), (ob, ".e")) + (((v[1], ".e"),) if v else ()):
            pth, s = os.path.split(b); c = set()
            for n in {s, re.sub(r"\.[eg].*", "", s), s.split(".")[0], s.split(" ")[0], re.split(r"\.[eg]", s)[0]}:
                if n.strip(): c |= {os.path.join(pth, n + x) for x in ("", ".g", ".e", ".out.e", ".out", ".exo", ".log")} | {os.path.join(pth, n + y % (nr, r)) for r in range(min(nr, 3)) for y in (".g.%d.%d", ".out.e.%d.%d", ".e.%d.%d")} | {os.path.join(pth, n + ".g.%d.%d" % (nr + 1, 0))}
            whole = os.path.join(pth, s)
            for q in (".g", ".e"):
                z = whole.find(q)
                if z > len(root): c |= {whole[:z] + ".g", whole[:z] + ".e", whole[:z] + ".out.e"}
            for q in sorted(c):
                if q in reads or q in writes or os.path.exists(q) or rng.random() < .3 or not os.path.isdir(os.path.dirname(q)): continue
                if re.search(r"\.g(\.\d+\.\d+)?$", q):
                    z = parts[0].copy(); z.coords = z.coords * 1.5; exo.write(q, z)
                else: open(q, "wb").write(b"left here by somebody else\n")
    try: decoys()
    except (IOError, OSError): pass
    if rng.random() < .4:
        for w in writes: open(w, "wb").write(b"old")
    d.mesh, d.out, d.extra = mesh, out, x0 + ([vis + v[0]] if v else [])
    inp = os.path.join(cwd, word(rng, sp) + str(rng.choice(["", ".in", ".g", ".e"])))
    while os.path.exists(inp) or inp in writes or inp in reads: inp += "x"
    open(inp, "w").write(str(d))
    gone = None
    if bad == "mesh": gone = reads[0]
    elif bad == "rank" and nr > 1: gone = reads[int(rng.integers(1, nr))]
    elif bad == "output":
        for p in [p for p in writes if os.path.exists(p)]: os.unlink(p)
        gone = list(writes)[0]; os.makedirs(gone)
    if gone and bad != "output": os.unlink(gone)
    timing = idx % 3 == 1;
    if timing: d.extra = d.extra + ["write timing data file: " + ["on", "true", "yes", "On", "TRUE", "Yes"][idx // 3 % 6]]; open(inp, "w").write(str(d))
    elif idx % 3 == 2: d.extra = d.extra + ["write timing data file: " + ["off", "no", "False"][idx // 3 % 3]]; open(inp, "w").write(str(d))
    before = sums(root)
    cmd = [exe] + args + [os.path.relpath(inp, cwd) if rng.random() < .7 else inp]
    if nr > 1: cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(nr)] + cmd
    if cmd[-1].startswith("-"): cmd[-1] = "./" + cmd[-1]
    e = dict(common.ENV, TMPDIR="/tmp", VERIF_DEPTH="1e-3"); rc, so, se, to = common.sh_twice(cmd, cwd, 80, e)
    after = sums(root); names = "mesh '%s', output '%s'%s, %d ranks, run in '%s'" % (mesh, out, ", visualization '%s'" % v[0] if v else "", nr, os.path.relpath(cwd, root)); names = names.replace(wd, "")
    if gone:
        if rc == 0 or to: o.violation("failure not reported", "%s of %s could not be opened, the run %s" % (bad, names, "did not end" if to else "ended with status 0")); return
        chg = [f for f in before if after.get(f) != before[f] and os.path.join(root, f) not in writes]
        if chg: o.violation("bystander", "%s: changed or removed %s" % (names, chg[:4])); return
        o.case((idx, bad, names)); o.count("names that cannot be opened"); return
    if rc or to: o.violation("run:failed", "rc=%s (%s): %s\n%s" % (rc, names, so[-500:], se[-900:])); return
    wr = {os.path.relpath(w, root): b for w, b in writes.items()}
    if timing:
        tf = [f for f in after if f not in before and f not in wr and os.path.dirname(os.path.join(root, f)) == cwd and re.fullmatch(r"nimble_timing_data_n%d_.*\.log" % nr, os.path.basename(f))]
        if len(tf) != 1: o.violation("timing file", "%s: the deck asks for timing data, the run wrote %s" % (names, tf or "none; new files: %s" % [f for f in after if f not in before and f not in wr][:4])); return
        txt = open(os.path.join(root, tf[0])).read(); del after[tf[0]]
        said = [str(nr)] + [(re.search(q + r"\s*(\S+)", so) or [0, "0"])[1] for q in ("Total step time =", "--- Force:", "--- Contact time:", "--- Exodus Write =", "--- Vector Reduction =")]
        if txt.split() != said or txt.count("\n") != 1 or not txt.endswith("\n"): o.violation("timing data", "%s: the timing data file holds %r, the run reports %s" % (names, txt, said)); return
        o.count("timing data files")
    chg = [f for f in before if f not in wr and after.get(f) != before[f]]; new = [f for f in after if f not in before and f not in wr]; mis = [f for f in wr if f not in after]
    if mis: o.violation("output missing", "%s: no %s; created %s, changed %s" % (names, mis[:3], new[:3], chg[:3])); return
    if chg: o.violation("bystander", "%s: changed or removed %s" % (names, chg[:4])); return
    if new: o.violation("other files", "%s: created %s" % (names, new[:4])); return
    for w, b in writes.items():
        p, q = c27.db(w), c27.db(os.path.join(a.dir, b)); df = [x for x in set(p) | set(q) if p.get(x) != q.get(x)]
        if df: o.violation("contents", "%s: %s differs in %s from the run under plain names" % (names, os.path.relpath(w, root), df[:4])); return
        o.count("databases compared")
    o.case((idx, names)); o.count("runs under other names"); o.count("runs on 10 ranks and more", nr > 9); o.count("visualizations", bool(v)); o.count("bystander files watched", len(before))
    if idx < 6: o.sample({"names": names, "bystanders": len(before)})
