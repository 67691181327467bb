"""C12: erroneous command lines, decks and meshes end in a diagnosed failure."""
import os, re, numpy as np, vbuild, models, app, ref, meshgen, exo, common
RULE = ("case = valid model and deck with one fault of a catalogue of 72 kinds (command line, deck syntax, values, materials, blocks, boundary conditions, contact, "
        "mesh file), or random edits of a valid deck, on 1 or 2 ranks, under ASan+UBSan; non-trivial = distinct (fault, text) that reached the program; "
        "every 10th case is the valid twin, which must succeed")
ASSUMPTIONS = ["a diagnosed failure is a nonzero exit status with a message, including the program's own NIMBLE_ASSERT/NIMBLE_ABORT and an uncaught exception's what() text"]
def ncases(tier): return 620 if tier == "quick" else 5000
MIN_DISTINCT = 200
def prepare(tier, seed): return {"exe": vbuild.app("san")}

class F: pass
FAULTS = {}
def fault(f): FAULTS[f.__name__] = f; return f
def sub(c, pre, new):
    for i, l in enumerate(c.lines):
        if l.startswith(pre): c.lines[i] = new if new is not None else ""; break
    else:
        if new is not None: c.lines.append(new)
def linesof(c, pre): return [i for i, l in enumerate(c.lines) if l.startswith(pre)]
NUM = ["initial time", "final time", "number of load steps", "output frequency"]
BADNUM = ["abc", "ten", "1.5x", "x1", "--3", "1,5", "e5", "nan?", "3 4", "1e", "#"]
BADEXPR = ["", " ", "1 +", "x **y", "foo(x)", "(x", "x)", "2 x", "x ? 1", "x > 1", "sin()", "1 2", "u", "x>1||y>1 ? 1 : 2", "? 1 : 2", "x = 1 ? 2 : 3", "!", "x !", "* 3", "1..2", "x^", ")(", "a ? b : c", "sin x", "1 ? 2 : 3"]

KEYS = ["genesis input file", "exodus output file", "use two level mesh decomposition", "write timing data file", "time integration scheme", "nonlinear solver relative tolerance", "nonlinear solver maximum iterations",
        "initial time", "final time", "number of load steps", "output frequency", "contact", "contact backend", "contact visualization", "material parameters", "element block", "boundary condition", "output fields",
        "contact dicing", "contact splitting", "uq parameters", "uq model"]
WORDS = sorted(set(" ".join(KEYS).split())) + ["friction", "damping", "level", "step", "initial", "a", "x", "the"]
def near(t, r, known, sep=" "):
    """a text easily taken for t that is not in the vocabulary"""
    for _ in range(200):
        w = t.split(sep); k = t; h = int(r.integers(12)); p = int(r.integers(len(t))); q = int(r.integers(len(w))); word = str(r.choice(WORDS)); ch = chr(int(r.integers(97, 123)))
        if h == 0: k = t[:p] + t[p + 1:]                                        # a letter left out, doubled, changed, swapped
        elif h == 1: k = t[:p] + t[p] + t[p:]
        elif h == 2: k = t[:p] + ch + t[p + 1:]
        elif h == 3: k = t[:p] + t[p + 1:p + 2] + t[p] + t[p + 2:]
        elif h == 4: k = sep.join(w[:q] + w[q + 1:])                            # a word left out, doubled, changed, added
        elif h == 5: k = sep.join(w[:q] + [w[q]] + w[q:])
        elif h == 6: k = sep.join(w[:q] + [word] + w[q + 1:])
        elif h == 7: k = t + sep + word if r.random() < .6 else word + sep + t
        elif h == 8: k = t + "s" if r.random() < .5 else t + ch
        elif h == 9: k = [t.upper(), t.title(), t.capitalize(), t[:p] + t[p].upper() + t[p + 1:]][int(r.integers(4))]
        elif h == 10: k = t.replace(sep, str(r.choice(["_", "-", "", "  "])), 1) if sep in t else t[:max(1, len(t) // 2)]
        else: k = sep.join(w[int(r.integers(len(w))):]) if r.random() < .5 else sep.join(w[:1 + q])
        k = k.strip()
        if k and ":" not in k and "#" not in k and k not in known: return k
    return "frobnication"
@fault
def unknown_key(c, r):
    i = int(r.integers(len(c.lines))); k, _, v = c.lines[i].partition(":"); k = near(k, r, KEYS)
    c.lines[i] = k + ":" + v if r.random() < 0.5 else c.lines[i] + "\n" + k + ": 1"
@fault
def unknown_key_added(c, r): c.lines.insert(int(r.integers(len(c.lines) + 1)), near(str(r.choice(KEYS)), r, KEYS) + ": " + str(r.choice(["1", "0.3", "on", "1.0e-6", "block_1 steel", "none"])))
@fault
def unknown_key_foreign(c, r): c.lines.insert(int(r.integers(len(c.lines) + 1)), " ".join(str(w) for w in r.choice(WORDS, int(r.integers(1, 4)))).replace("contact dicing", "dicing") + str(r.choice(["x", "s", " z", " 2"])) + ": 1")
@fault
def near_scheme(c, r): sub(c, "time integration", "time integration scheme: " + near(str(r.choice(["explicit", "quasistatic"])), r, ["explicit", "quasistatic"]))
@fault
def near_model(c, r):
    i = int(r.choice(linesof(c, "material parameters"))); w = c.lines[i].split(); w[3] = near(w[3], r, ["elastic", "neohookean"]).replace(" ", "_"); c.lines[i] = " ".join(w)
@fault
def near_param(c, r):
    i = int(r.choice(linesof(c, "material parameters"))); w = c.lines[i].split(); q = 4 + 2 * int(r.integers((len(w) - 4) // 2)); w[q] = near(w[q], r, ["density", "bulk_modulus", "shear_modulus"], "_").replace(" ", "_"); c.lines[i] = " ".join(w)
@fault
def near_param_added(c, r):
    i = int(r.choice(linesof(c, "material parameters"))); c.lines[i] += " " + near(str(r.choice(["density", "bulk_modulus", "shear_modulus"])), r, ["density", "bulk_modulus", "shear_modulus"], "_").replace(" ", "_") + " 1.0"
FIELDS = ["displacement", "velocity", "acceleration", "internal_force", "external_force", "stress", "deformation_gradient", "volume", "lumped_mass"]
@fault
def near_field(c, r):
    f = near(str(r.choice(FIELDS)), r, FIELDS, "_").replace(" ", "_"); L = ["displacement", f]; sub(c, "output fields", "output fields: " + " ".join(L[::int(r.choice([-1, 1]))]))
@fault
def near_bc(c, r):
    t = ["initial_velocity", "prescribed_velocity", "prescribed_displacement"]; c.bcline(near(str(r.choice(t)), r, t + ["prescribed_traction"], "_").replace(" ", "_") + " %s x 1.0")
@fault
def near_set(c, r):
    n = [q.get("name") or "nodelist_%d" % q["id"] for q in c.m.node_sets + c.m.side_sets] + ["nodelist_%d" % q["id"] for q in c.m.node_sets]; c.raw_bc(str(r.choice(["initial_velocity", "prescribed_velocity", "prescribed_displacement"])) + " " + near(str(r.choice(n)), r, n, "_").replace(" ", "_") + " x 1.0")
@fault
def no_colon(c, r): i = int(r.integers(len(c.lines))); c.lines[i] = c.lines[i].replace(":", "", 1)
@fault
def no_colon_numeric(c, r): i = linesof(c, str(r.choice(NUM)))[0]; c.lines[i] = c.lines[i].replace(":", "", 1)
@fault
def empty_value(c, r): i = int(r.integers(len(c.lines))); c.lines[i] = c.lines[i].partition(":")[0] + ":" + str(r.choice(["", " ", "   "]))
@fault
def empty_key(c, r): c.lines.append(str(r.choice([": 5", " : x", ":"])))
@fault
def bad_number(c, r): k = str(r.choice(NUM)); v = str(r.choice(BADNUM[:-1])); sub(c, k, "%s: %s" % (k, v))
@fault
def fractional_count(c, r): k = str(r.choice(NUM[2:])); sub(c, k, "%s: %s" % (k, r.choice(["1e3", "2.5", "10 steps"])))
@fault
def bad_scheme(c, r): sub(c, "time integration", "time integration scheme: " + str(r.choice(["implicit", "Explicit", "explicit quasistatic", "quasi-static"])))
@fault
def bad_switch(c, r): c.lines.append(str(r.choice(["write timing data file", "use two level mesh decomposition"])) + ": " + str(r.choice(["maybe", "1", "of", "truee"])))
@fault
def bad_contact_vis(c, r): c.lines.append("contact visualization: " + str(r.choice(["on", "visualize_contact_entities yes visualize_bounding_boxes on file_name a.e", "visualize_contact_entities on visualize_bounding_boxes on file_name", "visualize_contact_entities on"])))
@fault
def unknown_model(c, r): i = int(r.choice(linesof(c, "material parameters"))); c.lines[i] = re.sub(r"(: *\S+ +)\S+", lambda m: m.group(1) + str(r.choice(["plastic", "Elastic", "neo-hookean", "density"])), c.lines[i], 1)
@fault
def unknown_param(c, r): i = int(r.choice(linesof(c, "material parameters"))); c.lines[i] += " " + str(r.choice(["youngs_modulus 1.0", "Density 3", "bulk_moduls 2.0", "poissons_ratio 0.3"]))
@fault
def misspelt_param(c, r):
    i = int(r.choice(linesof(c, "material parameters"))); k = str(r.choice(["density", "bulk_modulus", "shear_modulus"])); c.lines[i] = c.lines[i].replace(k, k[:-1])
@fault
def missing_param(c, r):
    i = int(r.choice(linesof(c, "material parameters"))); k = str(r.choice(["density", "bulk_modulus", "shear_modulus"])); c.lines[i] = re.sub(k + r" \S+", "", c.lines[i])
@fault
def odd_params(c, r): i = int(r.choice(linesof(c, "material parameters"))); c.lines[i] = c.lines[i].rsplit(" ", 1)[0] if r.random() < 0.6 else c.lines[i] + " density"
@fault
def bad_param_value(c, r):
    i = int(r.choice(linesof(c, "material parameters"))); k = str(r.choice(["density", "bulk_modulus", "shear_modulus"])); c.lines[i] = re.sub(k + r" \S+", k + " " + str(r.choice(["abc", "x1", "1.0e9Pa", "--1", "1,5"])), c.lines[i])
@fault
def material_without_model(c, r): i = int(r.choice(linesof(c, "material parameters"))); c.lines[i] = "material parameters: mat0" if linesof(c, "material parameters")[0] == i else " ".join(c.lines[i].split()[:3])
@fault
def undefined_material(c, r): i = int(r.choice(linesof(c, "element block"))); c.lines[i] = re.sub(r"\S+$", "nosuchmaterial", c.lines[i])
@fault
def block_without_material(c, r): i = int(r.choice(linesof(c, "element block"))); c.lines[i] = re.sub(r"(block_\d+).*", r"\1", c.lines[i])
@fault
def block_not_listed(c, r): i = int(r.choice(linesof(c, "element block"))); c.lines[i] = ""
@fault
def no_materials(c, r):
    for i in linesof(c, "material parameters"): c.lines[i] = ""
@fault
def no_blocks(c, r):
    for i in linesof(c, "element block"): c.lines[i] = ""
@fault
def no_mesh_line(c, r): sub(c, "genesis", None)
@fault
def no_such_mesh(c, r): sub(c, "genesis", "genesis input file: " + str(r.choice(["nosuch.g", "/nonexistent/dir/a.g"])))
@fault
def empty_mesh(c, r): c.raw = b""
@fault
def garbage_mesh(c, r): c.raw = bytes(r.integers(0, 256, int(r.integers(1, 4000)), dtype=np.uint8)) if r.random() < 0.5 else b"genesis input file: m.g\n" * 9
@fault
def truncated_mesh(c, r): c.trunc = float(r.uniform(0.01, 0.5))
@fault
def no_output_fields(c, r): sub(c, "output fields", None)
@fault
def unknown_output_field(c, r): sub(c, "output fields", "output fields: displacement " + str(r.choice(["velocityy", "pressure", "ipt01_pressure", "Stress", "displacment velocity"])))
@fault
def bc_type(c, r): c.bcline(str(r.choice(["prescribed_acceleration", "Initial_velocity", "velocity", "\"\""])) + " %s x 1.0")
@fault
def bc_component(c, r): c.bcline("prescribed_velocity %s " + str(r.choice(["w", "xy", "1", "0.5 x", "xx"])) + " 1.0")
@fault
def bc_no_component(c, r): c.bcline("prescribed_velocity %s")
@fault
def bc_no_value(c, r): c.bcline(str(r.choice(["initial_velocity", "prescribed_velocity", "prescribed_displacement"])) + " %s y")
@fault
def bc_bad_value(c, r): c.bcline(str(r.choice(["initial_velocity", "prescribed_velocity", "prescribed_displacement"])) + " %s y " + str(r.choice(["abc", "x*2", "fast", "--1", "sin(t)", "'x'"])))
@fault
def bc_trailing(c, r): c.bcline("prescribed_velocity %s y " + str(r.choice(["1.0x", "1.5abc", "1.0.0", "2..5"])))
@fault
def bc_unknown_set(c, r): c.raw_bc(str(r.choice(["initial_velocity", "prescribed_velocity", "prescribed_displacement"])) + " " + str(r.choice(["nosuchset", "nodelist_987", "nodeset_1"])) + " x 1.0")
@fault
def bc_bad_expression(c, r): c.bcline("prescribed_velocity %s x \"" + str(r.choice(BADEXPR)) + "\"")
@fault
def bc_quotes(c, r): c.bcline("prescribed_velocity %s x " + str(r.choice(['"x', 'x"', '"x" "y"', '"x""'])))
@fault
def bc_empty(c, r): c.lines.append("boundary condition: " + str(r.choice(["prescribed_velocity", "x"])))
@fault
def contact_no_penalty(c, r): c.lines.append("contact: primary_blocks block_%d secondary_blocks block_%d" % (c.m.blocks[0]["id"], c.m.blocks[-1]["id"]))
@fault
def contact_unknown_block(c, r): c.lines.append("contact: primary_blocks nosuchblock secondary_blocks block_%d penalty_parameter 1.0" % c.m.blocks[-1]["id"])
@fault
def contact_no_primary(c, r): c.lines.append("contact: " + str(r.choice(["secondary_blocks block_%d penalty_parameter 1.0" % c.m.blocks[0]["id"], "penalty_parameter 1.0", "on", "primary_blocks secondary_blocks penalty_parameter 1e3"])))
@fault
def contact_bad_penalty(c, r): c.lines.append("contact: primary_blocks block_%d secondary_blocks block_%d penalty_parameter %s" % (c.m.blocks[0]["id"], c.m.blocks[-1]["id"], r.choice(["abc", "", "stiff"])))
@fault
def mesh_conn_range(c, r):
    b = c.m.blocks[int(r.integers(len(c.m.blocks)))]; b["conn"] = b["conn"].copy(); b["conn"][int(r.integers(len(b["conn"]))), int(r.integers(8))] = int(r.choice([len(c.m.coords), len(c.m.coords) + 5, 10 ** 6, 2 * 10 ** 9, -2, -1000]))
@fault
def mesh_set_range(c, r):
    s = c.m.node_sets[0]; s["nodes"] = np.concatenate([s["nodes"], [int(r.choice([len(c.m.coords), len(c.m.coords) + 3, 10 ** 6, -5]))]]); s["df"] = None; c.bcline("prescribed_velocity " + (s.get("name") or "nodelist_%d" % s["id"]) + " x 1.0")
@fault
def mesh_tets(c, r):
    b = c.m.blocks[0]; b["conn"] = b["conn"][:, :4]; b["type"] = "TET4"
@fault
def mesh_hex20(c, r):
    b = c.m.blocks[0]; b["conn"] = np.concatenate([b["conn"], b["conn"], b["conn"][:, :4]], 1); b["type"] = "HEX20"
@fault
def mesh_2d(c, r): c.m.dim = 2
@fault
def mesh_map_name(c, r): c.m.node_map2 = ("my_map", np.arange(1, len(c.m.coords) + 1))
@fault
def mesh_elem_map_name(c, r): c.m.elem_map2 = ("my_map", np.arange(1, c.m.num_elem() + 1))
@fault
def contact_penalty_not_positive(c, r): c.lines.append("contact: primary_blocks block_%d secondary_blocks block_%d penalty_parameter %s" % (c.m.blocks[0]["id"], c.m.blocks[-1]["id"], r.choice(["0", "-1.0", "0.0", "-3e9"])))
@fault
def contact_key_order(c, r): c.lines.append("contact: " + str(r.choice(["secondary_blocks block_%d primary_blocks block_%d penalty_parameter 1.0", "primary_blocks block_%d block_%d penalty_parameter 1.0", "primary block_%d secondary block_%d penalty_parameter 1.0", "primary_blocks block_%d secondary_blocks block_%d penalty 1.0", "primary_blocks block_%d secondary_blocks block_%d penalty_parameter 1.0 2.0"])) % (c.m.blocks[0]["id"], c.m.blocks[-1]["id"]))
@fault
def mesh_face_of_three(c, r):
    b = c.m.blocks[0]; b["conn"] = np.concatenate([b["conn"], b["conn"][:1], b["conn"][:1]]); c.m.elem_ids = None; c.m.elem_map2 = None; b.pop("attr", None)
    c.lines.append("contact: primary_blocks block_%d secondary_blocks block_%d penalty_parameter 1.0" % (b["id"], c.m.blocks[-1]["id"]))
@fault
def final_before_initial(c, r): sub(c, "final time", "final time: " + str(r.choice(["-5", "-1e-3", "-1e9"]))); sub(c, "initial time", "initial time: " + str(r.choice(["0", "3.5", "1e-9"])))
@fault
def not_finite(c, r): k = str(r.choice(["initial time", "final time"])); sub(c, k, k + ": " + str(r.choice(["nan", "inf", "-inf", "1e999"])))
@fault
def no_deck(c, r): c.deck = None
@fault
def deck_missing(c, r): c.deck = "nosuch.in"
@fault
def deck_directory(c, r): c.deck = "."
@fault
def deck_empty(c, r): c.lines = [] if r.random() < 0.5 else ["# nothing", ""]
@fault
def deck_binary(c, r): c.lines = ["".join(chr(k) for k in r.integers(1, 256, 400))]
@fault
def uq_not_built(c, r): c.args = ["--use_uq"]
@fault
def vt_not_built(c, r): c.args = ["--use_vt"]
@fault
def output_unwritable(c, r): sub(c, "exodus", "exodus output file: /nonexistent_dir_of_verif/x.e")

def rand_edit(c, r):
    t = list("\n".join(c.lines))
    for _ in range(int(r.integers(1, 5))):
        p = int(r.integers(len(t))); h = r.integers(5)
        if h == 0: t[p:p + int(r.integers(1, 20))] = []
        elif h == 1: t[p] = chr(int(r.integers(32, 127)))
        elif h == 2: t.insert(p, str(r.choice([":", "\"", " ", "\n", "#", "\t", "x", "-", "999999999999", "e"])))
        elif h == 3: q = int(r.integers(len(t))); t[p:p] = t[q:q + int(r.integers(1, 40))]
        else: t = t[:max(p, 1)]
        if not t: t = ["x"]
    s = "".join(t)
    # keep the run small whatever the edit did
    s = re.sub(r"(number of load steps\s*:\s*\d{0,2})\d*", r"\1", s)
    s = re.sub(r"(exodus output file\s*:)[^\n]*", r"\1 m.e", s)
    c.lines = s.split("\n")

def case(o, rng, idx, tier, wd, sh):
    names = sorted(FAULTS); mode = "valid" if idx % 10 == 9 else ("edit" if idx % 10 in (4, 8) else names[(idx - 2 * (idx // 10) - (1 if idx % 10 > 4 else 0)) % len(names)])
    if mode not in ("valid", "edit") and idx >= len(names) * 3: mode = str(rng.choice(names))
    k = models.rand_case(rng, dims=rng.integers(1, 3, 3), nsteps=2, freq=1, nsets=2)
    c = F(); c.m = k.mesh; c.raw = c.trunc = None; c.args = []; c.deck = "in.in"
    d = models.deck(k, "displacement velocity stress"); d.bcs = d.bcs[:2]; c.lines = d.lines()
    s0 = k.mesh.node_sets[0]; nm = s0.get("name") or "nodelist_%d" % s0["id"]
    def raw_bc(t):
        i = linesof(c, "boundary condition")
        if i and rng.random() < 0.5: c.lines[i[0]] = "boundary condition: " + t
        else: c.lines.append("boundary condition: " + t)
    c.raw_bc = raw_bc; c.bcline = lambda t: raw_bc(t.replace("%s", nm))
    if mode in ("no_mesh_line", "no_such_mesh", "empty_mesh", "garbage_mesh", "truncated_mesh", "mesh_tets", "mesh_hex20", "mesh_2d", "mesh_conn_range", "no_materials", "no_blocks", "block_not_listed") and rng.random() < 0.6:
        for i in linesof(c, "boundary condition"): c.lines[i] = ""   # nothing else may stumble over the fault
    if mode == "edit": rand_edit(c, rng)
    elif mode != "valid": FAULTS[mode](c, rng)
    nr = 2 if rng.random() < 0.12 and mode not in ("mesh_2d", "no_deck") else 1
    dd = wd + "/run"; os.mkdir(dd)
    ms = [c.m]
    if nr == 2:
        if c.m.num_elem() < 2 or mode.startswith("mesh_"): nr = 1
        else: ms = meshgen.partition(rng, c.m, nr)
    try:
        for q, m in enumerate(ms):
            p = os.path.join(dd, app.part_name("m.g", nr, q)); exo.write(p, m)
            if c.raw is not None: open(p, "wb").write(c.raw)
            if c.trunc is not None: n = os.path.getsize(p); os.truncate(p, int(n * c.trunc))
    except IOError as e: o.evals += 1; o.count("fault not expressible in the file format"); return
    if "deck" in mode and isinstance(c.lines, list) or True:
        open(dd + "/in.in", "w", encoding="latin1").write("\n".join(c.lines) + ("\n" if rng.random() < 0.9 else ""))
    cmd = [sh["exe"]] + c.args + ([c.deck] if c.deck else [])
    if nr == 2: cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", "2"] + cmd
    x = common.sh_twice(cmd, dd, 60)
    rc, out, err, to = x
    s = common.san_report(err + out)
    what = "%s on %d ranks" % (mode, nr); o.evals += 1
    ex = "fault %s; deck: %s; rc=%s; output: %s" % (what, " | ".join(c.lines)[:900], rc, (out[-300:] + " /// " + err[:700]))
    if s: o.violation(("%s:" % mode if mode != "edit" else "edit:") + s[0], "sanitizer report for %s: %s" % (ex[:1200], s[1][:1500])); return
    if to: o.violation(mode + ":hang", "no end within 120 s: " + ex); return
    sig = -rc if rc < 0 else (rc - 128 if 128 < rc < 160 else 0)
    if sig and not (sig == 6 and ("NIMBLE_" in err or "what():" in err)): o.violation(mode + ":crash", "ended by signal %d: %s" % (sig, ex)); return
    if nr == 2 and re.search(r"exited on signal (?!6\b)(\d+)", out + err): o.violation(mode + ":crash", "a rank crashed: " + ex); return
    if mode == "valid":
        if rc != 0: o.violation("valid-rejected", "a valid deck was rejected: " + ex); return
        o.count("valid twins accepted")
    elif mode == "edit": o.count("random edits accepted" if rc == 0 else "random edits rejected")
    else:
        if rc == 0: o.violation(mode + ":accepted", "bad input accepted: " + ex); return
        if len(err.strip()) < 5 and "rror" not in out: o.violation(mode + ":silent", "no message: " + ex); return
        o.count("faults diagnosed")
    if nr == 2: o.count("parallel runs")
    o.distinct.append("%s %s" % (mode, hash(tuple(c.lines)) if mode == "edit" else idx))
    if idx < 4: o.sample({"fault": mode, "rc": rc, "message": err.strip()[:160]})
