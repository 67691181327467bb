#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C01": "offline oracle over recorded output histories: the run of the ASan/UBSan-instrumented program is replayed by an independent double-precision reference",
 "C02": "offline conservation monitor over recorded output histories of the sanitized program",
 "C03": "metamorphic monitor: transformed twin runs of the sanitized program compared field by field",
 "C04": "differential monitor: decomposed MPI runs of the sanitized program compared with the single-rank run",
 "C05": "offline monitor of prescribed components in recorded histories of the sanitized program",
 "C06": "trace monitor of written steps and times; twin-run comparison of written values",
 "C07": "offline monitor: output database compared record by record with the input mesh",
 "C08": "offline monitor recomputing element fields from recorded nodal motion",
 "C09": "monitor of the reported time step against an independent recomputation",
}
extra = os.path.join(V, "tools", "tech.json")
if os.path.exists(extra): TECH.update(json.load(open(extra)))
checks = []
na = []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3-vt run.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py %s" % i,
                       "technique": TECH.get(i, "runtime monitoring of the sanitized code under generated workloads"), "level": "exploration",
                       "level_note": "decided on the generated executions only; workload and oracle in DESIGN.md"})
    else:
        na.append({"property": i, "reason": "check not built yet"})

m = {"version": 1, "setup_cmd": "python3-vt setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: every check observes the unmodified sources, compiled with its own flags."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
