"""C22: positions, boxes and copies of contact entities."""
import vbuild, hrun
RULE = ("case = one random hexahedral mesh over 1-4 ranks with random primary and secondary blocks and 2-5 successive random displacement fields (zero, 1%, 50%, 100%, 30 element sizes, rigid); triangle, node and centre positions, boxes, "
        "centroids, overall box, packing and unpacking, exported geometry, forces back to the mesh, and entities on their own against a reference from mesh coordinates; non-trivial = distinct displacement field")
ASSUMPTIONS = ["element ids plus the largest node id below 6.7e7", "the overall box is asked for only where the rank has contact nodes"]
PER = {"quick": 60, "thorough": 600}
NP = [1, 3, 2, 4]
def ncases(tier): return 10 if tier == "quick" else 96
WORKERS = {"quick": 3, "thorough": 3}
MIN_DISTINCT = 500
def prepare(tier, seed): return {"exe": vbuild.harness("c22", "san"), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 900, nranks=NP[idx % len(NP)])
