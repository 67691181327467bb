"""C21: contact surface."""
import vbuild, hrun
RULE = ("case = one random hexahedral mesh (1-64 elements, holes, 1-4 blocks, warped, element orientations and node order random, sparse global ids) distributed over 1-8 ranks at random, in slabs or by block, ranks without "
        "elements, with primary and secondary block sets disjoint, overlapping or equal; skin, triangles, contact nodes, ids and node maps against the outside faces of the whole mesh; non-trivial = distinct mesh, distribution and block choice")
ASSUMPTIONS = ["element ids plus the largest node id below 6.7e7 (the entity id holds them times 32 in an int)"]
PER = {"quick": 30, "thorough": 400}
NP = [4, 1, 3, 2, 6, 8, 5, 1, 4, 2, 3, 7]
def ncases(tier): return 12 if tier == "quick" else 96
WORKERS = {"quick": 3, "thorough": 3}
MIN_DISTINCT = 200
def prepare(tier, seed): return {"exe": vbuild.harness("c21", "san"), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 900, nranks=NP[idx % len(NP)])
