"""C19: shared-node reductions."""
import vbuild, hrun
RULE = ("case = one random distribution of 0-60 global node ids over 1-8 ranks (disjoint, all shared, chains, random subsets, empty ranks, sparse large ids, any order) and up to 6 successive reductions "
        "of scalar and vector fields through pointers, strided views, node views and functions, with the clique or the import/export back end and random delays; every value against the sum all ranks contributed "
        "(exact for dyadic values), unshared values bit for bit; non-trivial = distinct distribution")
ASSUMPTIONS = ["a rank lists a global id once; ids below 7e8 (three unknowns per node are numbered in int)", "tolerance 4 eps (ranks) for values that do not add exactly"]
PER = {"quick": 60, "thorough": 400}
NP = [2, 3, 4, 5, 6, 8, 1, 7, 4, 3, 2, 6]
def ncases(tier): return 16 if tier == "quick" else 96
WORKERS = {"quick": 3, "thorough": 3}
MIN_DISTINCT = 400
def prepare(tier, seed): return {"exe": vbuild.harness("c19", "san"), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 900, nranks=NP[idx % len(NP)])
