"""C20: serialization and the MPI context's collectives."""
import vbuild, hrun
RULE = ("case = every listed type (29 nestings of scalars, structs, pairs, arrays and vectors, with empty ones) packed twice into an exactly sized buffer and through pack, pack_avoid_resize and unpack with three element types, "
        "then 6-14 random operations (messages and packed messages between pairs of ranks, gather, scatter, all-gather, broadcast, concatenation, gatherv, scatterv, id packing) on the world or on a randomly split, renumbered "
        "communicator of 1-8 ranks, contents compared with what the others contributed (known to every rank from the seed); non-trivial = distinct operation with distinct data or type with distinct sizes")
ASSUMPTIONS = ["packed values fit the receiving buffer (unpack trusts its input)", "largest node id is asked of ranks that all have nodes"]
PER = {"quick": 30, "thorough": 150}
NP = [3, 4, 8, 2, 5, 6, 1, 7, 4, 3, 8, 6]
def ncases(tier): return 12 if tier == "quick" else 72
WORKERS = {"quick": 3, "thorough": 3}
MIN_DISTINCT = 300
def prepare(tier, seed): return {"exe": vbuild.harness("c20", "san", ["nimble.mpi.reduction_utils.cc"]), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 900, nranks=NP[idx % len(NP)])
