"""C29: tangent stiffness."""
import vbuild, hrun
RULE = ("case = one random mesh of one to three elements a side (blocks, holes, warped, rotated, scaled), random materials and equation numbering: nonzero structure, sparse and dense assembly, every entry against a fourth-order difference of "
        "the assembled internal force at rest, symmetry, rigid motions and energy at rest and displaced, assembly in two parts, and rows, columns and right-hand side under random conditions; non-trivial = distinct mesh")
ASSUMPTIONS = ["rounding amplification of the elements below 1e4", "differences of step 1e-4 of the smallest spacing, tolerance 1e-9 of the largest entry plus 8e-11 times the amplification"]
PER = {"quick": 25, "thorough": 900}
def ncases(tier): return 16 if tier == "quick" else 64
MIN_DISTINCT = 250
def prepare(tier, seed): return {"exe": vbuild.harness("c29", "san"), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 3000)
