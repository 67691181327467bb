"""C17: tensor utilities."""
import vbuild, hrun
RULE = ("case = one batch of random matrices (general, integer, diagonal, near-identity, badly scaled; symmetric ones with repeated, nearly repeated, zero-sum and "
        "graded eigenvalues; rotations near 0 and half a turn) put through every utility of nimble_utils.h and compared with long-double references under componentwise "
        "rounding bounds; non-trivial = distinct matrix")
ASSUMPTIONS = ["inverses: positive determinant above rounding; polar factors: condition number < 2e3, norm within 1e-3..1e3, tolerance 64 eps cond^2 (the algorithm squares)",
               "eigen residuals and orthogonality within 1e-12, values within 1e-13 of the norm; scales 1e-15..1e15"]
PER = {"quick": 4000, "thorough": 150000}
def ncases(tier): return 16 if tier == "quick" else 64
MIN_DISTINCT = 20000
def prepare(tier, seed): return {"exe": vbuild.harness("c17", "san", only=[]), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
