"""C18: linear algebra."""
import vbuild, hrun
RULE = ("case = one random sparsity pattern (with and without empty rows, symmetry, full diagonals) driven through random sequences of container operations against a map; one symmetric positive "
        "definite system for CG (with default, own and exactly sufficient limits, re-used scratch) and one general or singular system for LU, judged by long-double residuals; mesh patterns "
        "against all pairs of unknowns sharing an element; non-trivial = distinct pattern")
ASSUMPTIONS = ["CG on diagonally dominant SPD matrices; LU on row-scaled condition up to 1e7, growth allowance 8 (50 above 11 rows); CG judged in the norm of its own stopping rule plus a rounding floor"]
PER = {"quick": 1200, "thorough": 80000}
def ncases(tier): return 16 if tier == "quick" else 64
MIN_DISTINCT = 10000
def prepare(tier, seed): return {"exe": vbuild.harness("c18", "san", only=["nimble_linear_solver.cc", "nimble_mesh_utils.cc", "nimble_genesis_mesh.cc", "nimble_utils.cc"]), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
