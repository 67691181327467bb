"""C16: element integration."""
import vbuild, hrun
RULE = ("case = one random hexahedron with positive Jacobian (perturbed, sheared, stretched up to 100:1, rotated, scaled over 12 decades, translated) and a displacement (none, linear, rigid, general); "
        "lumped mass, characteristic length, volume, averages, deformation gradients, nodal forces, work, resultants and tangent, through the pointer and the view interfaces, against a long-double "
        "isoparametric reference; non-trivial = distinct pair of shapes")
ASSUMPTIONS = ["normalised Jacobian determinant above 2e-3 at Gauss points and corners", "tolerance 40 eps times the rounding amplification |J^-1| (|x|+|J|) cond(J); shapes where that exceeds 4e-8 are skipped"]
PER = {"quick": 1500, "thorough": 60000}
def ncases(tier): return 16 if tier == "quick" else 64
MIN_DISTINCT = 10000
def prepare(tier, seed): return {"exe": vbuild.harness("c16", "san", only=["nimble_element.cc"]), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
