"""C23: closest-point projection."""
import vbuild, hrun
RULE = ("case = one random triangle (equilateral, thin, obtuse, random; 20% right triangles with powers of two where all arithmetic is exact), in three vertex orders, rotated, shifted by up to 1e5 sizes, scales 1e-20..1e20, "
        "with a node over the face, beside it, exactly or almost on an edge line or vertex, in the plane or up to 100 sizes away on either side; closest point, class, gap, normal, barycentric coordinates, inside flag "
        "against a long-double reference by regions; non-trivial = distinct triangle and node")
ASSUMPTIONS = ["area above 1e-4 of the squared longest edge", "tolerance 32 eps (coordinate magnitude + aspect^2 * distance); classification only where it is decided by more than that, and exactly for the power-of-two triangles"]
PER = {"quick": 6000, "thorough": 200000}
def ncases(tier): return 16 if tier == "quick" else 64
MIN_DISTINCT = 20000
def prepare(tier, seed): return {"exe": vbuild.harness("c23", "san"), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
