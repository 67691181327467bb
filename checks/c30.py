"""C30: field labels and registries."""
import vbuild, hrun
RULE = ("case = random labels (with look-alikes of integration-point prefixes), every length in both dimensions, conversions both ways; and random registration histories on both model-data implementations, "
        "several blocks, repeated registrations, every array read back through all its accessors and through the output arrays, gathers and scatters; non-trivial = distinct label and length, or distinct set of names and history length")
ASSUMPTIONS = ["names that differ only in case, or where one is another plus '_...', are not used together", "inconsistent re-registration (which aborts) is not made", "scalars and vectors at integration points, which no available material uses, are not covered"]
PER = {"quick": 60, "thorough": 3000}
def ncases(tier): return 16 if tier == "quick" else 64
MIN_DISTINCT = 5000
def prepare(tier, seed): return {"exe": vbuild.harness("c30", "san"), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=60 if tier == "quick" else 2000)
