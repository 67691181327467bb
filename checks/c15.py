"""C15: constitutive laws."""
import vbuild, hrun
RULE = ("case = one random material (moduli over 16 decades, parameters in any order and number format) created through both factories, host and device copies and directly; "
        "0-24 random deformation gradients (identity, tiny strains, large stretches, repeated and isochoric ones, with rotations) through the batch, view and single-point interfaces, compared with "
        "the closed form in long double, with the derivative of the energy, under added rotations, and the tangent with the response at small strain; non-trivial = distinct batch of deformations")
ASSUMPTIONS = ["principal stretches in 0.02..20; tolerance 12 eps cond^2 of the stress scale for neohookean (the polar decomposition squares), 16 eps for elastic"]
PER = {"quick": 900, "thorough": 30000}
def ncases(tier): return 16 if tier == "quick" else 64
MIN_DISTINCT = 8000
def prepare(tier, seed): return {"exe": vbuild.harness("c15", "san", only=["nimble_material.cc", "nimble_material_factory.cc", "nimble_material_factory_base.cc", "nimble_kokkos_material_factory.cc"]), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
