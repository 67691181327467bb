"""C13: values of expressions."""
import vbuild, hrun
RULE = ("case = random expression of the grammar (all operators, functions, constants, conditionals; random spacing, redundant parentheses, number notations) "
        "evaluated at 8 points, copied, assigned, re-evaluated in reverse order; non-trivial = distinct text with at least one point judged against the "
        "long-double evaluator with running error bound")
ASSUMPTIONS = ["operands of % are in parentheses (its precedence is not settled by ordinary rules)", "points where the running error bound spans a discontinuity or pole are not judged"]
PER = {"quick": 2500, "thorough": 60000}
def ncases(tier): return 24 if tier == "quick" else 64
MIN_DISTINCT = 5000
def prepare(tier, seed): return {"exe": vbuild.harness("c13", "san", only=["nimble_boundary_condition.cc", "nimble_expression_parser.cc"]), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
