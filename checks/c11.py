"""C11: input decks mean what they say."""
import vbuild, hrun
RULE = ("case = random deck (each keyword present or absent, random values, names, materials, blocks, conditions, fields) written in four layouts (plain; shuffled "
        "and spaced; with tabs, comments and blank lines; wide, CRLF); non-trivial = distinct deck text read by the real parser and compared setting by setting")
ASSUMPTIONS = ["boundary condition lines keep their relative order when lines are shuffled", "each material name, block and setting occurs at most once per deck"]
PER = {"quick": 150, "thorough": 4000}
def ncases(tier): return 16 if tier == "quick" else 64
MIN_DISTINCT = 3000
def prepare(tier, seed): return {"exe": vbuild.harness("c11", "san"), "seed": seed}
def case(o, rng, idx, tier, wd, sh): hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
