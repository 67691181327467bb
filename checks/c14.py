"""C14: memory safety and termination of the expression parser over arbitrary text."""
import os, re, vbuild, hrun, common
RULE = ("case = text (token soup, mutated valid expressions, random bytes, deep nesting, nested grammar with random tokens; thorough adds coverage-guided libFuzzer "
        "runs) parsed, evaluated, copied, assigned, destroyed under ASan+UBSan with canary expressions before and after; non-trivial = distinct text")
ASSUMPTIONS = ["texts up to 4000 characters"]
PER = {"quick": 4000, "thorough": 80000}
ONLY = ["nimble_boundary_condition.cc", "nimble_expression_parser.cc"]
def ncases(tier): return 24 if tier == "quick" else 72
MIN_DISTINCT = 5000
def prepare(tier, seed):
    sh = {"exe": vbuild.harness("c14", "san", only=ONLY), "seed": seed}
    if tier == "thorough": sh["fuzz"] = vbuild.harness("c14", "fuzz", only=ONLY, extra=["-DFUZZ"])
    return sh
def case(o, rng, idx, tier, wd, sh):
    if tier == "thorough" and idx >= 64:
        os.mkdir(wd + "/corpus")
        rc, out, err, to = common.sh([sh["fuzz"], "-max_total_time=600", "-detect_leaks=0", "-max_len=300", "-timeout=20", "-seed=%d" % (sh["seed"] * 100 + idx), "-rss_limit_mb=2000", "corpus"], wd, 900)
        m = re.search(r"stat::number_of_executed_units: (\d+)", err) or re.findall(r"#(\d+)\s+DONE", err)
        n = int(m.group(1)) if hasattr(m, "group") else int((m or ["0"])[-1])
        o.count("libFuzzer executions", n); o.evals += n
        s = common.san_report(err)
        if s or rc not in (0,): o.violation((s or ("fuzz", ""))[0], (s or ("", err[-2500:]))[1])
        return
    hrun.run(o, [sh["exe"], sh["seed"], idx, PER[tier]], wd, timeout=100 if tier == "quick" else 2000)
