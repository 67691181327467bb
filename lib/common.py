"""Check runner: cases, verdicts, known findings, evidence."""
import hashlib, importlib, json, os, shutil, sys, time, traceback, zlib, tempfile, subprocess, signal
from concurrent.futures import ProcessPoolExecutor
import numpy as np
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = min(8, os.cpu_count() or 1)
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", OMP_PROC_BIND="false",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=2500:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0", OMPI_MCA_btl="self,vader,tcp", OMPI_MCA_rmaps_base_oversubscribe="1",
           LC_ALL="C", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
           OMPI_MCA_ess_singleton_isolated="1")

class CheckError(Exception):
    """the check could not decide (not a verdict)"""

def scratch(prefix):
    base = os.environ.get("VERIF_SCRATCH", "/tmp")
    return tempfile.mkdtemp(prefix="nimverif-%s-" % prefix, dir=base)

class Out:
    """what one case observed"""
    def __init__(s): s.viol = []; s.obs = {}; s.distinct = []; s.samples = []; s.evals = 0; s.files = []; s.inconclusive = []
    def violation(s, key, msg, **data): s.viol.append((key, msg, data))
    def count(s, name, n=1): s.obs[name] = s.obs.get(name, 0) + int(n)
    def maxi(s, name, v): s.obs["max " + name] = max(float(v), s.obs.get("max " + name, 0.0))
    def case(s, key, n=1): s.evals += n; s.distinct.append(str(key))
    def sample(s, x): s.samples.append(x)

def case_rng(prop, seed, idx):
    return np.random.default_rng([seed & 0x7fffffff, zlib.crc32(prop.encode()), idx])

def _one(args):
    modname, prop, seed, tier, idx, shared, keep = args
    mod = importlib.import_module(modname)
    o = Out(); o.idx = idx
    if stopped(): o.inconclusive.append("case %d: stopped" % idx); return o
    wd = scratch(prop.lower())
    try:
        mod.case(o, case_rng(prop, seed, idx), idx, tier, wd, shared)
    except CheckError as e:
        o.inconclusive.append("case %d: %s" % (idx, e))
    except (KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError):
        # the oracle reads everything a valid result may contain: a result it cannot read (missing field, wrong shape) is not one
        o.violation("unreadable-result", "the recorded result does not have the expected form: " + traceback.format_exc()[-1200:])
    except Exception:
        o.inconclusive.append("case %d: %s" % (idx, traceback.format_exc()))
    if o.viol and stop_file() and time.time() > float(os.environ.get("VERIF_END", "inf")) - QUICK_END / 2: open(stop_file(), "w").close()
    if o.viol and keep:
        d = os.path.join(VERIF, "replay", "%s-s%d-%s-c%d" % (prop, seed, tier, idx))
        shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.dirname(d), exist_ok=True)
        try:
            shutil.copytree(wd, d, ignore=shutil.ignore_patterns("core*"))
        except Exception:
            os.makedirs(d, exist_ok=True)
        o.files.append(d)
    shutil.rmtree(wd, ignore_errors=True)
    if PEAK[0]: o.maxi("MB held by one command (sampled)", PEAK[0])
    return o

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]

def main(prop, argv):
    modname = "c" + prop[1:].lower()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    i = 0
    while i < len(argv):
        if argv[i] == "--tier": tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed": seed = int(argv[i + 1]); i += 2
        elif argv[i] == "--case": only = [int(x) for x in argv[i + 1].split(",")]; i += 2
        elif argv[i] == "--replay":
            r = json.load(open(argv[i + 1])); tier = r["tier"]; seed = r["seed"]; only = [r["case"]]; i += 2
        else: i += 1
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    mod = importlib.import_module(modname)
    from vbuild import BuildError
    try:
        shared = mod.prepare(tier, seed)
    except BuildError as e:
        print(str(e)[-6000:]); print("ERROR: build failed"); return 2
    ncase = mod.ncases(tier)
    idxs = only if only is not None else list(range(ncase))
    workers = getattr(mod, "WORKERS", NPROC)
    if isinstance(workers, dict): workers = workers[tier]
    ctl = scratch("ctl"); os.environ["VERIF_CTL"] = ctl
    if tier == "quick": os.environ["VERIF_END"] = str(t0 + QUICK_END)
    outs = []
    if workers > 1 and len(idxs) > 1:
        with ProcessPoolExecutor(workers) as ex:
            outs = list(ex.map(_one, [(modname, prop, seed, tier, k, shared, True) for k in idxs]))
    else:
        outs = [_one((modname, prop, seed, tier, k, shared, True)) for k in idxs]
    halted = stopped(); shutil.rmtree(ctl, ignore_errors=True)
    obs, distinct, evals, samples, viol, inc = {}, set(), 0, [], [], []
    for o in outs:
        evals += o.evals; distinct.update(o.distinct); inc += o.inconclusive
        for s in o.samples:
            if len(samples) < 6: samples.append(s)
        for k, v in o.obs.items():
            obs[k] = max(obs.get(k, 0.0), v) if k.startswith("max ") else obs.get(k, 0) + v
        for key, msg, data in o.viol: viol.append((o.idx, key, msg, data, o.files))
    if hasattr(mod, "finish"):
        fo = Out(); mod.finish(fo, outs, tier, shared)
        for key, msg, data in fo.viol: viol.append((-1, key, msg, data, []))
    # verdict
    kf = known_findings(prop); new, kn = [], {}
    for v in viol:
        for k in kf:
            if v[1] == k["key"] or (k.get("prefix") and v[1].startswith(k["key"])):
                kn.setdefault(k["key"], (k, v)); break
        else: new.append(v)
    for k in kf:
        if k["key"] in kn or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cov = {"evaluations": int(evals), "distinct_nontrivial": len(distinct), "rule": mod.RULE, "samples": samples,
           "observed": {k: (float("%.3e" % v) if isinstance(v, float) else v) for k, v in sorted(obs.items())}, "cases": len(idxs),
           "inconclusive_cases": len(inc)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    rc = 0
    if new:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        seen = {}
        for idx, key, msg, data, files in new:
            seen.setdefault(key, []).append((idx, msg, data, files))
        for key, l in list(seen.items())[:40]:
            idx, msg, data, files = l[0]
            rp = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, hashlib.sha1((key + str(seed)).encode()).hexdigest()[:10]))
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "case": idx, "key": key, "message": msg, "data": data,
                           "files": files, "occurrences": len(l),
                           "rerun": "python3-vt /verif/run.py %s --replay %s" % (prop, rp)}, f, indent=1, default=str)
            print("%s [%s] x%d: %s" % (prop, key, len(l), str(msg).replace('\n', '|')[:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    for s in inc[:5]: print("INCONCLUSIVE " + s[-1500:])
    if halted: print("stopped before all cases had run")
    if rc == 0 and (len(inc) > max(0, getattr(mod, "MAX_INCONCLUSIVE", len(idxs) // 40)) ):
        print("ERROR: %d of %d cases inconclusive" % (len(inc), len(idxs))); rc = 2
    if rc == 0 and only is None and len(distinct) < getattr(mod, "MIN_DISTINCT", 2):
        print("ERROR: observed too little (%d distinct)" % len(distinct)); rc = 2
    print("%s %s seed=%d: evaluations=%d distinct=%d violations=%d known=%d inconclusive=%d %.1fs" %
          (prop, tier, seed, evals, len(distinct), len(new), len(kn), len(inc), time.time() - t0))
    for k, v in sorted(obs.items()): print("   ", k, "=", ("%.3e" % v) if isinstance(v, float) else v)
    return rc

INFRA = ("It looks like MPI_INIT failed", "orte_init failed", "ORTE was unable", "ORTE has lost communication", "ORTE daemon has unexpectedly",
         "PMIX ERROR", "Unable to start a daemon", "unable to launch", "orte_session_dir failed", "not enough slots", "Failed to fork")
def sh(cmd, cwd, timeout, env=None, stdin=None):
    """runs cmd in its own process group; returns (rc, out, err, timed_out).  An MPI start-up failure is retried and is never a verdict."""
    for att in range(4):
        r = sh1(cmd, cwd, timeout, env, stdin)
        if r[0] == 0 or r[3] or not any(s in r[2] for s in INFRA) or "AddressSanitizer" in r[2] or "runtime error:" in r[2]: return r
        time.sleep(0.5 * (att + 1))
    raise CheckError("MPI start-up keeps failing: " + r[2][-600:])

# A check ends well inside its time budget even when the code under test hangs everywhere: the first hang that is confirmed (the
# command run again with twice the time), or QUICK_END seconds in the quick tier, stops what is still running; what was stopped is not judged.
QUICK_END = 660
def stop_file():
    d = os.environ.get("VERIF_CTL"); return os.path.join(d, "stop") if d else None
def stopped():
    f = stop_file()
    return bool(f) and (os.path.exists(f) or time.time() > float(os.environ.get("VERIF_END", "inf")))
def sh_twice(cmd, cwd, timeout, env=None):
    """runs cmd, again with twice the time when it did not end"""
    r = sh(cmd, cwd, timeout, env)
    if r[3]:
        r = sh(cmd, cwd, 2 * timeout, env)
        if r[3] and stop_file(): open(stop_file(), "w").close()
    return r

MEM_MB = 3600  # what the processes of one command may hold together (many times what they need): eight commands fit in the memory
PEAK = [0]
def session(sid):
    """processes of the session a command was started in: [(pid, resident MB)]"""
    L = []
    for d in os.listdir("/proc"):
        if not d.isdigit(): continue
        try:
            f = open("/proc/%s/stat" % d).read().rpartition(")")[2].split()
            if int(f[3]) == sid: L.append((int(d), int(f[21]) // 256))
        except (OSError, IndexError, ValueError): pass
    return L
def end_session(sid):
    for pid, _ in session(sid):
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass

def sh1(cmd, cwd, timeout, env=None, stdin=None):
    if stopped(): raise CheckError("stopped")
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         env=env or ENV, start_new_session=True)
    end = time.time() + timeout; halt = False; big = ""; step = 0.3
    while True:
        try:
            o, e = p.communicate(stdin, timeout=max(0.01, min(step, end - time.time()))); to = False; break
        except subprocess.TimeoutExpired:
            step = 1.0; mem = sum(m for _, m in session(p.pid)); PEAK[0] = max(PEAK[0], mem)
            if mem > MEM_MB: big = "\nended by the check: held %d MB of memory" % mem
            halt = stopped()
            if time.time() < end and not halt and not big: continue
            end_session(p.pid)
            o, e = p.communicate(); to = not big; break
    if halt: raise CheckError("stopped")
    return p.returncode or (1 if big else 0), o.decode("latin1"), e.decode("latin1") + big, to

import re
def san_report(text):
    """first sanitizer report in text -> (key, excerpt) or None"""
    m = re.search(r"ERROR: AddressSanitizer:? ?([\w-]+)", text)
    if m:
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\s(]+)", text[m.start():m.start() + 6000])
        fr = next((f for f in frames if not f.startswith(("__", "std::", "_GLOBAL", "operator", "mem", "str", "abort", "raise", "gsignal", "Kokkos::"))), "?")
        return "asan:%s:%s" % (m.group(1), fr), text[max(0, m.start() - 200):m.start() + 2500]
    m = re.search(r"([^\s:]+):(\d+):\d+: runtime error: (.*)", text)
    if m:
        ex = text[m.start():m.start() + 1800]
        fr = re.search(r"in (\S+?)[(\s].*/src/([\w./]+):\d+", ex)
        where = fr.group(1) + "@" + os.path.basename(fr.group(2)) if fr else os.path.basename(m.group(1))
        return "ubsan:%s:%s" % (where, re.sub(r"[-+]?[0-9][0-9a-fx.e+-]*", "N", m.group(3))[:70]), ex
    if re.search(r"==\d+==ERROR: AddressSanitizer|SUMMARY: AddressSanitizer", text): return "asan:other", text[-2500:]
    return None
