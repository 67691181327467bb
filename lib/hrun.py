"""Runs a C++ harness and turns its line protocol (harness/h.h) into what the check runner records."""
import glob, os, re, uuid
from common import sh_twice, ENV, san_report, CheckError

def run(o, cmd, wd, timeout=120, env=None, nranks=1, prefix="", mpiargs=()):
    if nranks > 1: cmd = ["mpirun", "--oversubscribe", "--bind-to", "none"] + list(mpiargs) + ["-np", str(nranks)] + cmd
    e = dict(ENV); e.update(env or {}); prot = None
    if nranks > 1: prot = e["VP_OUT"] = os.path.join(os.path.abspath(wd), "hout-" + uuid.uuid4().hex)
    rc, out, err, to = sh_twice([str(c) for c in cmd], wd, timeout, e)
    lines = out.split("\n")
    if prot:
        for f in sorted(glob.glob(prot + ".*")): lines += open(f, errors="replace").read().split("\n"); os.remove(f)
    ends = 0; last = ""
    for l in lines:
        if l.startswith("@V "):
            k, _, m = l[3:].partition("\t"); o.violation(prefix + k, m)
        elif l.startswith("@S "):
            k, _, n = l[3:].partition("\t"); o.count(k, int(n))
        elif l.startswith("@M "):
            k, _, n = l[3:].partition("\t"); o.maxi(k, float(n))
        elif l.startswith("@D "): o.distinct.append(l[3:])
        elif l.startswith("@X "): o.sample(l[3:])
        elif l.startswith("@E "): o.evals += int(l[3:])
        elif l.startswith("@N "): last = l[3:]
        elif l == "@end": ends += 1
    s = san_report(err + "\n" + out)
    if s: o.violation(prefix + s[0], "sanitizer report (last case: %s): %s" % (last, s[1]))
    elif to: o.violation(prefix + "hang", "no end within %d s (last case: %s)" % (2 * timeout, last))
    elif rc != 0: o.violation(prefix + "crash", "harness ended with rc=%s (last case: %s): %s" % (rc, last, (err + out)[-1500:]))
    elif ends < 1: o.violation(prefix + "exit", "code under test ended the process (last case: %s)" % last)
    return rc, out, err
