#!/usr/bin/env python3-vt
"""Runs the engine on selftest/zz.rs: *_ok must be proved, *_bad must be reported."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/selftest"
sys.path.insert(0, V + "/sa")
if not os.path.exists(D + "/build"):
    os.makedirs(D, exist_ok=True)
    subprocess.check_call(["cp", "-a", V + "/build", D + "/build"])
shutil.rmtree(D + "/repo", ignore_errors=True)
subprocess.check_call("mkdir -p %s/repo && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s/repo" % (D, D), shell=True)
shutil.copy(V + "/selftest/zz.rs", D + "/repo/src/zz.rs")
open(D + "/repo/src/lib.rs", "a").write("\npub mod zz;\n")
env = dict(os.environ, RPHON_REPO=D + "/repo", RPHON_BUILD=D + "/build")
subprocess.check_call(["bash", V + "/sa/extract.sh", D + "/build/all.json"], env=env)
import json
import an
from props import total
an.BUILD = D + "/build"
from multiprocessing import Pool
P = an.Program(json.load(open(D + "/build/all.json")))
P.atoms()
total._go.P, total._go.opts = P, {"all": set()}
want = sys.argv[1:]
jobs = [(r["path"].split("::")[-1], r["inst"], None, 40) for r in P.roots(lambda r: r["path"].startswith("zz::")) if not want or any(w in r["path"] for w in want)]
n = dict(ok=0)
seen = set()
with Pool(8) as p:
    for name, err, outs, sites, alarms, und, notes, fns in p.imap(total._go, jobs):
        if name in seen:
            continue
        seen.add(name)
        good = name.endswith("_ok")
        if err:
            r = "ERR " + err
        elif alarms:
            r = "ALARM " + ",".join("%s(%s)" % (k[1], k[2]) for k, _ in alarms)
        elif und or notes:
            r = "UNDECIDED " + "; ".join([str(k) for k, _ in und][:2] + list(notes)[:3])
        else:
            r = "clean"
        fine = (r == "clean") if good else r.startswith("ALARM")
        if fine:
            n["ok"] += 1
        else:
            print("%-20s %s" % (name, r[:170]))
print(n["ok"], "of", len(seen), "as expected")
