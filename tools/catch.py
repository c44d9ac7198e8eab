#!/usr/bin/env python3
"""Runs checks against planted changes in scratch copies.

catch.py [-a] [-j N] [ID...]   ID = directory under seeded/ (or a path to a .diff, which must stay quiet)
-a: run every check, not only the one of the bug's property."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("CATCH_DIR", "/tmp/catch")


def main():
    a = sys.argv[1:]
    every = "-a" in a
    j = 3
    only = None
    if "-j" in a:
        k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
    if "-p" in a:
        k = a.index("-p"); only = a[k + 1].split(","); del a[k:k + 2]
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    slots = Queue()
    for n in range(j):
        d = "%s/%d" % (S, n)
        os.makedirs(d, exist_ok=True)
        subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", d + "/repo/"]) if shutil.which("rsync") else subprocess.check_call("rm -rf %s/repo && mkdir %s/repo && cd /repo && tar c --exclude=./target . | tar x -C %s/repo" % (d, d, d), shell=True)
        if not os.path.exists(d + "/build"):
            subprocess.check_call(["cp", "-a", V + "/build", d + "/build"])
        slots.put(d)

    def one(i):
        d = slots.get()
        try:
            sd = V + "/seeded/" + i
            diff = sd + "/patch.diff" if os.path.isdir(sd) else i
            r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", d + "/repo", diff] if False else ["git", "apply", os.path.abspath(diff)], cwd=d + "/repo", capture_output=True, text=True)
            if r.returncode:
                return "%s does not apply: %s" % (i, r.stderr[:200])
            meta = json.load(open(sd + "/meta.json")) if os.path.isdir(sd) else {"property": None}
            todo = only or (props if every or not meta["property"] else [meta["property"]])
            env = dict(os.environ, RPHON_REPO=d + "/repo", RPHON_BUILD=d + "/build", RPHON_EVIDENCE=d + "/ev")
            out = []
            fresh = True
            for p in todo:
                if p not in props:
                    out.append(p + "=unclaimed")
                    continue
                r = subprocess.run(["python3-vt", V + "/sa/check.py", p] + ([] if fresh else ["--no-extract"]), env=env, capture_output=True, text=True)
                fresh = False
                lines = (r.stdout + r.stderr).strip().splitlines()
                if r.returncode == 1 and any(l.startswith("VIOLATION property=" + p) for l in lines):
                    out.append(p + "=CAUGHT " + "; ".join(l.strip()[10:] for l in lines if l.startswith("  violated"))[:150])
                elif r.returncode == 0:
                    u = [l for l in lines if l.startswith("undecided")]
                    out.append(p + ("=quiet" + ("(undecided: %s)" % u[0][:150] if u else "")))
                else:
                    out.append(p + "=ERROR %s %s" % (r.returncode, lines[-1:]))
            quiet = [o for o in out if o.endswith("=quiet")]
            rest = [o for o in out if not o.endswith("=quiet")]
            return "%-28s %s%s" % (os.path.basename(i), " | ".join(rest) or "", " quiet:%d" % len(quiet))
        finally:
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d + "/repo")
            slots.put(d)

    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ids):
            print(r, flush=True)


main()
