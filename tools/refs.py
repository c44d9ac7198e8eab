#!/usr/bin/env python3
"""Behaviour-preserving edits used to test the checks for false alarms.

refs.py [ID...]: writes refactor/ID.diff after confirming that the edited copy
still passes the library's own unit tests. tools/catch.py refactor/*.diff runs every check on them."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/refs"
REFS = []


def ref(id, *edits):
    REFS.append((id, edits))


exec(open(os.path.join(V, "tools", "refs_defs.py")).read())


def main():
    want = sys.argv[1:]
    os.makedirs(V + "/refactor", exist_ok=True)
    if not os.path.exists(W + "/Cargo.toml"):
        subprocess.check_call("mkdir -p %s && cp -a /repo/. %s/" % (W, W), shell=True)
    subprocess.check_call("git fetch -q /repo && git checkout -q -f FETCH_HEAD", shell=True, cwd=W)
    for id, edits in REFS:
        if want and id not in want:
            continue
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=W)
        bad = None
        for f, a, b in edits:
            s = open(W + "/" + f).read()
            if s.count(a) != 1:
                bad = "%s: %d matches of %r" % (f, s.count(a), a[:60])
                break
            open(W + "/" + f, "w").write(s.replace(a, b))
        if bad:
            print(id, "BAD", bad)
            continue
        r = subprocess.run("cargo test --offline --all-features --lib 2>&1 | tail -60", shell=True, cwd=W, capture_output=True, text=True)
        m = re.search(r"test result: (\w+)\. (\d+) passed; (\d+) failed", r.stdout)
        if not m or m.group(1) != "ok":
            e = [l for l in r.stdout.splitlines() if l.startswith("error") or "FAILED" in l or "-->" in l][:4]
            print(id, "BAD", e)
            continue
        d = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
        open("%s/refactor/%s.diff" % (V, id), "w").write(d)
        print(id, "ok", m.group(2))


main()
