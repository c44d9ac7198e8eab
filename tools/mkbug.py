#!/usr/bin/env python3
"""Builds and confirms planted bugs: tools/mkbug.py [ID...]; definitions in tools/bugs.py.

For each: patch applies to a copy of /repo, builds, all existing tests pass (both feature sets),
the demonstration passes without and fails with it.  Then writes seeded/<id>/."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from bugs import BUGS

COPY = "/tmp/mkbug/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

DEMO = """#!/bin/bash
# Runs a small program against the crate in the current directory: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export REPO="$repo"
d=$(mktemp -d /tmp/rphonetic-demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rphonetic = { path = "$repo", features = ["embedded"] }
%s
[workspace]
TOML
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def demo(d, cwd):
    return sh(["bash", os.path.join(d, "demo.sh")], cwd, timeout=300)


def main(ids):
    if not os.path.exists(COPY):
        os.makedirs(os.path.dirname(COPY), exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", COPY])
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        if not ids and os.path.exists(os.path.join(V, "seeded", b["id"], "patch.diff")):
            continue
        sh(["git", "checkout", "-q", "--", "."], COPY)
        sh(["git", "fetch", "-q", "/repo", "HEAD"], COPY)
        sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], COPY)
        bad = None
        for fn, old, new in b["edits"]:
            p = os.path.join(COPY, fn)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "edit matches %d times in %s: %r" % (s.count(old), fn, old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "FAIL", bad)
            continue
        diff = sh(["git", "diff"], COPY).stdout
        d = os.path.join("/tmp/mkbug", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % b.get("deps", ""))
        open(d + "/main.rs", "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        for fl in ([], ["--all-features"]):
            r = sh(["timeout", "600", "cargo", "test", "--workspace", "--offline"] + fl, COPY)
            if r.returncode:
                print(b["id"], "FAIL tests", fl, [l for l in (r.stdout + r.stderr).splitlines() if "FAILED" in l or "error" in l or "panicked" in l][:8])
                ok = False
                break
        if not ok:
            continue
        r = demo(d, COPY)
        if r.returncode == 0:
            print(b["id"], "FAIL: demo passes with the bug")
            continue
        w = (r.stdout + r.stderr).strip().splitlines()[-3:]
        if "could not compile" in r.stderr:
            print(b["id"], "FAIL: demo does not compile", r.stderr[-600:])
            continue
        r = demo(d, "/repo")
        if r.returncode != 0:
            print(b["id"], "FAIL: demo fails on the unchanged tree", (r.stdout + r.stderr)[-500:])
            continue
        dst = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(b["id"], "kept:", " / ".join(w)[:160])


main(sys.argv[1:])
