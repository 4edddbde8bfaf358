#!/usr/bin/env python3
"""seeds.py gen|verify|catch [ID...]

gen:    write seeded/ID/{patch.diff,demo.sh,demo_test.go,meta.json} from seeds_list.py
verify: in a scratch copy of /repo: applies, builds, stable tests pass, the demo
        passes without and fails with the patch
catch:  run the property's check against the patched scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from seeds_list import SEEDS

DEMO = """#!/bin/bash
# exit 0: the property holds in this example; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test %(flags)s-vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 -timeout %(timeout)ds ./%(pkg)s
"""


def sh(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout


def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(d, "repo")
    sh(["cp", "-a", "/repo", r], "/tmp")
    sh("git checkout -q -- .", r)
    return d, r


def gen(seeds):
    d, r = scratch()
    try:
        for s in seeds:
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != 1:
                    sys.exit("%s: %d matches in %s of:\n%s" % (s["id"], t.count(old), f, old))
                open(p, "w").write(t.replace(old, new))
            sh("gofmt -l .", r)
            rc, diff = sh("git diff", r)
            sh("git checkout -q -- .", r)
            out = os.path.join(VERIF, "seeded", s["id"])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            pkg = s["pkg"]
            open(os.path.join(out, "demo.sh"), "w").write(DEMO % dict(pkg=pkg, flags="-race " if s.get("race") else "", timeout=s.get("timeout", 60)))
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "demo_test.go"), "w").write("package %s_test\n\n" % os.path.basename(pkg) + s["demo"].strip() + "\n")
            sh(["gofmt", "-w", os.path.join(out, "demo_test.go")], out)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            open(os.path.join(out, "meta.json"), "a").write("\n")
    finally:
        shutil.rmtree(d)


def tests(r):
    """Names of the stable tests that fail (go test -json, race)."""
    rc, out = sh(". /opt/vp/env.sh; go test -race -vet=off -count=1 -timeout 100s ./... 2>&1", r)
    return [l for l in out.splitlines() if l.startswith(("--- FAIL", "FAIL", "panic:", "WARNING: DATA RACE")) or "fatal error" in l]


def verify(seeds):
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(verify1, [[s] for s in seeds]))


def verify1(seeds):
    for s in seeds:
        d, r = scratch()
        try:
            demo = os.path.join(d, "demo")
            shutil.copytree(os.path.join(VERIF, "seeded", s["id"]), demo)
            ok = []
            for i in range(3):
                rc, out = sh([os.path.join(demo, "demo.sh")], r)
                if rc:
                    print(s["id"], "DEMO FAILS ON CLEAN TREE\n" + out[-1500:])
                ok.append(rc == 0)
            rc, out = sh(["git", "apply", os.path.join(demo, "patch.diff")], r)
            if rc:
                print(s["id"], "DOES NOT APPLY", out)
                continue
            rc, out = sh(". /opt/vp/env.sh; go build ./... ", r)
            if rc:
                print(s["id"], "DOES NOT BUILD", out[-1500:])
                continue
            bad = []
            fails = []
            for i in range(3):
                rc, out = sh([os.path.join(demo, "demo.sh")], r)
                fails.append(rc != 0)
                if not rc:
                    print(s["id"], "DEMO PASSES WITH PATCH\n" + out[-500:])
            for i in range(3):
                bad += tests(r)
            print(s["id"], "clean", ok, "patched", fails, "tests", sorted(set(bad))[:6] or "pass", flush=True)
            if "-v" in sys.argv:
                print(out[-1500:])
        finally:
            shutil.rmtree(d)


def catch(seeds):
    for s in seeds:
        d, r = scratch()
        try:
            rc, out = sh(["git", "apply", os.path.join(VERIF, "seeded", s["id"], "patch.diff")], r)
            res = []
            for prop in [s["property"]] + s.get("also", []):
                rc, out = sh(["python3", os.path.join(VERIF, "check.py"), prop], VERIF, env=dict(os.environ, VERIF_REPO=r))
                msg = [l for l in out.splitlines() if l and not l.startswith(("VIOLATION", "  case"))]
                res.append("%s rc=%d %s" % (prop, rc, (msg[0] if msg else "")[:150]))
            print(s["id"], " | ".join(res), flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    what = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    seeds = [s for s in SEEDS if not ids or s["id"] in ids or any(s["id"].startswith(i) for i in ids)]
    {"gen": gen, "verify": verify, "catch": catch}[what](seeds)
