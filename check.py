#!/usr/bin/env python3
"""check.py PROPERTY: build /repo's working tree with the race detector and
scheduling noise, run the workload and monitors of one property, judge what was
observed, and write evidence/PROPERTY.json.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: it is broken.
Exit 4: inconclusive. Exit 3: the tree does not build.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.27.3/bin"
SYNC = "golang.org/x/sync@v0.0.0-20220513210516-0976fa681c29"
MEM_LIMIT_KB = 16 << 20


def go_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = GO + ":" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", CGO_ENABLED="1", GOWORK="off")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(tmp, env):
    """Build the harness against an instrumented overlay of REPO; plain if that
    does not compile. Returns (binary, instrumented points, note)."""
    instr = os.path.join(tmp, "instr")
    rc, out = run(["go", "build", "-o", instr, "."], os.path.join(VERIF, "instr"), env)
    if rc:
        return None, 0, "the instrumenter does not build:\n" + out
    mod = os.path.join(tmp, "mod")
    os.mkdir(mod)
    text = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), mod)
    plain = text
    notes = ""
    sync = os.path.join(tmp, "sync")
    src = os.path.join(env["GOMODCACHE"], SYNC)
    binary = os.path.join(tmp, "verifh")
    for mode in ("full", "repo", "none"):
        ov = os.path.join(tmp, "ov-%s.json" % mode)
        ids = os.path.join(tmp, "ids-" + mode)
        open(ids, "w").close()
        text = plain
        points = 0
        if mode == "full" and os.path.isdir(src):
            shutil.copytree(src, sync)
            run(["chmod", "-R", "u+w", sync], tmp, env)
            for f in glob.glob(sync + "/**/*_test.go", recursive=True):
                os.remove(f)
            rc, out = run([instr, "-root", sync, "-out", sync, "-ids", ids, "-base", "2000", "-skip", "errgroup,semaphore,syncmap"], tmp, env)
            if rc == 0:
                text = plain + "\nreplace golang.org/x/sync => %s\n" % sync
            else:
                notes += out
        cmd = [instr, "-root", REPO, "-out", os.path.join(tmp, "src-" + mode), "-ids", ids, "-rt", os.path.join(VERIF, "verifrt", "rt.go"),
               "-overlay", ov, "-skip", "xstring,xmath,internal"]
        if mode == "none":
            cmd.append("-none")
        rc, out = run(cmd, tmp, env)
        if rc:
            notes += out
            continue
        points = sum(1 for _ in open(ids))
        open(os.path.join(mod, "go.mod"), "w").write(text)
        rc, out = run(["go", "build", "-race", "-modfile", os.path.join(mod, "go.mod"), "-overlay", ov, "-o", binary, "."],
                      os.path.join(VERIF, "harness"), env)
        if rc == 0:
            return binary, points, mode
        notes += "build (%s):\n%s\n" % (mode, out)
    return None, 0, notes


def watch(ps, limit):
    """Wait for all of ps; stop them when one fails or exceeds a limit. Returns
    for each None, "memory", "time" or "stopped"."""
    t0 = time.time()
    why = [None] * len(ps)
    while any(p.poll() is None for p in ps):
        bad = any(p.poll() not in (None, 0, 4) for p in ps)
        late = time.time() - t0 > limit
        for i, p in enumerate(ps):
            if p.poll() is not None:
                continue
            if bad:
                why[i] = "stopped"
                p.kill()
                p.wait()
                continue
            try:
                for l in open("/proc/%d/status" % p.pid):
                    if l.startswith("VmRSS:") and int(l.split()[1]) > MEM_LIMIT_KB:
                        why[i] = "memory"
                        p.kill()
                        p.wait()
                        bad = True
            except OSError:
                pass
            if late and p.poll() is None:
                why[i] = "time"
                p.send_signal(signal.SIGQUIT)  # goroutine dump
                try:
                    p.wait(timeout=10)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
        time.sleep(0.05)
    return why


def tail(path, n=60000):
    with open(path, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - n))
        return f.read().decode("utf-8", "replace")


def race_reports(prefix):
    reports = []
    for f in sorted(glob.glob(prefix + "*")):
        for blk in open(f, errors="replace").read().split("=================="):
            if "DATA RACE" in blk:
                reports.append(blk.strip())
    uniq = {}
    for r in reports:
        frames = re.findall(r"^  (\S+?)\(", r, re.M)[:8]
        uniq.setdefault("|".join(frames), r)
    return len(reports), uniq


def main():
    if len(sys.argv) != 2 or not re.fullmatch(r"C\d\d|--warm", sys.argv[1]):
        sys.exit("usage: check.py PROPERTY")
    prop = sys.argv[1]
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    env = go_env()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        binary, points, mode = build(tmp, env)
        if binary is None:
            print(mode)
            print("the tree does not build")
            return 3
        if prop == "--warm":
            print("built with %d noise points (%s)" % (points, mode))
            return 0
        return decide(prop, tier, seed, env, tmp, binary, points, mode, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, env, tmp, binary, points, mode, t0):
    known_file = os.path.join(VERIF, "known_findings.json")
    known = [e for e in json.load(open(known_file))["findings"] if e.get("property") == prop]
    built = time.time() - t0
    shards = 3 if tier == "quick" else 6
    limit = 780 - built if tier == "quick" else 4 * 3600
    ps, outs, logs, races = [], [], [], []
    for i in range(shards):
        d = os.path.join(tmp, "shard%d" % i)
        os.mkdir(d)
        outs.append(os.path.join(d, "out.json"))
        logs.append(os.path.join(d, "log"))
        races.append(os.path.join(d, "race"))
        e = dict(env, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_OUT=outs[i], VERIF_SHARD=str(i), VERIF_PERCENT="45",
                 VERIF_KNOWN="\n".join(e["sig"] for e in known),
                 GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + races[i], GOTRACEBACK="all", TMPDIR=d)
        e.pop("GOMAXPROCS", None)
        with open(logs[i], "wb") as lf:
            ps.append(subprocess.Popen([binary, prop], cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT))
    why = watch(ps, limit)
    res = {"evaluations": 0, "rule": "", "samples": [], "counters": {}, "known_hit": {}}
    keys = set()
    vios = []
    nraces = 0
    uniq = {}
    inconclusive = []
    text = ""
    for i, p in enumerate(ps):
        r = None
        if os.path.exists(outs[i]):
            try:
                r = json.load(open(outs[i]))
            except ValueError:
                pass
        if r:
            res["evaluations"] += r["evaluations"]
            res["rule"] = r["rule"]
            res["samples"] += (r.get("samples") or [])[:2]
            for k, v in r["counters"].items():
                if k == "noise_points_hit":
                    res["counters"][k] = max(v, res["counters"].get(k, 0))
                else:
                    res["counters"][k] = res["counters"].get(k, 0) + v
            res["known_hit"].update(r.get("known_hit") or {})
            if os.path.exists(outs[i] + ".keys"):
                b = open(outs[i] + ".keys", "rb").read()
                keys.update(b[k:k + 8] for k in range(0, len(b), 8))
            if r.get("violation"):
                vios.append(dict(r["violation"], kind="monitor", shard=i))
        n, u = race_reports(races[i])
        nraces += n
        uniq.update(u)
        rc = p.returncode
        if why[i] == "memory":
            vios.append({"kind": "memory", "sig": "memory", "msg": "the run grew beyond %d GB" % (MEM_LIMIT_KB >> 20)})
        elif why[i] == "time":
            inconclusive.append("time limit")
        elif why[i] is None and rc not in (0, 1, 4):
            full = open(logs[i], errors="replace").read()
            m = re.search(r"^(panic: .*|fatal error: .*|runtime: .*|SIG[A-Z]+: .*|unexpected fault.*)$", full, re.M)
            if m:
                k = full.find(m.group(1))
                vios.append({"kind": "crash", "sig": "crash", "msg": "the process crashed: " + m.group(1)[:300], "detail": full[k:k + 20000]})
            else:
                inconclusive.append("exit %d" % rc)
        elif why[i] is None and (rc == 4 or r is None):
            inconclusive.append("exit %d" % rc)
        if why[i] != "stopped" and (rc != 0 or not text):
            text = tail(logs[i])
    if uniq:
        vios.append({"kind": "race detector", "sig": "data-race", "msg": "%d data race reports, %d distinct" % (nraces, len(uniq)),
                     "detail": list(uniq.values())[:5]})
    summary = dict(
        property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=len(vios),
        assumptions=["held on the executions observed; nothing is claimed of paths and schedules the workload did not produce",
                     "the Go race detector reports races it observes through happens-before tracking of the last accesses"],
        coverage=dict(
            evaluations=res["evaluations"], distinct_nontrivial=len(keys), rule=res["rule"] or "no result",
            samples=res["samples"], counters=res["counters"], processes=shards,
            noise_points_in_build=points, build=mode, race_reports=nraces, build_s=round(built, 2)))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(summary, f, indent=1)
        f.write("\n")
    for msg in res["known_hit"].values():
        print("KNOWN-FINDING: property=%s %s" % (prop, msg.replace("\n", " ")[:300]))
    if vios:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, rerun="VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (seed, tier, prop),
                           violations=vios, log=text[-20000:]), f, indent=1)
            f.write("\n")
        for v in vios:
            print("%s: %s" % (v["kind"], str(v.get("msg"))[:600]))
            if v.get("case"):
                print("  case: " + str(v["case"])[:400])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inconclusive:
        print(text[-4000:])
        print("INCONCLUSIVE: " + ", ".join(inconclusive))
        return 4
    print("%s held: %d evaluations, %d distinct, %.1f s" % (prop, res["evaluations"], len(keys), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
