#!/usr/bin/env python3
"""mutate.py FILES... [-j N] [-rare]: apply every small change mutate lists for the
given files of /repo to a scratch copy; for those that build and pass the
existing tests (-rare: changes that take effect only now and then), run the checks of the package until one notices. Results go to
/tmp/mutants.jsonl (resumable); survivors are to be judged by hand."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("MUTANTS", "/tmp/mutants.jsonl")
RARE = """

var rareN uint64

// Not atomic, not to order anything; every 97th call or so.
//go:norace
//go:noinline
func rareVerif() bool {
	rareN++
	return rareN%97 == 0
}

//go:norace
//go:noinline
func rareIntVerif() int {
	if rareVerif() {
		return 1
	}
	return 0
}
"""
CHECKS = {
    "xbarrier": "C09 C14 C30", "xbinary": "C16 C17 C15", "xbytes": "C15 C16", "xerror": "C24 C11 C07", "xio": "C18", "xmapreduce": "C13 C14 C30",
    "xmath": "C26 C27", "xonce": "C08 C30", "xring": "C19 C30", "xstream": "C20 C21 C22 C23 C30", "xstring/stringjoiner": "C25 C24", "xstring": "C27 C28 C29",
    "internal": "C27 C28 C29", "xsync/resourcemanager": "C06 C07 C30", "xsync/shared_map": "C03 C02 C01 C04 C30", "xsync/map": "C01 C03 C02 C04 C30",
    "xsync/spinlock": "C05 C30", "xtask/do": "C10 C12 C30", "xtask/retry": "C11", "xworker": "C12 C13 C14 C30",
}


def checks(f):
    best = max((k for k in CHECKS if f.startswith(k)), key=len)
    return CHECKS[best].split()


def sh(cmd, cwd, env=None, limit=120, mem=6 << 20):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    out = []
    th = threading.Thread(target=lambda: out.append(p.stdout.read(4 << 20)))
    th.start()
    t0 = time.time()
    note = None
    while p.poll() is None:
        rss = 0
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    st = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
                    if int(st[3]) == p.pid:
                        rss += int(st[21]) * 4
                except (OSError, IndexError):
                    pass
        if time.time() - t0 > limit or rss > mem or (not th.is_alive() and out and len(out[0]) >= 4 << 20):
            note = "time" if rss <= mem else "memory"
            break
        time.sleep(0.1)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    th.join()
    return (p.returncode if note is None else 124), (out[0].decode("utf-8", "replace") if out else "")


def scratch():
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"))
    return d


def main():
    args = sys.argv[1:]
    jobs = 2
    if "-j" in args:
        i = args.index("-j")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    rare = "-rare" in args
    if rare:
        args.remove("-rare")
    tool = "/tmp/mutate.bin"
    subprocess.check_call(["bash", "-c", ". /opt/vp/env.sh; GOFLAGS=-mod=mod go build -o %s ." % tool], cwd=VERIF + "/tools/mutate")
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            m = json.loads(l)
            done.add((m["file"], m["off"], m["end"], m["new"]))
    todo = []
    for f in args:
        for l in subprocess.run([tool] + ["-rare"] * rare + [f], cwd="/repo", stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
            m = json.loads(l)
            k = (m["file"], m["off"], m["end"], m["new"])
            if k not in done:
                done.add(k)
                todo.append(m)
    print(len(todo), "changes", flush=True)
    lock = threading.Lock()
    pool = []

    def one(m):
        with lock:
            d = pool.pop() if pool else scratch()
        r = d + "/repo"
        p = os.path.join(r, m["file"])
        src = open(os.path.join("/repo", m["file"]), "rb").read()
        m["old"] = src[m["off"]:m["end"]].decode("utf-8", "replace")
        open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        helper = os.path.join(os.path.dirname(p), "zz_rare.go")
        if rare:
            package = [l for l in src.decode().splitlines() if l.startswith("package ")][0]
            open(helper, "w").write(package + RARE)
        try:
            rc, out = sh(". /opt/vp/env.sh; go build ./...", r)
            if rc:
                m["result"] = "nobuild"
            else:
                rc, out = sh(". /opt/vp/env.sh; go test -vet=off -race -timeout 50s ./... 2>&1", r)
                if rc:
                    m["result"] = "tests"
                else:
                    m["result"] = "SURVIVED"
                    m["checks"] = []
                    for c in checks(m["file"]):
                        rc, out = sh(["python3", VERIF + "/check.py", c], VERIF, env=dict(os.environ, VERIF_REPO=r), limit=900, mem=20 << 20)
                        if rc == 1:
                            msg = [l for l in out.splitlines() if l]
                            m["result"] = "caught"
                            m["checks"].append(c + ": " + (msg[0] if msg else "")[:200])
                            break
                        m["checks"].append("%s rc=%d" % (c, rc))
        finally:
            open(p, "wb").write(src)
            if rare:
                os.remove(helper)
            with lock:
                pool.append(d)
                open(OUT, "a").write(json.dumps(m) + "\n")
        if m["result"] in ("SURVIVED",):
            print("%s:%d %s\n   - %s\n   + %s   %s" % (m["file"], m["line"], m["what"], m["old"].replace("\n", "\n     "), m["new"].replace("\n", "\n     "), m["checks"]), flush=True)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    for d in pool:
        shutil.rmtree(d)
    n = {}
    for l in open(OUT):
        m = json.loads(l)
        n[m["result"]] = n.get(m["result"], 0) + 1
    print(n)


if __name__ == "__main__":
    main()
