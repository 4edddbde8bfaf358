#!/usr/bin/env python3
"""regress.py [SHA...]: undo each fix commit alone in a scratch copy of /repo and run its property's check."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


for line in open(os.path.join(VERIF, "tools", "fixed.txt")):
    m = re.match(r"fixed: property=(C\d\d) ([0-9a-f]+)", line)
    if not m or sys.argv[1:] and m.group(2) not in sys.argv[1:]:
        continue
    prop, sha = m.groups()
    d = tempfile.mkdtemp(prefix="regress-", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        sh(["cp", "-a", "/repo", r], "/tmp")
        sh(["git", "checkout", "-q", "--", "."], r)
        rc, out = sh(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", sha], r)
        if rc:
            print(prop, sha, "cannot be reverted alone")
            continue
        rc, out = sh(["python3", os.path.join(VERIF, "check.py"), prop], VERIF, env=dict(os.environ, VERIF_REPO=r))
        print(prop, sha, "rc=%d" % rc, out.splitlines()[0][:160] if out else "", flush=True)
    finally:
        shutil.rmtree(d)
