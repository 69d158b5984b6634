#!/usr/bin/env python3
"""runseeds.py [-j N] [ID..]: run the quick check of each planted bug's property against a changed copy of /repo."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i, props=None):
    d = os.path.join(VERIF, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        w = os.path.join(tmp, "repo")
        v = os.path.join(tmp, "verif")
        shutil.copytree("/repo", w, symlinks=True)
        shutil.copytree(VERIF, v, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, capture_output=True, text=True)
        if r.returncode:
            return i, "patch: " + r.stderr
        out = []
        for p in props or [meta["property"]]:
            r = subprocess.run([sys.executable, "check.py", p, "--tier", "quick", "--procs", PROCS], cwd=v, capture_output=True, text=True,
                               env=dict(os.environ, SX_REPO=w))
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            rest = [l for l in r.stdout.splitlines() if l.startswith("  case")]
            wall = r.stdout.rsplit("wall", 1)[-1].strip()
            ok = r.returncode == 1 and viol
            out.append("%s %s %s %s" % (p, "CAUGHT" if ok else "MISSED rc=%d" % r.returncode, wall,
                                        (rest[0].strip()[:160] if rest else "") if ok else (r.stdout + r.stderr)[-400:]))
        return i, " || ".join(out)
    finally:
        shutil.rmtree(tmp)


args = sys.argv[1:]
PROCS, J = "2", 4
props = None
while args and args[0].startswith("-"):
    if args[0] == "-j":
        J = int(args[1])
        args = args[2:]
    elif args[0] == "-p":
        PROCS = args[1]
        args = args[2:]
    elif args[0] == "-props":
        props = args[1].split(",")
        args = args[2:]
ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
with cf.ThreadPoolExecutor(J) as ex:
    for i, r in ex.map(lambda x: one(x, props), ids):
        print(i, r, flush=True)
