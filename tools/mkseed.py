#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID..]: build planted bugs from a spec and keep those that qualify.

SPEC defines SEEDS, a list of dicts: id, prop, edits [(file, old, new)], demo (python text), needs, breaks.
A bug is kept in /verif/seeded/<id>/ when the changed copy builds, passes the existing tests, and the demo passes on
the unchanged and fails on the changed tree."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# run with cwd at the root of the repository
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONPATH=os.path.join(cwd, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **kw)


def one(s):
    d = os.path.join(VERIF, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seed_")
    w = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", w, symlinks=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, "src/fcsql", f)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                return "edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        diff = run(["git", "diff"], w).stdout
        if not diff:
            return "no diff"
        r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], w)
        if r.returncode:
            return "tests fail: " + r.stdout[-300:]
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        a = run(["bash", os.path.join(d, "demo.sh")], "/repo")
        b = run(["bash", os.path.join(d, "demo.sh")], w)
        if a.returncode != 0 or b.returncode == 0:
            shutil.rmtree(d)
            return "demo: unchanged %d %s, changed %d %s" % (a.returncode, a.stderr[-300:], b.returncode, b.stderr[-200:])
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        return "ok"
    finally:
        shutil.rmtree(tmp)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:]
    for s in seeds:
        if not ids or s["id"] in ids:
            print(s["id"], one(s), flush=True)


main()
