#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Holds for every value of the symbolic inputs within the bounds listed per case in the evidence (coverage.cases[].bounds) "
        "and DESIGN.md: all paths of the real code are enumerated, z3 decides that case splits partition their domains, which "
        "branches are feasible, and that no obligation can fail on a path; counterexamples are replayed on the uninstrumented code. "
        "Outside the bounds nothing is claimed. Trusted: the engine in sx/ (checked by replaying sampled path witnesses), z3, the "
        "models of builtins in sx/rt.py and sx/symstr.py, and the reference in fcsref/ and the cases.")
EXTRA = {"C12": " Additionally the lexer's and the parser's automata, regenerated from /repo, are compared with the reference "
                "lexer and grammar by z3 over all strings and token sequences up to a length (smt/c12.py)."}


def main():
    checks = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)["id"]
        note = NOTE
        if os.path.exists(os.path.join(HERE, "smt", p.lower() + ".py")):
            note += EXTRA.get(p, "")
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
                       "technique": "bounded symbolic execution of the real Python code, obligations decided by z3",
                       "level": "model_checking", "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo. Every check instruments /repo/src/fcsql as it is at the time of the run; see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
