#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--budget S] [--only NAME]

Decides one property by bounded symbolic execution of the real code (see
DESIGN.md). Exit 0: held on everything explored. Exit 1: VIOLATION line(s)."""
import argparse
import hashlib
import json
import os
import sys
import time

VT = "/opt/veriftools/pyvenv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    if os.environ.get("SX_READY") == "1":
        return
    env = dict(os.environ, SX_READY="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    py = VT if os.path.exists(VT) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


def known_file():
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=C08 id=<kid> <what fails>
                parts = line[len("finding:"):].strip().split(None, 2)
                out[(parts[0].split("=", 1)[1], parts[1].split("=", 1)[1])] = parts[2]
    return out


def selftest():
    """Set-up check: the tools are there and the engine decides a small obligation both ways."""
    sys.path.insert(0, HERE)
    from sx import boot
    boot.symbolic()
    from sx import explore
    from sx.ctx import Case
    import fcsql.parser

    def good(c):
        s = c.chars("s", 2)
        c.check(c.eq(fcsql.parser.ExpressionTreeBuilder.stripQuotes('"' + s + '"'), s), "x")

    def bad(c):
        s = c.chars("s", 2)
        c.check(c.eq(fcsql.parser.ExpressionTreeBuilder.stripQuotes('"' + s + '"'), s[:1] + "b"), "x")
    r1 = explore.run_case(Case("S", "good", good, "", "quick", 1), [()], 60)
    r2 = explore.run_case(Case("S", "bad", bad, "", "quick", 1), [()], 60)
    ok = not r1["cands"] and r1["stats"]["paths"] > 0 and bool(r2["cands"])
    print("selftest", "ok" if ok else "FAILED")
    return 0 if ok else 1


def main():
    if sys.argv[1:] == ["--selftest"]:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--procs", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from sx import runner
    prop = a.prop
    budget = a.budget or (240 if a.tier == "quick" else 3000)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        res = runner.run_property(prop, a.tier, budget, nproc=a.procs, only=a.only, verbose=a.v)
    except Exception:
        import traceback
        print("ENGINE-ERROR " + traceback.format_exc()[-2000:])
        return 2
    extra = None
    try:
        import importlib
        mod = importlib.import_module("smt." + prop.lower())
    except ModuleNotFoundError as ex:
        if ex.name not in ("smt", "smt." + prop.lower()):
            raise
        mod = None
    if mod is not None and a.only is None:
        extra = mod.run(a.tier)
    known = known_file()
    lines = []
    violations = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for c in res["cases"]:
        inf = res["info"][c.id]
        for kind in ("confirmed", "valbad"):
            for v in inf[kind][:3]:
                violations += 1
                if violations > 5:
                    continue
                blob = json.dumps({"property": prop, "case": c.id, "assignment": v["asg"], "failed": v["failed"],
                                   "shown": v["shown"], "how": "python3 /verif/replay.py <this file>",
                                   "found_by": "solver counterexample, replayed on the real code" if kind == "confirmed"
                                   else "concrete witness of a path"}, indent=1)
                path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
                with open(path, "w") as fh:
                    fh.write(blob)
                lines.append("VIOLATION property=%s replay=%s" % (prop, path))
                lines.append("  case %s: %s  input %s" % (c.id, "; ".join(v["failed"][:2]),
                                                           json.dumps(v["shown"])[:400]))
    if extra:
        for v in extra.get("violations", []):
            violations += 1
            blob = json.dumps(dict(v, property=prop), indent=1)
            path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
            with open(path, "w") as fh:
                fh.write(blob)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            lines.append("  " + str(v.get("what"))[:500])
    spurious = []
    for c in res["cases"]:
        for s in res["info"][c.id]["spurious"]:
            spurious.append((c.id, s))
    problems = list(res["engine_errors"])
    for kid, k in sorted(res["knowns"].items()):
        if not k["reproduced"]:
            problems.append("known finding %s not reproduced concretely: %s" % (kid, k))
            continue
        if (prop, kid) in known:
            lines.append("KNOWN-FINDING: property=%s %s (e.g. %s)" % (prop, known[(prop, kid)],
                                                                     json.dumps(k["concrete"]["shown"])[:300]))
        else:
            violations += 1
            path = os.path.join(rdir, "%s-known-%s.json" % (prop, kid))
            with open(path, "w") as fh:
                json.dump({"property": prop, "case": k["case"], "assignment": k["asg"], "what": k["desc"]}, fh)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            lines.append("  " + k["desc"])
    for l in lines:
        print(l)
    write_evidence(prop, a.tier, seed, res, extra, violations, spurious, time.time() - t0,
                   problems + [str(p) for p in (extra or {}).get("problems", [])])
    if a.v or a.only:
        for c in res["cases"]:
            s = res["stats"][c.id].dump()
            print("%-34s paths=%d dec=%d forks=%d qs=%d qb=%d qf=%d fold=%d obl=%d inc=%d unk=%d solver=%.1fs val=%d %s %s" % (
                c.name, s["paths"], s["decisions"], s["forks"], s["queries_split"], s["queries_branch"], s["queries_final"], s["folded"],
                s["obligations"], s["incomplete"], s["unknown"], s["solver_s"], res["info"][c.id]["validated"],
                "complete" if res["info"][c.id]["complete"] else "PARTIAL", s["reasons"] or ""))
            for e in res["info"][c.id]["errors"][:1]:
                print("   case error:", e[-1500:])
        for cid, s in spurious[:5]:
            print("SPURIOUS", cid, json.dumps(s)[:1500])
    print("property %s tier %s: %d cases, %d paths, wall %.1fs" % (
        prop, a.tier, len(res["cases"]), sum(s.paths for s in res["stats"].values()), time.time() - t0))
    if violations:
        return 1
    problems += [str(p) for p in (extra or {}).get("problems", [])]
    if problems:
        explored = sum(s.paths for s in res["stats"].values())
        for p in problems[:3]:
            print(("UNDECIDED: part of the exploration failed (evidence: exhaustive=false): " if explored else "ENGINE-ERROR ") + p)
        if not explored:
            return 2
    if spurious:
        # no concrete failure, so no violation; the path counts as undecided (evidence: spurious_counterexamples)
        print("UNDECIDED: a symbolic counterexample did not reproduce: %s %s" % (spurious[0][0], json.dumps(spurious[0][1])[:800]))
    return 0


def write_evidence(prop, tier, seed, res, extra, violations, spurious, wall, problems=()):
    tot = {}
    funcs = set()
    reasons = {}
    solver = 0.0
    per = []
    for c in res["cases"]:
        s = res["stats"][c.id].dump()
        for k, v in s.items():
            if isinstance(v, int):
                tot[k] = tot.get(k, 0) + v
        funcs |= s["functions"]
        solver += s["solver_s"]
        for k, v in s["reasons"].items():
            reasons[k] = reasons.get(k, 0) + v
        per.append({"case": c.name, "bounds": c.bounds, "paths": s["paths"], "obligations": s["obligations"],
                    "exhausted": res["info"][c.id]["complete"], "paths_concretised_by_sampling": s["incomplete"]})
    validated = sum(res["info"][c.id]["validated"] for c in res["cases"])
    samples = []
    for c in res["cases"]:
        for s in res["info"][c.id]["samples"][:1]:
            samples.append({"case": c.name, "input": s["shown"] or s["asg"]})
    cov = {
        "states": tot.get("paths", 0),
        "transitions": tot.get("decisions", 0),
        "traces_validated_against_impl": validated,
        "samples": samples[:12] or ["none"],
        "explanation": "states = symbolic paths of the real code explored to the end, transitions = branch decisions on "
                       "them; each path stands for all inputs satisfying its condition. z3 shows that every case split "
                       "partitions the values it splits (cached per process), which branches are feasible, and that the "
                       "negated obligations of a path are unsatisfiable together with its condition; obligations that do "
                       "not mention a symbolic value fold to constants (counted separately)",
        "exhaustive": bool(per) and all(p["exhausted"] for p in per) and tot.get("incomplete", 0) == 0
        and not spurious and not problems,
        "cases": per,
        "obligations_checked": tot.get("obligations", 0),
        "paths_whose_obligations_folded_to_true": tot.get("folded", 0),
        "solver_queries_final": tot.get("queries_final", 0),
        "solver_queries_branch_feasibility": tot.get("queries_branch", 0),
        "solver_queries_partition_of_case_splits": tot.get("queries_split", 0),
        "solver_unknown": tot.get("unknown", 0),
        "solver_seconds": round(solver, 2),
        "paths_with_sampled_concretisation": tot.get("incomplete", 0),
        "concretisation_reasons": reasons,
        "spurious_counterexamples": len(spurious),
        "parts_not_decided": [str(p)[-400:] for p in problems[:10]],
        "functions_encoded": sorted(funcs),
        "processes": res["nproc"],
    }
    if extra:
        cov["smt_model"] = extra.get("evidence", {})
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
          "assumptions": [
              "bounds: see coverage.cases[].bounds; inputs outside them are not covered",
              "the ANTLR runtime runs unmodified except that its lexer simulator forks over sets of characters with the "
              "same automaton successor, and message formatting of symbolic text is uninterpreted",
              "unicodedata.normalize is the identity on code points below the form's first affected one and "
              "uninterpreted otherwise",
              "the reference in fcsref/ states the intended behaviour"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


if __name__ == "__main__":
    reexec()
    sys.exit(main())
