"""Run all cases of one property over a pool of worker processes."""
import collections
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import select
import subprocess
import sys
import time

from . import boot

CONC_PY = "/opt/venv/bin/python"


CONC_SECONDS = 60


class Conc:
    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([CONC_PY, os.path.join(boot.VERIF, "sx", "conc.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, env=env, cwd=boot.VERIF)

    def run(self, case_id, asg):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps({"prop": self.prop, "case": case_id, "asg": asg}) + "\n")
        self.p.stdin.flush()
        ready, _, _ = select.select([self.p.stdout], [], [], CONC_SECONDS)
        if not ready:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {"failed": ["does not finish within %d s" % CONC_SECONDS], "skip": False, "shown": {"timeout": True},
                    "error": None, "checks": 1}
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("concrete runner died on %s %s" % (case_id, asg))
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


def worker(conn, prop, cases):
    from . import explore
    import sys as _s
    _s.setrecursionlimit(6000)
    conc = Conc(prop)
    while True:
        msg = conn.recv()
        if msg is None:
            break
        ci, prefixes, budget, every, wmax = msg
        case = cases[ci]
        try:
            r = explore.run_case(case, prefixes, budget, sample_every=every)
            conf, spur, val, valbad = [], [], 0, []
            for c in r["cands"]:
                hit = None
                last = None
                for asg in c["asgs"]:
                    res = conc.run(case.id, asg)
                    last = (asg, res)
                    if res["failed"] and not res["skip"]:
                        hit = {"asg": asg, "failed": res["failed"], "shown": res["shown"]}
                        break
                if hit:
                    conf.append(hit)
                elif c.get("slow"):
                    pass  # slow under symbolic execution only; counted as incomplete
                else:
                    spur.append({"asg": last[0], "symbolic_failed": c["failed"], "incomplete": c["incomplete"],
                                 "concrete": last[1]})
            samples = []
            for w in r["witnesses"][:wmax]:
                res = conc.run(case.id, w)
                if res["failed"] and not res["skip"]:
                    valbad.append({"asg": w, "failed": res["failed"], "shown": res["shown"]})
                elif not res["skip"]:
                    val += 1
                    if len(samples) < 2:
                        samples.append({"asg": w, "shown": res["shown"]})
            kn = []
            for kid, (desc, w) in r["knowns"].items():
                res = conc.run(case.id, w)
                kn.append((kid, desc, w, kid in res["shown"].get("known", []), res))
            out = {"ok": True, "stats": r["stats"], "rest": r["rest"], "confirmed": conf, "spurious": spur,
                   "validated": val, "valbad": valbad, "samples": samples, "knowns": kn, "errors": r["errors"]}
        except BaseException as ex:
            import traceback
            out = {"ok": False, "error": "".join(traceback.format_exception(ex))[-3000:]}
        conn.send((ci, out))
    conc.close()


def run_property(prop, tier, budget, nproc=None, only=None, verbose=False):
    boot.symbolic()
    reg = boot.load_cases(prop)
    cases = [c for c in reg.values() if c.prop == prop and (tier == "thorough" or c.tier == "quick")
             and (only is None or only in c.name)]
    cases.sort(key=lambda c: -c.weight)
    from . import core
    nproc = nproc or int(os.environ.get("SX_PROCS", "0")) or (os.cpu_count() or 4)
    t0 = time.time()
    ctx = mp.get_context("fork")
    workers = []
    for _ in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, prop, cases), daemon=True)
        p.start()
        b.close()
        workers.append([a, p, False, 0])
    stats = {c.id: core.Stats() for c in cases}
    info = {c.id: {"confirmed": [], "spurious": [], "valbad": [], "validated": 0, "samples": [], "errors": [],
                   "complete": True} for c in cases}
    queue = collections.deque((i, [()], 0.4) for i in range(len(cases)))
    inflight = 0
    knowns = {}
    stop = False
    engine_errors = []
    wits = {c.id: 0 for c in cases}
    conns = {w[0]: w for w in workers}
    n_open = collections.Counter(i for i, _, _ in queue)
    while queue or inflight:
        if time.time() - t0 > budget:
            stop = True
        if not stop:
            for w in workers:
                if not w[2] and queue:
                    i, pre, b = queue.popleft()
                    left = budget - (time.time() - t0)
                    wmax = 6 if wits[cases[i].id] < 40 else (1 if wits[cases[i].id] < 400 else 0)
                    w[0].send((i, pre, max(0.05, min(b, left)), 40, wmax))
                    w[2], w[3] = True, i
                    inflight += 1
        if inflight == 0:
            break
        for conn in mpc.wait([w[0] for w in workers if w[2]], timeout=1.0):
            w = conns[conn]
            try:
                i, out = conn.recv()
            except EOFError:
                engine_errors.append("worker died (exit %s) in %s" % (w[1].exitcode, cases[w[3]].id))
                info[cases[w[3]].id]["complete"] = False
                w[2] = False
                inflight -= 1
                workers.remove(w)
                if not workers:
                    stop = True
                continue
            w[2] = False
            inflight -= 1
            cid = cases[i].id
            if not out["ok"]:
                engine_errors.append(cid + ": " + out["error"])
                info[cid]["complete"] = False
                continue
            stats[cid].add(out["stats"])
            for k in ("confirmed", "spurious", "valbad", "samples", "errors"):
                info[cid][k].extend(out[k])
            info[cid]["validated"] += out["validated"]
            wits[cid] += out["validated"]
            for kid, desc, asg, rep, res in out["knowns"]:
                if kid not in knowns or (rep and not knowns[kid]["reproduced"]):
                    knowns[kid] = {"desc": desc, "asg": asg, "reproduced": rep, "case": cid, "concrete": res}
            if out["confirmed"] or out["valbad"]:
                stop = True
            rest = out["rest"]
            if rest and not (out["confirmed"] or out["valbad"]):
                if len(info[cid]["spurious"]) > 30:
                    info[cid]["complete"] = False
                    continue
                idle = sum(1 for x in workers if not x[2])
                k = max(1, min(len(rest), max(1, idle + nproc // 2 - len(queue))))
                chunks = [rest[j::k] for j in range(k)]
                for ch in chunks:
                    queue.append((i, ch, 1.5))
            elif rest:
                info[cid]["complete"] = False
    if stop:
        for i, _, _ in queue:
            info[cases[i].id]["complete"] = False
    for w in workers:
        try:
            w[0].send(None)
        except Exception:
            pass
    for w in workers:
        w[1].join(3)
        if w[1].is_alive():
            w[1].terminate()
    return {"cases": cases, "stats": stats, "info": info, "knowns": knowns, "engine_errors": engine_errors,
            "wall": time.time() - t0, "nproc": nproc}
