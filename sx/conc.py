"""Concrete replay server: runs cases on given assignments against the
unmodified code in /repo (no instrumentation, no patched runtime).
Protocol: one JSON object per line on stdin, one per line on stdout."""
import json
import os
import sys
import traceback

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sx import boot
    boot.concrete()
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import builtins
    from sx.ctx import ConcCtx, Skip
    reg = None
    for line in sys.stdin:
        req = json.loads(line)
        if reg is None:
            reg = boot.load_cases(req["prop"])
        case = reg[req["case"]]
        ctx = ConcCtx(req["asg"])
        res = {"failed": [], "skip": False}
        try:
            case.fn(ctx)
        except Skip:
            res["skip"] = True
        except Exception as ex:
            ctx.failed.append("case raised %s: %s" % (type(ex).__name__, str(ex)[:300]))
            res["tb"] = traceback.format_exc()[-1500:]
        res["failed"] = ctx.failed[:6]
        res["n_checks"] = ctx.n_checks
        res["shown"] = {k: (v if isinstance(v, (int, list)) else ascii(v)[:400]) for k, v in ctx.shown.items()}
        out.write(json.dumps(res) + "\n")
        out.flush()
