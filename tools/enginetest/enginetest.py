"""Engine against CPython: each function of styles.py, instrumented, on unknown characters of a small alphabet;
every value of every path must be what the plain function gives.  /opt/veriftools/pyvenv/bin/python enginetest.py"""
import importlib.util
import itertools
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
from sx import boot  # noqa: E402
boot.symbolic()
from sx import instrument, core as C, symstr as S, explore  # noqa: E402
import z3  # noqa: E402

ALPHA = [(32, 126), (0xE9, 0xEA), (0xD800, 0xD800), (0x1F600, 0x1F600), (9, 10)]
SMALL = [(32, 34), (39, 39), (44, 45), (48, 49), (92, 92), (95, 95), (97, 99), (109, 110), (65, 65), (120, 122), (0xE9, 0xE9), (0xD800, 0xD800)]


def plain():
    spec = importlib.util.spec_from_file_location("styles_plain", os.path.join(HERE, "styles.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def instr():
    p = os.path.join(HERE, "styles.py")
    m = type(sys)("styles")
    m.__file__ = p
    exec(instrument.transform(open(p).read(), p, "styles", True), m.__dict__)
    return m


def run(f, s):
    try:
        return ("v", f(s))
    except Exception as ex:
        return ("x", type(ex).__name__)


def conc(x, asg):
    """Value of a symbolic result under an assignment {var name: int}."""
    if isinstance(x, C.SymInt):
        e = z3.simplify(z3.substitute(x.z(), *[(v.z, z3.IntVal(asg[v.name])) for v in x.allvars()]))
        return e.as_long()
    if isinstance(x, C.SymBool):
        e = z3.simplify(z3.substitute(x.z(), *[(v.z, z3.IntVal(asg[v.name])) for v in x.allvars()]))
        return z3.is_true(e)
    if isinstance(x, S.SymStr):
        return "".join(chr(conc(e, asg)) if not isinstance(e, int) else chr(e) for e in x.el)
    if isinstance(x, (list, tuple)):
        return type(x)(conc(y, asg) for y in x)
    if isinstance(x, dict):
        return {conc(k, asg): conc(v, asg) for k, v in x.items()}
    return x


def paths(f, n):
    alpha = ALPHA if n == 1 else SMALL
    work = [()]
    while work:
        P = C.Path(work.pop())
        C.CUR = P
        try:
            vs = [P.new_var("x%d" % i, tuple(sorted(alpha)), "char") for i in range(n)]
            r = run(f, S.mk([C.SymInt(v=v) for v in vs]))
            yield P, vs, r
        except C.Infeasible:
            pass
        work.extend(P.pending)
        C.CUR = None


def main():
    pm, im = plain(), instr()
    bad = 0
    for (f, n), (g, _) in zip(pm.FUNCS, im.FUNCS):
        seen, np, inc = 0, 0, 0
        chars = [c for lo, hi in (ALPHA if n == 1 else SMALL) for c in range(lo, hi + 1)]
        for P, vs, r in paths(g, n):
            np += 1
            if P.incomplete:
                inc += 1
                continue
            doms = [[c for c in chars if any(lo <= c <= hi for lo, hi in P.dom[v])] for v in vs]
            for t in itertools.product(*doms):
                asg = {v.name: c for v, c in zip(vs, t)}
                if P.gens:
                    e = z3.simplify(z3.substitute(z3.And(P.gens), *[(v.z, z3.IntVal(asg[v.name])) for v in vs]))
                    if not z3.is_true(e):
                        continue
                seen += 1
                w = run(f, "".join(map(chr, t)))
                try:
                    C.CUR = P
                    h = (r[0], conc(r[1], asg))
                except Exception as ex:
                    h = ("?", repr(ex), r)
                finally:
                    C.CUR = None
                if w != h:
                    bad += 1
                    if bad < 20:
                        print("DIFF", f.__name__, [chr(c) for c in t], "plain", w, "engine", h)
        total = len(chars) ** n
        note = "" if inc or seen == total else " COVER %d of %d" % (seen, total)
        bad += bool(note)
        print("%-10s paths %4d  values %7d%s%s" % (f.__name__, np, seen, " incomplete %d" % inc if inc else "", note))
    print("bad", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
