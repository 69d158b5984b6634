"""Symbolic execution of one case: depth-first enumeration of all paths by
re-execution, obligations decided by z3 at the end of each path."""
import signal
import time
import traceback

import z3
from . import core as C
from . import ranges as R
from .ctx import ANY, Skip, norm_ranges
from .symstr import SymStr, mk, concretise_any, els_of, Opaque, is_str, s_eq


class SymCtx:
    symbolic = True

    def __init__(self, path):
        self.p = path
        self.specials = []
        self.knowns = []
        self.shown = {}

    def char(self, name, dom=ANY):
        v = self.p.new_var(name, norm_ranges(dom), "char")
        return mk((C.sint(v),))

    def chars(self, name, n, dom=ANY):
        rs = norm_ranges(dom)
        return mk([C.sint(self.p.new_var("%s%d" % (name, i), rs, "char")) for i in range(n)])

    def int(self, name, lo, hi):
        return C.sint(self.p.new_var(name, ((lo, hi),), "int"))

    def bool(self, name):
        return bool(self.p.choose(name, 2))

    def choose(self, name, opts):
        opts = list(opts)
        return opts[self.p.choose(name, len(opts))]

    def assume(self, cond):
        if isinstance(cond, C.SymBool):
            if not bool(cond):
                raise Skip()
        elif not cond:
            raise Skip()

    def check(self, cond, msg):
        self.p.checks.append((cond, msg))

    def eq(self, a, b):
        if is_str(a) and is_str(b):
            ea, eb = els_of(a), els_of(b)
            if len(ea) == len(eb) and not any(isinstance(x, Opaque) for x in ea + eb):
                return raw_eq(ea, eb)
            return s_eq(a, b)
        if isinstance(a, (int, C.SymInt)) and isinstance(b, (int, C.SymInt)) and not (
                isinstance(a, bool) or isinstance(b, bool)):
            return C.i_eq(a, b)
        if isinstance(a, C.SymBool) or isinstance(b, C.SymBool):
            return C.b_iff(a, b)
        if type(a) in (list, tuple) and type(a) is type(b):
            if len(a) != len(b):
                return False
            return C.b_and([self.eq(x, y) for x, y in zip(a, b)])
        return a == b

    def all(self, conds):
        return C.b_and(list(conds))

    def show(self, name, value):
        self.shown[name] = value

    def special(self, s):
        """Code points worth trying first when a counterexample involves an uninterpreted function."""
        self.specials.append(s)

    def known(self, kid, desc):
        self.knowns.append((kid, desc))

    def no_merging(self):
        """For cases that watch the calls made: nothing is explored on the spot from here on."""
        self.p.nomerge = True

    def conc(self, x):
        return concretise_any(x)


SPECIAL_CPS = (0x301, 0x212B, 0x1E9B, 0x958, 0xFB01, 0x344, 0x1100, 0x1161, 0xC5, 0x323, 0x2F800)


def raw_eq(ea, eb):
    """Element-wise equality handed to the solver as it is (no folding of syntactically equal terms)."""
    terms, vs = [], set()
    for x, y in zip(ea, eb):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
            continue
        for t in (x, y):
            if isinstance(t, C.SymInt):
                vs.update(t.allvars())
        zx = z3.IntVal(x) if isinstance(x, int) else x.z()
        zy = z3.IntVal(y) if isinstance(y, int) else y.z()
        terms.append(zx == zy)
    if not terms:
        return True
    return C.SymBool(e=z3.And(terms), vars_=frozenset(vs))


PATH_SECONDS = 45


class PathTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise PathTimeout()


def run_case(case, prefixes, budget_s, max_paths=None, sample_every=50, want_witness=True):
    """Explore the given prefixes depth first. Returns a dict with statistics,
    remaining prefixes, candidate violations and sampled witnesses."""
    stack = list(prefixes)
    t0 = time.perf_counter()
    C.STATS = stats = C.Stats()
    C.FUNCS.clear()
    cands, witnesses, knowns = [], [], {}
    errors = []
    n = 0
    signal.signal(signal.SIGALRM, _alarm)
    while stack:
        if time.perf_counter() - t0 > budget_s or (max_paths and n >= max_paths):
            break
        pre = stack.pop()
        P = C.Path(pre)
        C.CUR = P
        ctx = SymCtx(P)
        solver = C.get_solver()
        try:
            try:
                signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
                try:
                    case.fn(ctx)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except PathTimeout:
                P.checks = []
                P.mark_incomplete("path took more than %d s" % PATH_SECONDS)
                w = C.witness(P)
                stats.paths += 1
                stats.incomplete += 1
                if w is not None:
                    cands.append({"asgs": [w], "failed": ["the code did not finish"], "incomplete": True, "slow": True})
                if sum(1 for x in cands if x.get("slow")) >= 2:
                    break
                continue
            except Skip:
                continue
            except C.Infeasible:
                continue
            except C.BudgetExceeded:
                stats.reasons["path too long"] = stats.reasons.get("path too long", 0) + 1
                stats.incomplete += 1
                continue
            except RecursionError:
                P.checks = []
                P.mark_incomplete("recursion limit of the engine")
            except Exception as ex:
                errors.append("".join(traceback.format_exception(ex))[-3000:])
                P.checks.append((False, "case raised %s: %s" % (type(ex).__name__, _safe(ex))))
            stats.paths += 1
            n += 1
            if P.incomplete:
                stats.incomplete += 1
            for kid, desc in ctx.knowns:
                if kid not in knowns:
                    w = C.witness(P)
                    if w is not None:
                        knowns[kid] = (desc, w)
            try:
                bad = C.final_query(P)
            except C.Infeasible:
                continue
            if bad is not None:
                m, failed, goal, vs = bad
                stats.violations += 1
                asgs = [C.assignment(P, m)]
                if len(cands) < 12:
                    asgs += alternatives(P, ctx, goal, vs)
                    cands.append({"asgs": asgs, "failed": [str(f) for f in failed][:5], "incomplete": P.incomplete})
                if len(cands) >= 12:
                    break
            elif want_witness and (stats.paths % sample_every == 1):
                w = C.witness(P)
                if w is not None:
                    witnesses.append(w)
        finally:
            stack.extend(P.pending)
            C.CUR = None
    stats.functions = set(C.FUNCS)
    return {"stats": stats.dump(), "rest": stack, "cands": cands, "witnesses": witnesses, "knowns": knowns,
            "errors": errors[:3], "time": time.perf_counter() - t0}


def alternatives(P, ctx, goal, vs):
    """Further models of the same failed obligation: special code points in the
    terms the case named, and the pleasant representatives of each domain."""
    out = []
    base = list(goal)
    terms = []
    for s in ctx.specials:
        if isinstance(s, SymStr):
            for x in s.el:
                if isinstance(x, C.SymInt):
                    terms.append(x)
    allv = set(vs)
    for x in terms:
        allv.update(x.allvars())
    for x in terms[:8]:
        for cp in SPECIAL_CPS:
            r, m = P.solve(base + [x.z() == cp], allv, model=True)
            if r == z3.sat:
                out.append(C.assignment(P, m))
            if len(out) >= 40:
                return out
    # pleasant values
    pref = list(base)
    s = C.get_solver()
    for name in P.order[:30]:
        v = P.vars[name]
        val = R.pick(P.dom[v])
        r = P.solve(pref + [v.z == val], allv | {v})
        if r == z3.sat:
            pref.append(v.z == val)
            allv.add(v)
    r, m = P.solve(pref, allv, model=True)
    if r == z3.sat:
        out.insert(0, C.assignment(P, m))
    return out


def _safe(ex):
    try:
        return " ".join(str(concretise_any(a)) for a in ex.args)[:200]
    except BaseException:
        return "?"
