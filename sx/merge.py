"""Values of effect-free code: explore its branches on the spot, give back one value for all of them.

merged(f, *args) runs f on every branch the current path allows, with the branch's guard, and puts the
values together: integers and one-character strings become piecewise functions of the unknown they depend
on, truth values a formula, equal values stay as they are. Results that cannot be put together (other objects,
texts of different length, exceptions) are groups: the path forks once per group, not once per branch.
Everything is deterministic in the path's state, so re-execution from a prefix takes the same decisions."""
import functools
import z3
from . import core as C
from . import ranges as R
from . import symstr as S
from .core import SymInt, SymBool, PwInt

LIMIT = 40
ITE_LIMIT = 8


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class _NoMerge(Exception):
    pass


def _counts(P):
    return (len(P.vars), len(P.order), len(P.opaque), len(P.free), len(P.cong), len(P.memo), len(P.notes), len(P.checks),
            len(P.choices), P.incomplete)


def explore(P, f, args):
    """[(guard, kind, value)] of f(*args) on all branches, or None when they cannot be told apart. The path is unchanged."""
    dom0, ng, dirty0 = dict(P.dom), len(P.gens), set(P.dirty)
    cnt = _counts(P)
    saved = P.prefix, P.trace, P.pending
    outs, work = [], [()]
    try:
        while work:
            P.prefix, P.trace, P.pending = work.pop(), [], []
            kind, val, dead = "v", None, False
            try:
                val = f(*args)
            except C.Infeasible:
                dead = True
            except Exception as ex:
                kind, val = "x", ex
            if _counts(P) != cnt:
                return None
            if not dead:
                if not P.trace:
                    return [(None, kind, val)]
                outs.append((_guard(P, dom0, ng), kind, val))
            work.extend(reversed(P.pending))
            P.dom.clear()
            P.dom.update(dom0)
            del P.gens[ng:]
            P.dirty.clear()
            P.dirty.update(dirty0)
            if len(outs) + len(work) > LIMIT:
                return None
        return outs
    finally:
        P.prefix, P.trace, P.pending = saved
        if P.dom != dom0:
            P.dom.clear()
            P.dom.update(dom0)
        del P.gens[ng:]
        if P.dirty != dirty0:
            P.dirty.clear()
            P.dirty.update(dirty0)


def _guard(P, dom0, ng):
    """What the branch assumes: (variable, ranges) or (expression, variables)."""
    ch = [v for v, d in P.dom.items() if d != dom0[v]]
    new = P.gens[ng:]
    if len(ch) == 1 and not new:
        return ch[0], P.dom[ch[0]]
    vs = set(ch)
    for v in P.dirty:
        vs.add(v)
    return z3.And([C.dom_expr(v.z, P.dom[v]) for v in ch] + new), frozenset(vs)


def _simple(g):
    return isinstance(g[0], C.Var)


def _gz(g):
    return C.dom_expr(g[0].z, g[1]) if _simple(g) else g[0]


def _gvars(g):
    return (g[0],) if _simple(g) else g[1]


def key(x):
    """Values with equal keys can be put together."""
    if isinstance(x, (bool, SymBool)):
        return "b"
    if isinstance(x, (int, SymInt)):
        return "i"
    if isinstance(x, str):
        return "ch" if len(x) == 1 else ("c", x)
    if isinstance(x, S.SymStr):
        if len(x.el) == 1 and isinstance(x.el[0], (int, SymInt)):
            return "ch"
        return ("S", S._akey(x))
    if isinstance(x, tuple) and type(x) is tuple:
        return ("t",) + tuple(key(y) for y in x)
    if x is None or isinstance(x, (float, bytes, complex)):
        return ("c", type(x), x)
    return ("o", id(x))


def _ints(gs, xs):
    if all(isinstance(x, int) for x in xs) and len(set(xs)) == 1:
        return xs[0]
    v = gs[0][0] if _simple(gs[0]) else None
    if v is not None and all(_simple(g) and g[0] is v for g in gs) and all(
            isinstance(x, int) or (C.ranged(x) and C.src_of(x) is v) for x in xs):
        acc = {}
        for g, x in zip(gs, xs):
            if isinstance(x, int):
                ps = [(g[1], 0, int(x))]
            elif x.v is not None:
                ps = [(g[1], 1, x.off)]
            else:
                ps = [(R.inter(g[1], rs), a, off) for rs, a, off in x.pieces]
            for rs, a, off in ps:
                if rs:
                    acc[a, off] = R.union(acc[a, off], rs) if (a, off) in acc else rs
        if len(acc) == 1:
            (a, off), = acc
            return C.sint(v, off) if a else off
        return PwInt(v, tuple((rs, a, off) for (a, off), rs in acc.items()))
    zs = [x.z().sexpr() if isinstance(x, SymInt) else x for x in xs]
    if len(set(zs)) == 1:
        return xs[0]
    if len(xs) > ITE_LIMIT:
        raise _NoMerge()
    e, vs, lo, hi = None, set(), C.BIG, -C.BIG
    for g, x in zip(gs, xs):
        xz = z3.IntVal(x) if isinstance(x, int) else x.z()
        l, h = (x, x) if isinstance(x, int) else x.bounds()
        lo, hi = min(lo, l), max(hi, h)
        e = xz if e is None else z3.If(_gz(g), xz, e)
        vs.update(_gvars(g))
        if not isinstance(x, int):
            vs.update(x.allvars())
    return C.mk_int(e, vs, lo, hi)


def _bools(gs, xs):
    if all(isinstance(x, bool) for x in xs) and len(set(xs)) == 1:
        return xs[0]
    alts = []
    for g, x in zip(gs, xs):
        if x is False:
            continue
        ga = C.atom(*g) if _simple(g) else SymBool(e=g[0], vars_=g[1])
        alts.append(ga if x is True else C.b_and([ga, x]))
    return C.b_or(alts)


def put(gs, xs):
    x = xs[0]
    k = key(x)
    if k == "b":
        return _bools(gs, xs)
    if k == "i":
        return _ints(gs, xs)
    if k == "ch":
        return S.mk([_ints(gs, [ord(y) if isinstance(y, str) else y.el[0] for y in xs])])
    if k[0] == "t":
        return tuple(put(gs, [y[i] for y in xs]) for i in range(len(x)))
    return x


def merged(f, *args):
    P = C.CUR
    if P is None or P.nomerge:
        return f(*args)
    outs = explore(P, f, args)
    if outs is None:
        return f(*args)
    if not outs:
        raise C.Infeasible()
    if outs[0][0] is None:
        if outs[0][1] == "x":
            raise outs[0][2]
        return outs[0][2]
    groups = {}
    for g, kind, val in outs:
        k = ("x",) if kind == "x" else key(val)
        groups.setdefault(k, []).append((g, val))
    gl = list(groups.items())
    i = 0
    if len(gl) > 1:
        gss = [[g for g, _ in items] for _, items in gl]
        v = gss[0][0][0] if _simple(gss[0][0]) else None
        if v is not None and all(_simple(g) and g[0] is v for gs in gss for g in gs):
            i = P.split(v, [functools.reduce(R.union, [g[1] for g in gs]) for gs in gss])
        else:
            es = [z3.Or([_gz(g) for g in gs]) for gs in gss]
            vs = [frozenset(v for g in gs for v in _gvars(g)) for gs in gss]
            i = P.fork(len(es), lambda k: P.solve([es[k]], vs[k]) != z3.unsat,
                       lambda k: P.assume_expr(es[k], vs[k]))
    k, items = gl[i]
    if k[0] in ("x", "o"):
        return f(*args)
    try:
        return put([g for g, _ in items], [x for _, x in items])
    except _NoMerge:
        return f(*args)


def summarise(f):
    @functools.wraps(f)
    def g(*a, **k):
        if C.CUR is None:
            return f(*a, **k)
        return merged(functools.partial(f, **k) if k else f, *a)
    return g
