"""Path-exploring symbolic execution core: symbolic integers, booleans and
strings, path state, forking, and the z3 queries that decide obligations."""
import time
import operator

import z3
from . import ranges as R

BIG = 10 ** 40


class SxControl(BaseException):
    """Steering exceptions; never caught by `except Exception` in the code under test."""


class Infeasible(SxControl):
    pass


class EngineError(SxControl):
    pass


class BudgetExceeded(SxControl):
    pass


_Z3VARS = {}


def zvar(name):
    v = _Z3VARS.get(name)
    if v is None:
        v = _Z3VARS[name] = z3.Int(name)
    return v


class Stats:
    FIELDS = ("paths", "decisions", "forks", "queries_branch", "queries_final", "folded", "obligations", "unknown",
              "incomplete", "violations", "queries_split")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.reasons = {}
        self.functions = set()

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        self.solver_s += d["solver_s"]
        for k, v in d["reasons"].items():
            self.reasons[k] = self.reasons.get(k, 0) + v
        self.functions |= d["functions"]

    def dump(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["reasons"] = dict(self.reasons)
        d["functions"] = set(self.functions)
        return d


STATS = Stats()
SOLVER = None
CUR = None  # current Path
FUNCS = set()


def get_solver():
    global SOLVER
    if SOLVER is None:
        SOLVER = z3.Solver()
        SOLVER.set("timeout", 30000)
    return SOLVER


_SPLITS = set()


def certify_split(d, parts):
    """z3 shows that the parts partition the domain: every value of the domain
    lies in exactly one part and no other value lies in any (cached per process)."""
    key = (d, parts)
    if key in _SPLITS:
        return
    x = zvar("split!")
    n = z3.Sum([z3.If(dom_expr(x, p), 1, 0) for p in parts])
    s = get_solver()
    s.push()
    try:
        s.add(n != z3.If(dom_expr(x, d), 1, 0))
        t = time.perf_counter()
        r = s.check()
        STATS.solver_s += time.perf_counter() - t
        STATS.queries_split += 1
    finally:
        s.pop()
    if r != z3.unsat:
        raise EngineError("split is no partition: %r of %r" % (parts, d))
    _SPLITS.add(key)


class Var:
    __slots__ = ("name", "z", "kind", "meta")

    def __init__(self, name, kind, meta=None):
        self.name = name
        self.z = zvar(name)
        self.kind = kind
        self.meta = meta


def dom_expr(z, rs):
    ors = []
    for lo, hi in rs:
        if lo == hi:
            ors.append(z == lo)
        else:
            c = []
            if lo > -BIG:
                c.append(z >= lo)
            if hi < BIG:
                c.append(z <= hi)
            ors.append(z3.And(c) if len(c) != 1 else c[0])
    if not ors:
        return z3.BoolVal(False)
    return ors[0] if len(ors) == 1 else z3.Or(ors)


class Path:
    def __init__(self, prefix=()):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.dom = {}
        self.vars = {}
        self.order = []
        self.gens = []
        self.dirty = set()
        self.checks = []
        self.choices = {}
        self.incomplete = None
        self.notes = []
        self.opaque = {}
        self.free = []
        self.cong = []  # equal texts have equal unknowns (used at the end of the path)
        self.memo = {}
        self.steps = 0
        self.nomerge = False

    # -- variables ------------------------------------------------------
    def new_var(self, name, rs, kind="int", meta=None):
        if name in self.vars:
            raise EngineError("duplicate variable " + name)
        v = Var(name, kind, meta)
        self.vars[name] = v
        self.order.append(name)
        self.dom[v] = rs
        return v

    # -- decisions --------------------------------------------------------
    def fork(self, n, feasible, apply):
        pos = len(self.trace)
        if pos < len(self.prefix):
            i = self.prefix[pos]
        else:
            feas = [i for i in range(n) if feasible(i)]
            if not feas:
                raise Infeasible()
            i = feas[0]
            if len(feas) > 1:
                STATS.forks += 1
                base = tuple(self.trace)
                for j in feas[1:]:
                    self.pending.append(base + (j,))
        self.trace.append(i)
        STATS.decisions += 1
        if len(self.trace) > 20000:
            raise BudgetExceeded()
        apply(i)
        return i

    def solve(self, extra=(), vars_=(), model=False):
        s = get_solver()
        s.push()
        try:
            seen = set(self.dirty)
            seen.update(vars_)
            for v in seen:
                s.add(dom_expr(v.z, self.dom[v]))
            for g in self.gens:
                s.add(g)
            for e in extra:
                s.add(e)
            t = time.perf_counter()
            r = s.check()
            STATS.solver_s += time.perf_counter() - t
            if r == z3.unknown:
                STATS.unknown += 1
            return (r, s.model() if r == z3.sat else None) if model else r
        finally:
            s.pop()

    def feasible_dom(self, v, rs):
        nd = R.inter(self.dom[v], rs)
        if not nd:
            return False
        if v not in self.dirty or nd == self.dom[v]:
            return True
        STATS.queries_branch += 1
        return self.solve([dom_expr(v.z, nd)]) != z3.unsat

    def split(self, v, parts):
        """n-way fork of variable v over disjoint range sets covering its domain."""
        d = self.dom[v]
        live = [(i, R.inter(d, p)) for i, p in enumerate(parts)]
        live = [(i, p) for i, p in live if p]
        if len(self.trace) >= len(self.prefix):
            certify_split(d, tuple(p for _, p in live))
        if len(live) == 1:
            return live[0][0]
        def feasible(k):
            return self.feasible_dom(v, live[k][1])
        def apply(k):
            self.dom[v] = live[k][1]
        k = self.fork(len(live), feasible, apply)
        return live[k][0]

    def assume_expr(self, e, vars_):
        self.gens.append(e)
        self.dirty.update(vars_)

    def choose(self, name, n):
        if name in self.choices:
            raise EngineError("duplicate choice " + name)
        if n == 1:
            self.choices[name] = 0
            return 0
        def apply(i):
            self.choices[name] = i
        return self.fork(n, lambda i: True, apply)

    def mark_incomplete(self, why):
        if self.incomplete is None:
            self.incomplete = why
        STATS.reasons[why] = STATS.reasons.get(why, 0) + 1


# ---------------------------------------------------------------------------
# booleans


class SymBool:
    __slots__ = ("v", "rs", "e", "vars")

    def __init__(self, v=None, rs=None, e=None, vars_=()):
        self.v = v
        self.rs = rs
        self.e = e
        self.vars = vars_

    def z(self):
        if self.v is not None:
            return dom_expr(self.v.z, R.inter(CUR.dom[self.v], self.rs))
        return self.e

    def allvars(self):
        return (self.v,) if self.v is not None else self.vars

    def __bool__(self):
        P = CUR
        if self.v is not None:
            d = P.dom[self.v]
            t = R.inter(d, self.rs)
            if not t:
                return False
            if t == d:
                return True
            return P.split(self.v, (self.rs, R.minus(d, self.rs))) == 0
        e = self.e
        def feasible(i):
            STATS.queries_branch += 1
            return P.solve([e if i == 0 else z3.Not(e)], self.vars) != z3.unsat
        def apply(i):
            P.assume_expr(e if i == 0 else z3.Not(e), self.vars)
        return P.fork(2, feasible, apply) == 0

    def negate(self):
        if self.v is not None:
            return atom(self.v, R.minus(((-BIG, BIG),), self.rs))
        return SymBool(e=z3.Not(self.e), vars_=self.vars)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_and([self, o])
        return bool(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_or([self, o])
        return bool(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ (bool(o) if isinstance(o, SymBool) else o)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else self.negate()
        return bool(self) == o

    def __ne__(self, o):
        if isinstance(o, bool):
            return self.negate() if o else self
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)


def _arith(name):
    op = getattr(operator, {"divmod": "mod"}.get(name, name))

    def f(self, o):
        return op(int(self), int(o) if isinstance(o, SymBool) else o)

    def r(self, o):
        return op(int(o) if isinstance(o, SymBool) else o, int(self))
    return f, r


for _n in ("add", "sub", "mul", "floordiv", "truediv", "mod", "pow", "lshift", "rshift"):
    _f, _r = _arith(_n)
    setattr(SymBool, "__%s__" % _n, _f)
    setattr(SymBool, "__r%s__" % _n, _r)
for _n in ("lt", "le", "gt", "ge"):
    setattr(SymBool, "__%s__" % _n, _arith(_n)[0])
for _n in ("neg", "pos", "invert", "abs"):
    setattr(SymBool, "__%s__" % _n, (lambda op: lambda self: op(int(self)))(getattr(operator, _n)))
del _n, _f, _r


def atom(v, rs):
    d = CUR.dom[v]
    t = R.inter(d, rs)
    if not t:
        return False
    if t == d:
        return True
    return SymBool(v=v, rs=rs)


def gen(e, vars_):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e=e, vars_=frozenset(vars_))


def to_z3(b):
    return b.z() if isinstance(b, SymBool) else z3.BoolVal(bool(b))


def b_and(items):
    rest = []
    for b in items:
        if isinstance(b, SymBool):
            rest.append(b)
        elif not b:
            return False
    if not rest:
        return True
    if len(rest) == 1:
        return rest[0]
    vs = {b.v for b in rest}
    if len(vs) == 1 and None not in vs:
        rs = rest[0].rs
        for b in rest[1:]:
            rs = R.inter(rs, b.rs)
        return atom(rest[0].v, rs)
    allv = set()
    for b in rest:
        allv.update(b.allvars())
    return SymBool(e=z3.And([b.z() for b in rest]), vars_=frozenset(allv))


def b_or(items):
    rest = []
    for b in items:
        if isinstance(b, SymBool):
            rest.append(b)
        elif b:
            return True
    if not rest:
        return False
    if len(rest) == 1:
        return rest[0]
    vs = {b.v for b in rest}
    if len(vs) == 1 and None not in vs:
        rs = rest[0].rs
        for b in rest[1:]:
            rs = R.union(rs, b.rs)
        return atom(rest[0].v, rs)
    allv = set()
    for b in rest:
        allv.update(b.allvars())
    return SymBool(e=z3.Or([b.z() for b in rest]), vars_=frozenset(allv))


def b_not(b):
    return b.negate() if isinstance(b, SymBool) else (not b)


def b_iff(a, b):
    if not isinstance(a, SymBool):
        return b if a else b_not(b)
    if not isinstance(b, SymBool):
        return a if b else b_not(a)
    return gen(a.z() == b.z(), set(a.allvars()) | set(b.allvars()))


# ---------------------------------------------------------------------------
# integers


class SymInt:
    __slots__ = ("v", "off", "e", "vars", "lo", "hi", "tz")

    def __init__(self, v=None, off=0, e=None, vars_=(), lo=-BIG, hi=BIG, tz=0):
        self.v = v
        self.off = off
        self.e = e
        self.vars = vars_
        self.lo = lo
        self.hi = hi
        self.tz = tz

    # views
    def z(self):
        if self.v is not None:
            return self.v.z + self.off if self.off else self.v.z
        return self.e

    def allvars(self):
        return (self.v,) if self.v is not None else self.vars

    def bounds(self):
        if self.v is not None:
            d = CUR.dom[self.v]
            return d[0][0] + self.off, d[-1][1] + self.off
        return self.lo, self.hi

    def domain(self):
        """Current range set (simple ints only)."""
        return R.shift(CUR.dom[self.v], self.off)

    def const(self):
        """The value if determined, else None."""
        if self.v is not None:
            d = CUR.dom[self.v]
            if len(d) == 1 and d[0][0] == d[0][1]:
                return d[0][0] + self.off
        elif self.lo == self.hi:
            return self.lo
        return None

    def __repr__(self):
        if CUR is not None:
            CUR.mark_incomplete("repr of symbolic int")
        return "<SymInt>"

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(concretise_int(self))

    def __index__(self):
        return concretise_int(self)

    __int__ = __index__

    def __neg__(self):
        lo, hi = self.bounds()
        return mk_int(-self.z(), self.allvars(), -hi, -lo)

    def __pos__(self):
        return self

    def __add__(self, o):
        if isinstance(o, bool) or isinstance(o, int):
            if o == 0:
                return self
            if self.v is not None:
                return SymInt(v=self.v, off=self.off + o)
            return mk_int(self.e + o, self.vars, self.lo + o, self.hi + o)
        if isinstance(o, SymInt):
            a, b = self.bounds(), o.bounds()
            return mk_int(self.z() + o.z(), set(self.allvars()) | set(o.allvars()), a[0] + b[0], a[1] + b[1],
                          min(_tz(self), _tz(o)))
        if isinstance(o, SymBool):
            return self + int(o)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        if isinstance(o, SymInt):
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            a, b = self.bounds()
            lo, hi = sorted((a * o, b * o))
            return mk_int(self.z() * o, self.allvars(), lo, hi, _tz(self) + _tzc(o))
        if isinstance(o, SymInt):
            return self * concretise_int(o)
        return NotImplemented

    __rmul__ = __mul__

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return NotImplemented

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            lo, hi = self.bounds()
            return mk_int(self.z() / o, self.allvars(), lo // o, hi // o)
        return concretise_int(self) // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mk_int(self.z() % o, self.allvars(), 0, o - 1)
        return concretise_int(self) % o

    def __rfloordiv__(self, o):
        return o // concretise_int(self)

    def __rmod__(self, o):
        return o % concretise_int(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __or__(self, o):
        lo, hi = self.bounds()
        if isinstance(o, int):
            olo = ohi = o
            otz = _tzc(o)
        elif isinstance(o, SymInt):
            olo, ohi = o.bounds()
            otz = _tz(o)
        else:
            return NotImplemented
        if lo >= 0 and olo >= 0:
            if ohi < (1 << _tz(self)) or hi < (1 << min(otz, 200)):
                return self + o
            if lo == hi == 0:
                return o
        return self._bv(o, lambda a, b: a | b)

    __ror__ = __or__

    def __and__(self, o):
        if isinstance(o, int):
            if o == 0:
                return 0
            if o > 0 and (o & (o + 1)) == 0:
                return self % (o + 1)
        return self._bv(o, lambda a, b: a & b)

    __rand__ = __and__

    def __xor__(self, o):
        return self._bv(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def _bv(self, o, f):
        lo, hi = self.bounds()
        olo, ohi = (o, o) if isinstance(o, int) else o.bounds()
        if lo < 0 or olo < 0:
            return f(concretise_int(self), o if isinstance(o, int) else concretise_int(o))
        w = max(hi.bit_length(), ohi.bit_length(), 1)
        if w > 64:
            return f(concretise_int(self), o if isinstance(o, int) else concretise_int(o))
        a = z3.Int2BV(self.z(), w)
        b = z3.BitVecVal(o, w) if isinstance(o, int) else z3.Int2BV(o.z(), w)
        vs = set(self.allvars()) | (set() if isinstance(o, int) else set(o.allvars()))
        return mk_int(z3.BV2Int(f(a, b)), vs, 0, (1 << w) - 1)

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = int(o)
        if isinstance(o, int):
            if self.v is not None:
                c = o - self.off
                if op == "lt":
                    return atom(self.v, ((-BIG, c - 1),))
                if op == "le":
                    return atom(self.v, ((-BIG, c),))
                if op == "gt":
                    return atom(self.v, ((c + 1, BIG),))
                if op == "ge":
                    return atom(self.v, ((c, BIG),))
                return atom(self.v, ((c, c),))
            olo = ohi = o
            oz = z3.IntVal(o)
            ovars = ()
        elif isinstance(o, SymInt):
            if self.v is not None and o.v is self.v:
                return {"lt": self.off < o.off, "le": self.off <= o.off, "gt": self.off > o.off,
                        "ge": self.off >= o.off, "eq": self.off == o.off}[op]
            oc = o.const()
            if oc is not None:
                return self._cmp(oc, op)
            olo, ohi = o.bounds()
            oz = o.z()
            ovars = o.allvars()
            sc = self.const()
            if sc is not None and o.v is not None:
                flip = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq"}
                return o._cmp(sc, flip[op])
        else:
            return NotImplemented
        lo, hi = self.bounds()
        if op == "lt":
            if hi < olo:
                return True
            if lo >= ohi:
                return False
            e = self.z() < oz
        elif op == "le":
            if hi <= olo:
                return True
            if lo > ohi:
                return False
            e = self.z() <= oz
        elif op == "gt":
            if lo > ohi:
                return True
            if hi <= olo:
                return False
            e = self.z() > oz
        elif op == "ge":
            if lo >= ohi:
                return True
            if hi < olo:
                return False
            e = self.z() >= oz
        else:
            if hi < olo or lo > ohi:
                return False
            if self.v is not None and isinstance(o, SymInt) and o.v is not None:
                if not R.inter(self.domain(), o.domain()):
                    return False
            e = self.z() == oz
        return gen(e, set(self.allvars()) | set(ovars))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return True if r is NotImplemented else b_not(r)

    def bit_length(self):
        return concretise_int(self).bit_length()


class PwInt(SymInt):
    """A piecewise function of one variable v: on the range set rs (of v) it is v + off (a = 1) or off (a = 0)."""
    __slots__ = ("src", "pieces", "_z")

    def __init__(self, src, pieces):
        SymInt.__init__(self, vars_=(src,))
        self.src = src
        self.pieces = pieces
        self._z = None

    def live(self):
        d = CUR.dom[self.src]
        out = []
        for rs, a, off in self.pieces:
            r = R.inter(rs, d)
            if r:
                out.append((r, a, off))
        return out

    def z(self):
        if self._z is None:
            e = None
            for rs, a, off in self.pieces:
                x = self.src.z + off if a else z3.IntVal(off)
                e = x if e is None else z3.If(dom_expr(self.src.z, rs), x, e)
            self._z = e
        return self._z

    def bounds(self):
        lo, hi = BIG, -BIG
        for rs, a, off in self.live():
            lo = min(lo, rs[0][0] + off if a else off)
            hi = max(hi, rs[-1][1] + off if a else off)
        return lo, hi

    def domain(self):
        return R.norm([iv for rs, a, off in self.live() for iv in (R.shift(rs, off) if a else ((off, off),))])

    def const(self):
        lo, hi = self.bounds()
        return lo if lo == hi else None

    def pre(self, rs):
        """The values of v that map into rs."""
        out = []
        for p, a, off in self.pieces:
            if a:
                out.extend(R.inter(p, R.shift(rs, -off)))
            elif R.has(rs, off):
                out.extend(p)
        return R.norm(out)

    def __add__(self, o):
        if isinstance(o, int):
            return PwInt(self.src, tuple((rs, a, off + o) for rs, a, off in self.pieces)) if o else self
        return SymInt.__add__(self, o)

    __radd__ = __add__

    def _cmp(self, o, op):
        if isinstance(o, SymInt):
            c = o.const()
            if c is not None:
                o = c
        if isinstance(o, int):
            o = int(o)
            rs = {"lt": ((-BIG, o - 1),), "le": ((-BIG, o),), "gt": ((o + 1, BIG),), "ge": ((o, BIG),), "eq": ((o, o),)}[op]
            return atom(self.src, self.pre(rs))
        return SymInt._cmp(self, o, op)

    __hash__ = SymInt.__hash__


def ranged(x):
    """Is x a symbolic integer whose exact set of values is known (a variable or a piecewise function of one)?"""
    return isinstance(x, SymInt) and (x.v is not None or isinstance(x, PwInt))


def src_of(x):
    return x.v if x.v is not None else x.src


def pre_of(x, rs):
    """The values of src_of(x) for which x is in rs."""
    return R.shift(rs, -x.off) if x.v is not None else x.pre(rs)


def piecewise(x, parts):
    """x mapped by parts [(rs, a, off)]: on rs it becomes x + off (a = 1) or off (a = 0). The parts cover the values of x."""
    v = src_of(x)
    d = CUR.dom[v]
    mine = [(d, 1, x.off)] if x.v is not None else x.live()
    acc = {}
    for rs, a, off in mine:
        for r2, a2, o2 in parts:
            if a:
                r = R.inter(rs, R.shift(r2, -off))
            else:
                r = rs if R.has(r2, off) else ()
            if not r:
                continue
            k = (1, off + o2) if a and a2 else (0, off + o2 if a2 else o2)
            acc[k] = R.union(acc[k], r) if k in acc else r
    if len(acc) == 1:
        (a, off), = acc
        return sint(v, off) if a else off
    y = PwInt(v, tuple((rs, a, off) for (a, off), rs in acc.items()))
    c = y.const()
    return y if c is None else c


def _tzc(c):
    if c == 0:
        return 200
    return (c & -c).bit_length() - 1


def _tz(x):
    return x.tz if x.v is None else 0


def mk_int(e, vars_, lo, hi, tz=0):
    if lo == hi:
        return lo
    return SymInt(e=e, vars_=frozenset(vars_), lo=lo, hi=hi, tz=tz)


def ite(c, a, b):
    """Integer if-then-else without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    az = z3.IntVal(a) if isinstance(a, int) else a.z()
    bz = z3.IntVal(b) if isinstance(b, int) else b.z()
    al, ah = (a, a) if isinstance(a, int) else a.bounds()
    bl, bh = (b, b) if isinstance(b, int) else b.bounds()
    vs = set(c.allvars())
    for x in (a, b):
        if isinstance(x, SymInt):
            vs |= set(x.allvars())
    return mk_int(z3.If(c.z(), az, bz), vs, min(al, bl), max(ah, bh))


SAMPLE_CPS = (97, 45, 50, 98, 120, 65, 73, 95, 32, 33, 46, 48, 10, 0xE9, 0x301, 0x212B, 0xFB01, 0x1F600, 0)
COMPLETE_LIMIT = 64


def concretise_int(x):
    """Fork on the value of x; complete when few values are possible, else a
    sample (and the path is marked incomplete)."""
    if isinstance(x, int):
        return x
    P = CUR
    if isinstance(x, PwInt):
        c = x.const()
        if c is not None:
            return c
        d = x.domain()
        if R.size(d) <= COMPLETE_LIMIT:
            vals = list(R.elems(d))
            return vals[P.split(x.src, [x.pre(R.single(c)) for c in vals])]
        v = concretise_int(sint(x.src))
        for rs, a, off in x.pieces:
            if R.has(rs, v):
                return a * v + off
    if x.v is not None:
        d = P.dom[x.v]
        n = R.size(d)
        if n <= COMPLETE_LIMIT:
            vals = list(R.elems(d))
        else:
            P.mark_incomplete("sampled concretisation of int")
            vals = [c - x.off for c in SAMPLE_CPS if R.has(d, c - x.off)][:4]
            for c in (d[0][0], d[-1][1]):
                if c not in vals:
                    vals.append(c)
        if len(vals) == 1:
            P.dom[x.v] = R.single(vals[0])
            return vals[0] + x.off
        def apply(i):
            P.dom[x.v] = R.single(vals[i])
        i = P.fork(len(vals), lambda i: P.feasible_dom(x.v, R.single(vals[i])), apply)
        return vals[i] + x.off
    lo, hi = x.bounds()
    if hi - lo < COMPLETE_LIMIT:
        vals = list(range(lo, hi + 1))
    else:
        # enumerate models; replayed decisions store the value itself
        pos = len(P.trace)
        if pos < len(P.prefix):
            kind, val = P.prefix[pos]
            P.trace.append((kind, val))
            P.assume_expr(x.z() == val, x.allvars())
            if kind == "s":
                P.mark_incomplete("sampled concretisation of int expression")
            return val
        vals = []
        block = []
        complete = False
        while len(vals) < 5:
            STATS.queries_branch += 1
            r, m = P.solve(block, x.allvars(), model=True)
            if r != z3.sat:
                complete = r == z3.unsat
                break
            val = m.eval(x.z(), model_completion=True).as_long()
            vals.append(val)
            block.append(x.z() != val)
        if not vals:
            raise Infeasible()
        if not complete:
            P.mark_incomplete("sampled concretisation of int expression")
        kind = "c" if complete else "s"
        base = tuple(P.trace)
        for v in vals[1:]:
            P.pending.append(base + ((kind, v),))
        P.trace.append((kind, vals[0]))
        P.assume_expr(x.z() == vals[0], x.allvars())
        return vals[0]
    def apply(i):
        P.assume_expr(x.z() == vals[i], x.allvars())
    def feasible(i):
        STATS.queries_branch += 1
        return P.solve([x.z() == vals[i]], x.allvars()) != z3.unsat
    return vals[P.fork(len(vals), feasible, apply)]


def sint(v, off=0):
    """SymInt for a variable, or the plain int when its value is determined."""
    d = CUR.dom[v]
    if len(d) == 1 and d[0][0] == d[0][1]:
        return d[0][0] + off
    return SymInt(v=v, off=off)


def i_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        return b._cmp(a, "eq")
    return a._cmp(b, "eq")


def i_in(x, rs):
    """x in range set, as a condition."""
    if isinstance(x, int):
        return R.has(rs, x)
    if x.v is not None:
        return atom(x.v, R.shift(rs, -x.off))
    if isinstance(x, PwInt):
        return atom(x.src, x.pre(rs))
    lo, hi = x.bounds()
    if R.inter(((lo, hi),), rs) == ((lo, hi),):
        return True
    if not R.inter(((lo, hi),), rs):
        return False
    return gen(dom_expr(x.z(), rs), x.allvars())


# ---------------------------------------------------------------------------
# obligations


def final_query(P):
    """Decide the conjunction of the path's checks. Returns None or (model values, failed messages)."""
    STATS.obligations += len(P.checks)
    neg = []
    vs = set()
    concrete_fail = [m for c, m in P.checks if not isinstance(c, SymBool) and not c]
    for c, m in P.checks:
        if isinstance(c, SymBool):
            neg.append(z3.Not(c.z()))
            vs.update(c.allvars())
    if not neg and not concrete_fail:
        STATS.folded += 1
        return None
    STATS.queries_final += 1
    goal = [] if concrete_fail else [z3.Or(neg)]
    for e, v in P.cong:
        goal.append(e)
        vs.update(v)
    r, m = P.solve(goal, vs, model=True)
    if r == z3.unsat:
        if concrete_fail:
            raise Infeasible()
        return None
    if r == z3.unknown:
        P.mark_incomplete("solver unknown")
        return None
    failed = list(concrete_fail)
    for c, msg in P.checks:
        if isinstance(c, SymBool) and z3.is_false(m.eval(c.z(), model_completion=True)):
            failed.append(msg)
    return m, failed, goal, vs


def assignment(P, m=None):
    out = {}
    for name in P.order:
        v = P.vars[name]
        d = P.dom[v]
        val = None
        if m is not None:
            x = m.eval(v.z, model_completion=False)
            if z3.is_int_value(x):
                val = x.as_long()
                if not R.has(d, val):
                    val = None
        if val is None:
            val = R.pick(d)
        out[name] = val
    out.update({"?" + k: v for k, v in P.choices.items()})
    return out


def witness(P):
    """A concrete input following this path (None if the solver cannot give one)."""
    if not P.gens:
        return assignment(P)
    STATS.queries_branch += 1
    r, m = P.solve([e for e, _ in P.cong], {v for _, vs in P.cong for v in vs}, model=True)
    if r != z3.sat:
        return None
    return assignment(P, m)
