"""Symbolic strings: a sequence of elements with a concrete number of elements.

Element kinds: int (a known code point), SymInt (a symbolic code point) and
Opaque (a piece of text of unknown length: the result of an uninterpreted
function such as Unicode normalisation, or of formatting a symbolic number).
Opaque pieces are equal when function and arguments are equal; otherwise the
solver is free to make them equal or not."""
import unicodedata
from functools import lru_cache

import z3
from . import core as C
from . import ranges as R
from .core import SymInt, SymBool, b_and, b_or, b_not, i_eq, i_in, atom


class Opaque:
    __slots__ = ("fn", "args")

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args

    def key(self):
        return (self.fn,) + tuple(_akey(a) for a in self.args)


def _akey(a):
    if isinstance(a, SymStr):
        return tuple(_akey(x) for x in a.el)
    if isinstance(a, Opaque):
        return a.key()
    if isinstance(a, SymInt):
        return "$" + a.z().sexpr()
    return a


def mk(els):
    els = tuple(els)
    for i, x in enumerate(els):
        if not isinstance(x, int):
            if isinstance(x, SymInt):
                c = x.const()
                if c is not None:
                    return _mk_slow(els)
                return SymStr(_conc(els))
            return SymStr(_conc(els))
    return "".join(map(chr, els))


def _conc(els):
    if any(isinstance(x, SymInt) and x.const() is not None for x in els):
        return tuple((x.const() if isinstance(x, SymInt) and x.const() is not None else x) for x in els)
    return els


def _mk_slow(els):
    els = _conc(els)
    if all(isinstance(x, int) for x in els):
        return "".join(map(chr, els))
    return SymStr(els)


def els_of(s):
    if isinstance(s, SymStr):
        return s.el
    return tuple(map(ord, s))


def is_str(x):
    return isinstance(x, (str, SymStr))


def opaque(fn, *args):
    return SymStr((Opaque(fn, args),))


def arg_eq(a, b):
    if is_str(a) and is_str(b):
        return s_eq(a, b)
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return i_eq(a, b)
    return a == b


def op_eq(a, b):
    conds = [False]
    if a.fn == b.fn and len(a.args) == len(b.args):
        c = b_and([arg_eq(x, y) for x, y in zip(a.args, b.args)])
        if c is True:
            return True
        conds = [c]
    return b_or(conds + [free_bool((a,), (b,))])


def free_bool(a, b):
    """Are the texts a and b (tuples of elements, some opaque) equal? The solver may choose, but the same for equal texts."""
    k1, k2 = repr(tuple(_akey(z) for z in a)), repr(tuple(_akey(z) for z in b))
    if k2 < k1:
        k1, k2, a, b = k2, k1, b, a
    k = ("free", k1, k2)
    P = C.CUR
    e = P.opaque.get(k)
    if e is None:
        e = SymBool(e=z3.Bool("free%d" % len(P.opaque)))
        P.opaque[k] = e
        P.free.append((a, b, e))
        for a2, b2, e2 in P.free[:-1]:
            for x, y in ((a2, b2), (b2, a2)):
                c = b_and([same(a, x), same(b, y)])
                if c is not False:
                    c = c if isinstance(c, SymBool) else None
                    f = e.z() == e2.z()
                    P.cong.append((f if c is None else z3.Implies(c.z(), f), c.allvars() if c is not None else ()))
    return e


def same(a, b):
    """A condition that implies that two tuples of elements are the same text (no new unknowns)."""
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if isinstance(x, Opaque) != isinstance(y, Opaque):
            return False
        if isinstance(x, Opaque):
            if x.fn != y.fn or len(x.args) != len(y.args):
                return False
            for p, q in zip(x.args, y.args):
                if is_str(p) and is_str(q):
                    c = same(els_of(p), els_of(q))
                elif isinstance(p, (int, SymInt)) and isinstance(q, (int, SymInt)):
                    c = i_eq(p, q)
                else:
                    c = p == q
                conds.append(c)
        else:
            conds.append(i_eq(x, y))
        if conds and conds[-1] is False:
            return False
    return b_and([c for c in conds if c is not True])


def s_eq(a, b):
    """Equality of two strings as a condition, without forking."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    ea, eb = els_of(a), els_of(b)
    oa = any(isinstance(x, Opaque) for x in ea)
    ob = any(isinstance(x, Opaque) for x in eb)
    if not oa and not ob:
        if len(ea) != len(eb):
            return False
        conds = []
        for x, y in zip(ea, eb):
            c = i_eq(x, y)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
        return b_and(conds)
    if len(ea) == len(eb) and all(isinstance(x, Opaque) == isinstance(y, Opaque) for x, y in zip(ea, eb)):
        conds = []
        for x, y in zip(ea, eb):
            c = op_eq(x, y) if isinstance(x, Opaque) else i_eq(x, y)
            if c is False:
                break  # opaque pieces have unknown length: alignment may differ
            if c is not True:
                conds.append(c)
        else:
            return b_and(conds)
    xa = expanded(ea)
    xb = expanded(eb) if xa is not None else None
    return free_bool(ea, eb) if xb is None else s_eq(mk(xa), mk(xb))


def expanded(el):
    """Elements with opaque pieces evaluated, or None."""
    out = []
    for x in el:
        if isinstance(x, Opaque):
            t = expand_normalize(*x.args) if x.fn == "normalize" else None
            if t is None:
                return None
            out.extend(t)
        else:
            out.append(x)
    return tuple(out)


def concretise_str(s):
    if isinstance(s, str):
        return s
    P = C.CUR
    if any(isinstance(x, Opaque) for x in s.el):
        return _concretise_opaque(s)
    n = 1
    for x in s.el:
        if isinstance(x, SymInt):
            if C.ranged(x):
                n *= R.size(x.domain())
            else:
                n *= C.COMPLETE_LIMIT + 1
    if n > C.COMPLETE_LIMIT:
        return _sample_str(s)
    return "".join(chr(C.concretise_int(x)) if isinstance(x, SymInt) else chr(x) for x in s.el)


def _sample_str(s):
    """Sample a few values of a symbolic string (marks the path incomplete)."""
    P = C.CUR
    P.mark_incomplete("sampled concretisation of string")
    sym = [x for x in s.el if isinstance(x, SymInt)]
    out = {}
    budget = 12
    for x in sym:
        if C.ranged(x) and C.src_of(x) not in out:
            v = C.src_of(x)
            d = P.dom[v]
            vals = []
            for c in [q - (x.off if x.v is not None else 0) for q in C.SAMPLE_CPS] + [d[0][0], d[-1][1]]:
                if R.has(d, c) and c not in vals:
                    vals.append(c)
            k = max(1, min(len(vals), 4 if budget >= 4 else budget))
            budget = max(1, budget // k)
            vals = vals[:k]
            out[v] = 1
            if len(vals) == 1 and v not in P.dirty:
                P.dom[v] = R.single(vals[0])
                continue
            def apply(i, v=v, vals=vals):
                P.dom[v] = R.single(vals[i])
            P.fork(len(vals), lambda i, v=v, vals=vals: P.feasible_dom(v, R.single(vals[i])), apply)
    return "".join(chr(C.concretise_int(x)) if isinstance(x, SymInt) else chr(x) for x in s.el)


def _concretise_opaque(s):
    parts = []
    for x in s.el:
        if isinstance(x, Opaque):
            args = [concretise_any(a) for a in x.args]
            f = OPAQUE_FUNCS.get(x.fn)
            if f is None:
                raise C.EngineError("cannot evaluate opaque " + str(x.fn))
            parts.append(f(*args))
        elif isinstance(x, SymInt):
            parts.append(chr(C.concretise_int(x)))
        else:
            parts.append(chr(x))
    return "".join(parts)


def concretise_any(a):
    if isinstance(a, SymStr):
        return concretise_str(a)
    if isinstance(a, SymInt):
        return C.concretise_int(a)
    if isinstance(a, SymBool):
        return bool(a)
    t = type(a)
    if t is SymBytes:
        return a.conc()
    if t in (list, tuple, set, frozenset):
        if any(is_sym(x) or type(x) in (list, tuple, set, frozenset) for x in a):
            return t(concretise_any(x) for x in a)
    return a


def is_sym(x):
    return isinstance(x, (SymStr, SymInt, SymBool))


OPAQUE_FUNCS = {
    "normalize": lambda form, s: unicodedata.normalize(form, s),
    "str": lambda i: str(i),
    "repr": lambda s: repr(s),
    "format": lambda v, spec: format(v, spec),
    "errdisp": lambda s: s.replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r"),
    "escq": lambda s: "'" + s.replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + "'",
}


PRED = {}
for _n in ("isspace", "isdigit", "isalpha", "isalnum", "isdecimal", "isnumeric", "isprintable", "isupper", "islower",
           "isascii"):
    PRED[_n] = getattr(str, _n)


def lookup(x, pairs):
    """(True, value) of the first pair whose code point is x, or (False, None); forks over groups of values, not over values."""
    first = {}
    for c, val in pairs:
        first.setdefault(c, val)
    groups = {}
    for c, val in first.items():
        if type(val) is int:
            k = ("i",)
        elif type(val) is str and len(val) == 1:
            k = ("s",)
        else:
            k = ("o", id(val))
        groups.setdefault(k, []).append(c)
    keys = list(groups)
    v = C.src_of(x)
    parts = [C.pre_of(x, R.of_ints(groups[k])) for k in keys]
    used = R.norm([iv for p in parts for iv in p])
    k = C.CUR.split(v, parts + [R.minus(C.CUR.dom[v], used)])
    if k == len(parts):
        return False, None
    codes = groups[keys[k]]
    if keys[k][0] == "o":
        return True, first[codes[0]]
    num = int if keys[k][0] == "i" else ord
    offs = {}
    for c in codes:
        offs.setdefault(num(first[c]) - c, []).append(c)
    y = C.piecewise(x, [(R.of_ints(cs), 1, off) for off, cs in offs.items()])
    return True, y if num is int else mk((y,))


def find_char(x, pairs):
    """lookup of positions, -1 if there is none: no fork."""
    offs = {}
    seen = set()
    for c, i in pairs:
        if c not in seen:
            seen.add(c)
            offs.setdefault(i - c, []).append(c)
    parts = [(R.of_ints(cs), 1, off) for off, cs in offs.items()]
    parts.append((R.minus(R.ALL, R.of_ints(seen)), 0, -1))
    return C.piecewise(x, parts)


def var_char(s):
    """The symbolic code point that is the one element of s, if its set of values is known."""
    if isinstance(s, SymStr) and len(s.el) == 1 and C.ranged(s.el[0]):
        return s.el[0]
    return None


@lru_cache(maxsize=None)
def case_parts(fn):
    """fn (str.lower, ...) as parts for piecewise, and the code points it maps to more than one."""
    offs, multi = {}, []
    start, cur = 0, 0
    for c in range(R.MAXCP + 2):
        if c <= R.MAXCP:
            t = fn(chr(c))
            off = ord(t) - c if len(t) == 1 else None
        else:
            off = "end"
        if off != cur:
            if cur is None:
                multi.append((start, c - 1))
            else:
                offs.setdefault(cur, []).append((start, c - 1))
            start, cur = c, off
    return tuple((R.norm(iv), 1, off) for off, iv in offs.items()), R.norm(multi)


@lru_cache(maxsize=None)
def norm_parts(form):
    """Code points whose normalization does not depend on their neighbours (if these are such, too) and is one character: as a
    set, and as parts for piecewise. Mappings to CJK ideographs are left out: there are hundreds."""
    seconds = set(range(0x1161, 0x1176)) | set(range(0x11A8, 0x11C3))
    for c in range(R.MAXCP + 1):
        d = unicodedata.decomposition(chr(c))
        if d and not d.startswith("<"):
            d = d.split()
            if len(d) == 2:
                seconds.add(int(d[1], 16))
    offs = {}
    start, cur = 0, None
    for c in range(R.MAXCP + 2):
        off = None
        if c <= R.MAXCP:
            t = unicodedata.normalize(form, chr(c))
            if len(t) == 1 and c not in seconds and ord(t) not in seconds and not unicodedata.combining(chr(c)) \
                    and not unicodedata.combining(t) and (ord(t) == c or ord(t) < 0x2E80):
                off = ord(t) - c
        if off != cur:
            if cur is not None:
                offs.setdefault(cur, []).append((start, c - 1))
            start, cur = c, off
    parts = tuple((R.norm(iv), 1, off) for off, iv in offs.items())
    return R.norm([iv for rs, _, _ in parts for iv in rs]), parts


def expand_normalize(form, s):
    """The elements of the normalized s where characters do not interact, else None; forks on that."""
    if type(form) is not str or not isinstance(s, SymStr) or any(isinstance(x, Opaque) for x in s.el):
        return None
    safe, parts = norm_parts(form)
    groups = []  # each starts with a character that does not interact with those before it
    for x in s.el:
        if isinstance(x, SymInt):
            if not C.ranged(x) or not i_in(x, safe):
                return None
            groups.append([x])
        elif R.has(safe, x) or not groups:
            groups.append([x])
        elif isinstance(groups[-1][0], SymInt):
            return None
        else:
            groups[-1].append(x)
    out = []
    for g in groups:
        if isinstance(g[0], SymInt):
            out.append(C.piecewise(g[0], parts))
        else:
            out.extend(map(ord, unicodedata.normalize(form, "".join(map(chr, g)))))
    return out


class SymStr:
    __slots__ = ("el",)

    def __init__(self, el):
        self.el = el

    # -- basics
    def __len__(self):
        return len(self._plain())

    def __bool__(self):
        if all(isinstance(x, Opaque) for x in self.el):
            for x in self.el:
                if x.fn in ("str", "repr", "errdisp", "escq") or (x.fn == "normalize" and len(x.args[1]) > 0):
                    return True
            return bool(concretise_str(self))
        return True

    def _plain(self):
        """Elements, with opaque pieces evaluated."""
        if any(isinstance(x, Opaque) for x in self.el):
            t = expanded(self.el)
            return els_of(concretise_str(self)) if t is None else t
        return self.el

    def __iter__(self):
        for x in self._plain():
            yield mk((x,))

    def __reversed__(self):
        for x in reversed(self._plain()):
            yield mk((x,))

    def _lead(self):
        """Number of elements before the first opaque piece."""
        for k, x in enumerate(self.el):
            if isinstance(x, Opaque):
                return k
        return len(self.el)

    def __getitem__(self, i):
        if type(i) is int and 0 <= i < self._lead():
            return mk((self.el[i],))
        if type(i) is slice and i.step is None and type(i.stop) is int and 0 <= i.stop <= self._lead() and (
                i.start is None or (type(i.start) is int and i.start >= 0)):
            return mk(self.el[i])
        el = self._plain()
        if isinstance(i, slice):
            a, b, c = (None if q is None else (C.concretise_int(q) if isinstance(q, SymInt) else q)
                       for q in (i.start, i.stop, i.step))
            return mk(el[slice(a, b, c)])
        if isinstance(i, SymInt):
            i = C.concretise_int(i)
        try:
            return mk((el[i],))
        except IndexError:
            raise IndexError("string index out of range") from None

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(self.el + els_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mk(els_of(o) + self.el)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.el * C.concretise_int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return concretise_str(self) % concretise_any(args)

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return s_eq(self, o)
        return False

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)):
            return b_not(s_eq(self, o))
        return True

    def __hash__(self):
        return hash(concretise_str(self))

    def __contains__(self, o):
        return bool(s_contains(self, o))

    def _order(self, o, strict, less):
        a, b = (self, o) if less else (o, self)
        a, b = els_of(a), els_of(b)
        for x, y in zip(a, b):
            lt = (x < y) if not isinstance(x, int) or isinstance(y, SymInt) else x < y
            if len(a) == 1 and len(b) == 1:
                return lt if strict else (x <= y)
            if lt:
                return True
            if b_not(i_eq(x, y)):
                return False
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._order(o, True, True)

    def __le__(self, o):
        return self._order(o, False, True)

    def __gt__(self, o):
        return self._order(o, True, False)

    def __ge__(self, o):
        return self._order(o, False, False)

    def __repr__(self):
        if C.CUR is not None:
            C.CUR.mark_incomplete("repr of symbolic string in native code")
        return "<SymStr>"

    __str__ = __repr__

    def __format__(self, spec):
        return concretise_str(self).__format__(spec)

    # -- predicates over characters
    def _pred_all(self, name):
        el = self._plain()
        if not el:
            return getattr("", name)()
        rs = R.of_pred(PRED[name])
        return b_and([i_in(x, rs) for x in el])

    def isspace(self):
        return self._pred_all("isspace")

    def isdigit(self):
        return self._pred_all("isdigit")

    def isalpha(self):
        return self._pred_all("isalpha")

    def isalnum(self):
        return self._pred_all("isalnum")

    def isdecimal(self):
        return self._pred_all("isdecimal")

    def isnumeric(self):
        return self._pred_all("isnumeric")

    def isprintable(self):
        return self._pred_all("isprintable")

    def isascii(self):
        return self._pred_all("isascii")

    def _cased(self, name, other):
        el = self._plain()
        if len(el) == 1:
            return self._pred_all(name)
        rs, no = R.of_pred(PRED[name]), R.of_pred(PRED[other])
        return b_and([b_or([i_in(x, rs) for x in el]), b_not(b_or([i_in(x, no) for x in el]))])

    def isupper(self):
        return self._cased("isupper", "islower")

    def islower(self):
        return self._cased("islower", "isupper")

    def isidentifier(self):
        return concretise_str(self).isidentifier()

    # -- prefix / suffix
    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            t = self[slice(start, end)]
            return t.startswith(p)
        if isinstance(p, tuple):
            return b_or([self.startswith(q) for q in p])
        pe = els_of(p)
        for x, y in zip(self.el, pe):
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                break
            if isinstance(x, int) and isinstance(y, int) and x != y:
                return False
        e = self._plain_if_needed(p)
        if len(pe) > len(e):
            return False
        return b_and([i_eq(x, y) for x, y in zip(e, pe)])

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self[slice(start, end)].endswith(p)
        if isinstance(p, tuple):
            return b_or([self.endswith(q) for q in p])
        e, pe = self._plain(), els_of(p)
        if len(pe) > len(e):
            return False
        if not pe:
            return True
        return b_and([i_eq(x, y) for x, y in zip(e[-len(pe):], pe)])

    def _plain_if_needed(self, p):
        n = len(els_of(p))
        if any(isinstance(x, Opaque) for x in self.el[:n]) or (
                len(self.el) < n and any(isinstance(x, Opaque) for x in self.el)):
            return self._plain()
        return self.el

    def removeprefix(self, p):
        return mk(self.el[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mk(self.el[:len(self.el) - len(p)]) if len(p) and self.endswith(p) else self

    # -- searching
    def _match_at(self, el, pe, i):
        return b_and([i_eq(x, y) for x, y in zip(el[i:i + len(pe)], pe)])

    def find(self, sub, start=0, end=None):
        el, pe = self._plain(), els_of(sub)
        n = len(el)
        lo, hi, _ = slice(start, end).indices(n)
        if len(pe) == 1 and var_char(sub) is not None and all(isinstance(x, int) for x in el):
            return find_char(pe[0], [(el[i], i) for i in range(lo, hi)])
        for i in range(lo, hi - len(pe) + 1):
            if self._match_at(el, pe, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        el, pe = self._plain(), els_of(sub)
        lo, hi, _ = slice(start, end).indices(len(el))
        if len(pe) == 1 and var_char(sub) is not None and all(isinstance(x, int) for x in el):
            return find_char(pe[0], [(el[i], i) for i in range(hi - 1, lo - 1, -1)])
        for i in range(hi - len(pe), lo - 1, -1):
            if self._match_at(el, pe, i):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=0, end=None):
        el, pe = self._plain(), els_of(sub)
        lo, hi, _ = slice(start, end).indices(len(el))
        n, i = 0, lo
        while i + len(pe) <= hi:
            if self._match_at(el, pe, i):
                n += 1
                i += max(1, len(pe))
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        el, pe, ne = self._plain(), els_of(old), els_of(new)
        if not pe:
            return concretise_str(self).replace(concretise_str(old), concretise_str(new), count)
        out, i, k = [], 0, 0
        while i < len(el):
            if (count < 0 or k < count) and i + len(pe) <= len(el) and self._match_at(el, pe, i):
                out.extend(ne)
                i += len(pe)
                k += 1
            else:
                out.append(el[i])
                i += 1
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        el = self._plain()
        out, cur, n = [], [], 0
        if sep is None:
            ws = R.of_pred(str.isspace)
            i = 0
            while i < len(el):
                if i_in(el[i], ws):
                    if cur:
                        out.append(mk(cur))
                        cur = []
                        n += 1
                else:
                    if maxsplit >= 0 and n >= maxsplit and not cur:
                        rest = mk(el[i:])
                        out.append(rest.rstrip())
                        return out
                    cur.append(el[i])
                i += 1
            if cur:
                out.append(mk(cur))
            return out
        pe = els_of(sep)
        i = 0
        while i < len(el):
            if (maxsplit < 0 or n < maxsplit) and i + len(pe) <= len(el) and self._match_at(el, pe, i):
                out.append(mk(cur))
                cur = []
                n += 1
                i += len(pe)
            else:
                cur.append(el[i])
                i += 1
        out.append(mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        el = self._plain()
        return mk(el[:i]), sep, mk(el[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        el = self._plain()
        return mk(el[:i]), sep, mk(el[i + len(sep):])

    def splitlines(self, keepends=False):
        return concretise_str(self).splitlines(keepends)

    # -- stripping
    def _strip_set(self, chars):
        if chars is None:
            return lambda x: i_in(x, R.of_pred(str.isspace))
        ce = els_of(chars)
        if all(isinstance(c, int) for c in ce):
            rs = R.of_ints(ce)
            return lambda x: i_in(x, rs)
        return lambda x: b_or([i_eq(x, c) for c in ce])

    def lstrip(self, chars=None):
        f, el, i = self._strip_set(chars), self._plain(), 0
        while i < len(el) and f(el[i]):
            i += 1
        return mk(el[i:])

    def rstrip(self, chars=None):
        f, el = self._strip_set(chars), self._plain()
        j = len(el)
        while j > 0 and f(el[j - 1]):
            j -= 1
        return mk(el[:j])

    def strip(self, chars=None):
        t = self.lstrip(chars)
        return t.rstrip(chars)

    # -- mapping
    def _case(self, fn):
        out = []
        for x in self._plain():
            if isinstance(x, int):
                out.extend(map(ord, fn(chr(x))))
                continue
            parts, multi = case_parts(fn)
            if not i_in(x, multi):
                if C.ranged(x):
                    out.append(C.piecewise(x, parts))
                    continue
                for rs, _, off in parts:
                    if i_in(x, rs):
                        out.append(x + off)
                        break
            else:
                out.extend(map(ord, fn(chr(C.concretise_int(x)))))
        return mk(out)

    def lower(self):
        # a capital sigma at the end of a word becomes another small sigma
        if len(self._plain()) > 1 and b_or([i_in(x, ((0x3A3, 0x3A3),)) for x in self._plain()]):
            return concretise_str(self).lower()
        return self._case(str.lower)

    def casefold(self):
        return self._case(str.casefold)

    def upper(self):
        return self._case(str.upper)

    def swapcase(self):
        return concretise_str(self).swapcase()

    def title(self):
        return concretise_str(self).title()

    def capitalize(self):
        t = self[:1].upper() + self[1:].lower()
        return t

    def translate(self, table):
        out = []
        for x in self._plain():
            if isinstance(x, int):
                out.extend(els_of(chr(x).translate(table)) if not _symtable(table) else _tr(table, x))
                continue
            if isinstance(table, dict):
                if C.ranged(x):
                    ok, val = lookup(x, [(k, val) for k, val in table.items() if isinstance(k, int)])
                    if not ok:
                        out.append(x)
                    elif val is not None:
                        out.extend(els_of(val) if is_str(val) else (val,))
                    continue
                done = False
                for k, val in table.items():
                    if isinstance(k, int) and i_eq(x, k):
                        done = True
                        if val is None:
                            pass
                        elif isinstance(val, int):
                            out.append(val)
                        else:
                            out.extend(els_of(val))
                        break
                if not done:
                    out.append(x)
            else:
                out.extend(map(ord, chr(C.concretise_int(x)).translate(table)))
        return mk(out)

    def join(self, it):
        return s_join(self, it)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = str(encoding).lower().replace("_", "-")
        bad = ENCODABLE.get(enc)
        if bad is not None and errors == "surrogatepass" and enc.startswith("utf"):
            bad = ()
        if bad is None or errors not in ("strict", "surrogatepass", "ignore", "replace") or any(isinstance(x, Opaque) for x in self.el):
            return concretise_str(self).encode(encoding, errors)
        out = []
        for i, x in enumerate(self.el):
            if bad and bool(i_in(x, bad) if not isinstance(x, int) else R.has(bad, x)):
                if errors == "ignore":
                    continue
                if errors == "replace":
                    x = 63
                else:
                    raise UnicodeEncodeError(enc, "?" * i + chr(bad[0][0]) + "?" * (len(self.el) - i - 1), i, i + 1, "cannot be encoded")
            out.append(x)
        if errors in ("ignore", "replace"):
            t = mk(out)
            if isinstance(t, str):
                return t.encode(encoding)
            return SymBytes(t, enc)
        return SymBytes(self, enc)

    def format(self, *a, **k):
        return concretise_str(self).format(*a, **k)

    def expandtabs(self, n=8):
        return concretise_str(self).expandtabs(n)

    def zfill(self, n):
        return concretise_str(self).zfill(n)

    def ljust(self, n, f=" "):
        return self + f * max(0, n - len(self))

    def rjust(self, n, f=" "):
        return f * max(0, n - len(self)) + self

    def center(self, n, f=" "):
        return concretise_str(self).center(n, f)


_SURR = ((0xD800, 0xDFFF),)
ENCODABLE = {"utf-8": _SURR, "utf8": _SURR, "ascii": ((128, 0x10FFFF),), "us-ascii": ((128, 0x10FFFF),), "latin-1": ((256, 0x10FFFF),),
             "iso-8859-1": ((256, 0x10FFFF),), "utf-16-le": _SURR, "utf-16-be": _SURR, "utf-16": _SURR, "utf-32-le": _SURR,
             "utf-32-be": _SURR, "utf-32": _SURR}


class SymBytes:
    """Text in an encoding."""
    __slots__ = ("text", "enc")

    def __init__(self, text, enc):
        self.text = text
        self.enc = enc

    def __len__(self):
        if self.enc.startswith("utf-32"):
            return 4 * len(self.text) + (4 if self.enc == "utf-32" else 0)
        n = 0
        if self.enc.startswith("utf-16"):
            for x in els_of(self.text):
                n += 4 if bool(i_in(x, ((0x10000, 0x10FFFF),)) if not isinstance(x, int) else x > 0xFFFF) else 2
            return n + (2 if self.enc == "utf-16" else 0)
        if self.enc not in ("utf-8", "utf8"):
            return len(self.text)
        for x in els_of(self.text):
            for k, hi in enumerate((0x7F, 0x7FF, 0xFFFF), 1):
                if bool(i_in(x, ((0, hi),)) if not isinstance(x, int) else x <= hi):
                    break
            else:
                k = 4
            n += k
        return n

    def __bool__(self):
        return len(self.text) > 0

    def decode(self, encoding="utf-8", errors="strict"):
        e = str(encoding).lower().replace("_", "-")
        if e == self.enc or e in ("utf-8", "utf8") and self.enc in ("utf-8", "utf8", "ascii", "us-ascii"):
            return self.text
        return self.conc().decode(encoding, errors)

    def conc(self):
        return concretise_any(self.text).encode(self.enc)

    def __eq__(self, o):
        if isinstance(o, SymBytes) and o.enc == self.enc:
            return self.text == o.text
        return self.conc() == concretise_any(o)

    def __hash__(self):
        return hash(self.conc())

    def __getitem__(self, i):
        return self.conc()[i]

    def __iter__(self):
        return iter(self.conc())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.conc(), name)


def _symtable(t):
    return isinstance(t, dict) and any(is_sym(v) for v in t.values())


def _tr(table, x):
    v = table.get(x, x)
    if v is None:
        return ()
    return (v,) if isinstance(v, int) else els_of(v)


def s_join(sep, it):
    out = []
    first = True
    se = els_of(sep)
    for i, x in enumerate(it):
        if not is_str(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if not first:
            out.extend(se)
        first = False
        out.extend(els_of(x))
    return mk(out)


def s_contains(hay, needle):
    if isinstance(hay, str) and isinstance(needle, str):
        return needle in hay
    if not is_str(needle):
        raise TypeError("'in <string>' requires string as left operand, not " + type(needle).__name__)
    h0, n0 = els_of(hay), els_of(needle)
    if any(isinstance(x, Opaque) for x in n0):
        # the same text embedded as it is
        hk, nk = [_akey(x) for x in h0], [_akey(x) for x in n0]
        for i in range(len(hk) - len(nk) + 1):
            if hk[i:i + len(nk)] == nk:
                return True
    he = hay._plain() if isinstance(hay, SymStr) else els_of(hay)
    ne = needle._plain() if isinstance(needle, SymStr) else els_of(needle)
    if len(ne) == 0:
        return True
    if len(ne) == 1:
        if isinstance(ne[0], SymInt) and all(isinstance(h, int) for h in he):
            return i_in(ne[0], R.of_ints(he))
        return b_or([i_eq(h, ne[0]) for h in he])
    return b_or([b_and([i_eq(h, x) for h, x in zip(he[i:], ne)]) for i in range(len(he) - len(ne) + 1)])
