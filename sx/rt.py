"""Runtime the instrumented code calls into: models of builtins and C functions
for symbolic arguments. Everything falls back to the real operation when no
argument is symbolic."""
import builtins
import collections
import enum
import functools
import io
import re
import sys
import types
import unicodedata

from . import core as C
from . import ranges as R
from . import symstr as SS
from .core import SymInt, SymBool, i_in, b_or, b_and
from .symstr import (SymStr, SymBytes, Opaque, mk, els_of, is_sym, is_str, opaque, concretise_any, concretise_str, s_contains,
                     s_join, s_eq)

FuncT, MethT = types.FunctionType, types.MethodType
BuiltinT = types.BuiltinFunctionType
CMethT = type(re.compile('').search)


def enter(fid):
    C.FUNCS.add(fid)


def any_sym(args, kw):
    for a in args:
        if (is_sym(a) or type(a) is SymBytes):
            return True
    for a in kw.values():
        if (is_sym(a) or type(a) is SymBytes):
            return True
    return False


_CONT = (list, tuple, set, frozenset)


def deep_sym(args, kw):
    for a in args:
        if (is_sym(a) or type(a) is SymBytes) or (type(a) in _CONT and any(is_sym(x) or type(x) is SymBytes for x in a)):
            return True
    for a in kw.values():
        if (is_sym(a) or type(a) is SymBytes) or (type(a) in _CONT and any(is_sym(x) or type(x) is SymBytes for x in a)):
            return True
    return False


# -- models -------------------------------------------------------------------


def m_ord(c):
    if isinstance(c, SymStr):
        el = c._plain()
        if len(el) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(el))
        return el[0]
    return ord(c)


def m_chr(i):
    if isinstance(i, SymInt):
        ok = i_in(i, R.ALL)
        if not ok:
            if i_in(i, ((-2147483648, 2147483647),)):
                raise ValueError("chr() arg not in range(0x110000)")
            raise OverflowError("Python int too large to convert to C int")
        return mk((i,))
    return chr(i)


_DEC = {}


def dec_digits(base):
    """[(range set, value offset)] for ASCII digit characters, plus the set of
    other characters that int() might accept."""
    if base in _DEC:
        return _DEC[base]
    parts = [(((48, 47 + min(base, 10)),), -48)]
    if base > 10:
        parts.append((((97, 96 + base - 10),), -87))
        parts.append((((65, 64 + base - 10),), -55))
    known = R.norm(tuple(x for p, _ in parts for x in p))
    other = R.minus(R.of_pred(_maybe_int), known)
    _DEC[base] = (parts, known, other)
    return _DEC[base]


def _maybe_int(ch):
    return ch.isspace() or ch in "_+-" or ch.isdecimal()


def _digit(c):
    if isinstance(c, int):
        return 48 <= c <= 57
    return C.ranged(c) and R.subset(c.domain(), ((48, 57),))


def clamp(d, base):
    """d is known to be a digit of the base; give the engine that bound."""
    if isinstance(d, SymInt) and not C.ranged(d):
        return C.mk_int(d.z(), d.allvars(), 0, base - 1)
    return d


def m_int(x=0, *a, **kw):
    if isinstance(x, SymInt) and not a and not kw:
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SymStr):
        base = kw.get("base", a[0] if a else 10)
        base = C.concretise_int(base)
        el = x._plain()
        if base == 10 and 0 < sys.get_int_max_str_digits() < len(el):
            # CPython refuses to convert that many digits (signs, spaces and underscores do not count)
            if all(_digit(c) for c in el):
                raise ValueError("Exceeds the limit for integer string conversion")
            return int(concretise_str(x), base)
        if base in (10, 16, 8, 2) and el:
            parts, known, other = dec_digits(base)
            val = 0
            for c in el:
                if isinstance(c, int):
                    if not R.has(known, c):
                        if R.has(other, c) or (base != 10 and chr(c) in "xXoObB"):
                            return int(concretise_str(x), base)
                        raise ValueError("invalid literal for int() with base %d: ..." % base)
                    d = int(chr(c), base)
                else:
                    if C.ranged(c) and R.subset(c.domain(), known):
                        d = C.piecewise(c, [(p, 1, off) for p, off in parts])
                        val = val * base + clamp(d, base)
                        continue
                    rngs = [p for p, _ in parts]
                    extra = other if len(el) == 1 or base == 10 else R.minus(R.union(other, R.of_chars("xXoObB")), known)
                    if c.v is not None:
                        off = c.off
                        sh = [R.shift(p, -off) for p in rngs + [extra]]
                        dom = C.CUR.dom[c.v]
                        rest = dom
                        for p in sh:
                            rest = R.minus(rest, p)
                        k = C.CUR.split(c.v, sh + [rest])
                    else:
                        k = len(parts) + 1
                        for j, p in enumerate(rngs + [extra]):
                            if i_in(c, p):
                                k = j
                                break
                    if k == len(parts):
                        return int(concretise_str(x), base)
                    if k > len(parts):
                        raise ValueError("invalid literal for int() with base %d: ..." % base)
                    d = c + parts[k][1]
                val = val * base + d
            return val
        return int(concretise_str(x), base)
    return int(x, *[concretise_any(q) for q in a], **kw)


def m_str(x="", *a, **kw):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        c = x.const()
        return str(c) if c is not None else opaque("str", x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if a or kw:
        return str(x, *a, **kw)
    t = type(x)
    if t is str or t is int or t is bool or x is None:
        return str(x)
    if isinstance(x, BaseException):
        if type(x).__str__ in (BaseException.__str__, Exception.__str__):
            if any(is_sym(q) for q in x.args):
                if len(x.args) == 1:
                    return m_str(x.args[0])
                return opaque("str", "exc", *x.args)
            return str(x)
    f = t.__str__
    if isinstance(f, FuncT):
        return f(x)
    if f is object.__str__ and isinstance(t.__repr__, FuncT):
        return m_repr(x)
    if t in (list, tuple, set, frozenset, dict):
        return m_repr(x)
    return str(x)


def m_repr(x):
    if isinstance(x, (SymStr, SymInt, SymBool)):
        if isinstance(x, SymInt):
            return m_str(x)
        if isinstance(x, SymBool):
            return repr(bool(x))
        return opaque("repr", x)
    t = type(x)
    if t in (list, tuple):
        if not deep_sym((x,), {}) and not any(type(q) in _CONT or type(q).__repr__ is not object.__repr__ and isinstance(
                type(q).__repr__, FuncT) for q in x):
            return repr(x)
        body = s_join(", ", [m_repr(q) for q in x])
        if t is list:
            return "[" + body + "]"
        return "(" + body + ("," if len(x) == 1 else "") + ")"
    if t in (set, frozenset) and x and deep_sym((x,), {}):
        return repr(concretise_any(x))
    if t is dict:
        if not any(is_sym(q) for kv in x.items() for q in kv):
            return repr(x)
        return "{" + s_join(", ", [m_repr(k) + ": " + m_repr(v) for k, v in x.items()]) + "}"
    f = t.__repr__
    if isinstance(f, FuncT):
        if f.__qualname__.endswith("__create_fn__.<locals>.__repr__") or "dataclass" in f.__qualname__ or hasattr(
                x, "__dataclass_fields__"):
            flds = [q for q in x.__dataclass_fields__.values() if q.repr]
            return t.__qualname__ + "(" + s_join(", ", [q.name + "=" + m_repr(getattr(x, q.name)) for q in flds]) + ")"
        return f(x)
    return repr(x)


def m_format(x, spec=""):
    if spec in ("", "s", "d"):
        if is_sym(x):
            return m_str(x)
        if spec == "" and type(x).__format__ is object.__format__:
            return m_str(x)
        if isinstance(x, enum.Enum) and spec == "":
            return m_str(x) if isinstance(type(x).__str__, FuncT) else format(x, spec)
    if isinstance(x, SymInt) and x.const() is None:
        return opaque("format", x, spec)
    return format(concretise_any(x), concretise_any(spec))


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == "r":
            v = m_repr(v)
        elif conv == "s":
            v = m_str(v)
        elif conv == "a":
            v = ascii(concretise_any(v))
        out.append(m_format(v, spec))
    return s_join("", out)


_REAL_ISINSTANCE = isinstance


def is_bool(x, b):
    if _REAL_ISINSTANCE(x, SymBool):
        return x if b else x.negate()
    return x is b


def is_not_bool(x, b):
    if _REAL_ISINSTANCE(x, SymBool):
        return x.negate() if b else x
    return x is not b


def m_isinstance(x, t):
    if type(x) is SymBytes:
        return _REAL_ISINSTANCE(b"", t)
    if _REAL_ISINSTANCE(x, (SymStr, SymInt, SymBool)):
        ts = t if _REAL_ISINSTANCE(t, tuple) else (t,)
        for q in ts:
            if _REAL_ISINSTANCE(q, tuple):
                if m_isinstance(x, q):
                    return True
                continue
            if _REAL_ISINSTANCE(q, types.UnionType):
                if any(m_isinstance(x, z) for z in q.__args__):
                    return True
                continue
            if q is object or q is type(x):
                return True
            if _REAL_ISINSTANCE(x, SymStr) and (q is str or q in (collections.abc.Sequence, collections.abc.Iterable,
                                                                 collections.abc.Sized, collections.abc.Hashable,
                                                                 collections.abc.Container, collections.abc.Collection)):
                return True
            if _REAL_ISINSTANCE(x, SymInt) and q is int:
                return True
            if _REAL_ISINSTANCE(x, SymBool) and q in (bool, int):
                return True
        return False
    return _REAL_ISINSTANCE(x, t)


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        if _REAL_ISINSTANCE(x, SymStr):
            return str
        if _REAL_ISINSTANCE(x, SymInt):
            return int
        if _REAL_ISINSTANCE(x, SymBool):
            return bool
        if type(x) is SymBytes:
            return bytes
    return type(*a)


def m_len(x):
    return len(x)


def m_bool(x=False):
    return bool(x)


def m_list(x=()):
    return list(x)


def m_hash(x):
    return hash(concretise_any(x))


def wrapf(f):
    """A callable that builtins may call back with symbolic arguments."""
    if f is None or type(f) is FuncT or type(f) is MethT:
        m = None
        try:
            m = MODELS.get(f)
        except TypeError:
            pass
        return m or f
    return lambda *a, **k: call(f, *a, **k)


def m_map(f, *its):
    f = wrapf(f)
    return (f(*t) for t in zip(*its))


def m_filter(f, it):
    if f is None:
        return (x for x in it if x)
    f = wrapf(f)
    return (x for x in it if f(x))


def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrapf(key), reverse=bool(reverse))


def m_reduce(f, *a):
    return functools.reduce(wrapf(f), *a)


def m_minmax(f, a, k):
    if k.get("key") is not None:
        k = dict(k, key=wrapf(k["key"]))
    return f(*a, **k)


def m_min(*a, **k):
    if not k and len(a) == 2 and any(_REAL_ISINSTANCE(q, SymInt) for q in a):
        return C.ite(a[1] < a[0], a[1], a[0])
    return m_minmax(min, a, k)


def m_max(*a, **k):
    if not k and len(a) == 2 and any(_REAL_ISINSTANCE(q, SymInt) for q in a):
        return C.ite(a[1] > a[0], a[1], a[0])
    return m_minmax(max, a, k)


def m_range(*a):
    return range(*[C.concretise_int(q) for q in a])


def m_is_normalized(form, s):
    if _REAL_ISINSTANCE(s, SymStr) and form in NFC_SAFE:
        t = m_normalize(form, s)
        return s_eq(t, s)
    return unicodedata.is_normalized(concretise_any(form), concretise_any(s))


NFC_SAFE = {"NFC": 0x300, "NFD": 0xC0, "NFKC": 0xA0, "NFKD": 0xA0}


def m_normalize(form, s):
    if _REAL_ISINSTANCE(s, SymStr) and not _REAL_ISINSTANCE(form, SymStr) and form in NFC_SAFE:
        lim = NFC_SAFE[form]
        for x in s.el:
            if _REAL_ISINSTANCE(x, Opaque):
                return opaque("normalize", form, s)
            if _REAL_ISINSTANCE(x, SymInt):
                if not (x < lim):
                    return opaque("normalize", form, s)
            elif x >= lim:
                return opaque("normalize", form, s)
        return s
    return unicodedata.normalize(concretise_any(form), concretise_any(s))


def _escaped_chars():
    return R.of_ints(c for c in range(128) if re.escape(chr(c)) != chr(c))


ESC = _escaped_chars()


def m_re_escape(s):
    if _REAL_ISINSTANCE(s, SymStr):
        out = []
        for x in s._plain():
            if i_in(x, ESC):
                out.append(92)
            out.append(x)
        return mk(out)
    return re.escape(s)


class SymStringIO:
    def __init__(self, init="", newline="\n"):
        self.parts = [init] if init else []

    def write(self, s):
        self.parts.append(s)
        return len(s) if not _REAL_ISINSTANCE(s, SymStr) else len(s.el)

    def getvalue(self):
        return s_join("", self.parts)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def m_getattr(o, name, *d):
    return getattr(o, concretise_any(name), *d)


def m_maketrans(*a):
    return str.maketrans(*[x if type(x) is dict else concretise_any(x) for x in a])


def m_ident(f):
    return f


MODELS = {}


def model(f, m):
    MODELS[f] = m


for _f, _m in (
    (ord, m_ord), (chr, m_chr), (int, m_int), (str, m_str), (repr, m_repr), (format, m_format),
    (isinstance, m_isinstance), (type, m_type), (hash, m_hash), (range, m_range), (min, m_min), (max, m_max),
    (unicodedata.normalize, m_normalize), (unicodedata.is_normalized, m_is_normalized), (re.escape, m_re_escape), (io.StringIO, SymStringIO), (getattr, m_getattr),
    (str.maketrans, m_maketrans), (map, m_map), (filter, m_filter), (sorted, m_sorted), (functools.reduce, m_reduce),
):
    model(_f, _m)

# C callables that work through the iteration/attribute protocols or simply store their arguments
PASS = {
    len, bool, list, tuple, enumerate, zip, reversed, iter, next, map, filter, any, all, sum, sorted, print, id, callable,
    hasattr, setattr, abs, divmod, collections.deque, object, super, vars, dir, issubclass, collections.OrderedDict,
    slice, round,
}
STORE_METHODS = {
    list: {"append", "extend", "insert", "pop", "clear", "copy", "reverse", "sort", "index", "remove", "count"},
    collections.deque: {"append", "appendleft", "extend", "extendleft", "pop", "popleft", "clear", "copy", "insert",
                        "rotate", "remove", "index", "count"},
    dict: {"values", "items", "keys", "clear", "copy", "popitem"},
    set: {"clear", "copy"},
    tuple: {"index", "count"},
}
_UNHASH = object()


def find_key(d, key):
    """The stored key of dict/set d equal to the symbolic key (forking), or _UNHASH."""
    for k in d:
        if is_str(k) == is_str(key) and bool(k == key):
            return k
    return _UNHASH


def keyed(d, key):
    """(found, value) of the symbolic key in the dict d, or None if it takes find_key."""
    x = SS.var_char(key) if is_str(key) else key
    if not C.ranged(x):
        return None
    if is_str(key):
        return SS.lookup(x, [(ord(k), v) for k, v in d.items() if isinstance(k, str) and len(k) == 1])
    return SS.lookup(x, [(int(k), v) for k, v in d.items() if isinstance(k, int)])


def positions(o, item):
    """(found, position) of the symbolic item in the concrete list or tuple, or None."""
    x = SS.var_char(item) if is_str(item) else item
    if not C.ranged(x) or any(is_sym(k) for k in o):
        return None
    if is_str(item):
        return SS.lookup(x, [(ord(k), i) for i, k in enumerate(o) if isinstance(k, str) and len(k) == 1])
    return SS.lookup(x, [(int(k), i) for i, k in enumerate(o) if isinstance(k, int)])


def _builtin_method(f, self_, args, kw):
    """A bound C method with some symbolic argument (or symbolic content)."""
    name = f.__name__
    t = type(self_)
    if name == "sort" and kw.get("key") is not None:
        kw = dict(kw, key=wrapf(kw["key"]))
    if _REAL_ISINSTANCE(self_, str):
        if name == "join":
            items = list(args[0])
            if any(is_sym(x) for x in items):
                return s_join(str(self_), items)
            return self_.join(items)
        if any_sym(args, kw) or (name == "translate"):
            if name == "format":
                return _str_format(self_, args, kw)
            if name == "translate":
                if _REAL_ISINSTANCE(args[0], dict) and any(is_sym(v) for v in args[0].values()):
                    return SymStr(els_of(self_)).translate(args[0])
                return f(*args)
            if hasattr(SymStr, name) and self_:
                return getattr(SymStr(els_of(self_)), name)(*args, **kw)
            return f(*[concretise_any(a) for a in args], **kw)
        return f(*args, **kw)
    if t is re.Pattern and any_sym(args, kw):
        r = symre.method(self_, name, args, kw)
        if r is not NotImplemented:
            return r
        return f(*[concretise_any(a) for a in args], **{k: concretise_any(v) for k, v in kw.items()})
    if not any_sym(args, kw):
        if t in STORE_METHODS or not deep_sym(args, kw):
            return f(*args, **kw)
    if name == "index" and t in (list, tuple) and len(args) == 1:
        r = positions(self_, args[0])
        if r is not None:
            if not r[0]:
                raise ValueError("<symbolic> is not in list")
            return r[1]
    for base, names in STORE_METHODS.items():
        if _REAL_ISINSTANCE(self_, base) and name in names:
            return f(*args, **kw)
    if _REAL_ISINSTANCE(self_, dict) and name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
        if name in ("get", "__getitem__"):
            r = keyed(self_, args[0])
            if r is not None:
                if r[0]:
                    return r[1]
                if name == "get":
                    return args[1] if len(args) > 1 else None
                raise KeyError("<symbolic>")
        k = find_key(self_, args[0])
        if name == "__contains__":
            return k is not _UNHASH
        if k is not _UNHASH:
            return f(k, *args[1:], **kw)
        if name == "get":
            return args[1] if len(args) > 1 else None
        if name == "pop" and len(args) > 1:
            return args[1]
        if name in ("__getitem__", "pop"):
            raise KeyError("<symbolic>")
    if _REAL_ISINSTANCE(self_, (set, frozenset)) and name in ("__contains__",):
        return find_key(self_, args[0]) is not _UNHASH
    if t in (set, frozenset) and name in ("isdisjoint", "issuperset") and len(args) == 1 and is_str(args[0]):
        cs = [contains(x, self_) for x in args[0]]
        return C.b_not(b_or(cs)) if name == "isdisjoint" else b_and(cs)
    if _REAL_ISINSTANCE(self_, (set,)) and name in ("discard", "remove"):
        k = find_key(self_, args[0])
        if k is not _UNHASH:
            return f(k)
        if name == "remove":
            raise KeyError("<symbolic>")
        return None
    if name in ("__setitem__",) and t in (list, dict):
        return f(*args)
    return f(*[concretise_any(a) for a in args], **{k: concretise_any(v) for k, v in kw.items()})


def _str_format(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        name = field
        if name == "":
            name = str(auto)
            auto += 1
        first, rest = __import__("_string").formatter_field_name_split(name)
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else v[i]
        if conv == "r":
            v = m_repr(v)
        elif conv == "s":
            v = m_str(v)
        out.append(m_format(v, spec or ""))
    return s_join("", out)


def call(f, /, *args, **kw):
    t = type(f)
    if t is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    if t is FuncT or t is MethT:
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        return f(*args, **kw)
    if t is BuiltinT or t is CMethT:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            m = MODELS.get(f)
            if m is not None:
                return m(*args, **kw)
            if f in PASS or not deep_sym(args, kw):
                return f(*args, **kw)
            return f(*[concretise_any(a) for a in args], **{k: concretise_any(v) for k, v in kw.items()})
        if s is str and f.__name__ == "maketrans":
            return m_maketrans(*args)
        if type(s) is type and not any_sym(args, kw):
            return f(*args, **kw)
        return _builtin_method(f, s, args, kw)
    if t is type or isinstance(f, type):
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if f in PASS:
            return f(*args, **kw)
        if f in (set, frozenset):
            if args:
                items = list(args[0])
                if any(is_sym(x) for x in items):
                    items = [concretise_any(x) for x in items]
                return f(items)
            return f()
        if f is dict:
            return f(*args, **kw)
        if isinstance(f, enum.EnumMeta):
            if len(args) == 1 and is_sym(args[0]):
                for k in f._value2member_map_:
                    if bool(args[0] == k):
                        return f(k)
                raise ValueError("<symbolic> is not a valid " + f.__qualname__)
            return f(*args, **kw)
        if f.__module__ == "builtins" and not issubclass(f, BaseException):
            if any_sym(args, kw):
                return f(*[concretise_any(a) for a in args], **{k: concretise_any(v) for k, v in kw.items()})
        return f(*args, **kw)
    if t in (types.MethodDescriptorType, types.WrapperDescriptorType):
        if args and is_sym(args[0]):
            g = getattr(args[0], f.__name__, None)
            if g is not None:
                return g(*args[1:], **kw)
        if deep_sym(args, kw):
            g = getattr(args[0], f.__name__)
            return call(g, *args[1:], **kw)
        return f(*args, **kw)
    if t is types.MethodWrapperType:
        if is_sym(f.__self__) or not any_sym(args, kw):
            return f(*args, **kw)
        n = f.__name__
        if n == "__contains__":
            return contains(args[0], f.__self__)
        if n == "__getitem__":
            return getitem(f.__self__, args[0])
        return f(*args, **kw)
    return f(*args, **kw)


def contains(item, cont):
    if isinstance(cont, (str, SymStr)):
        if isinstance(item, SymStr) or isinstance(cont, SymStr):
            return s_contains(cont, item)
        return item in cont
    t = type(cont)
    if t in (list, tuple, collections.deque):
        if is_sym(item) or any(is_sym(x) for x in cont):
            return b_or([eq(x, item) for x in cont])
        return item in cont
    if t in (set, frozenset, dict) or isinstance(cont, (dict, type({}.keys()), type({}.values()))):
        if is_sym(item):
            return b_or([eq(x, item) for x in cont])
        return item in cont
    if is_sym(item):
        if isinstance(cont, range) and isinstance(item, SymInt):
            if cont.step == 1:
                return i_in(item, ((cont.start, cont.stop - 1),)) if len(cont) else False
            return i_in(item, R.of_ints(cont))
        if isinstance(cont, enum.EnumMeta):
            return b_or([eq(k, item) for k in cont._value2member_map_])
        f = getattr(type(cont), "__contains__", None)
        if isinstance(f, FuncT):
            return item in cont
        if isinstance(cont, collections.abc.Iterable) and not isinstance(cont, collections.abc.Container):
            for x in cont:
                if eq(x, item):
                    return True
            return False
        return concretise_any(item) in cont
    return item in cont


def not_contains(item, cont):
    return C.b_not(contains(item, cont))


def eq(a, b):
    if is_sym(a):
        return a == b
    if is_sym(b):
        return b == a
    return a == b


def getitem(o, k):
    if is_sym(k):
        if isinstance(o, dict):
            r = keyed(o, k) if type(o) is dict else None
            if r is not None and r[0]:
                return r[1]
            q = find_key(o, k) if r is None else _UNHASH
            if q is _UNHASH:
                if hasattr(type(o), "__missing__"):
                    return o[concretise_any(k)]
                raise KeyError("<symbolic>")
            return o[q]
        if isinstance(o, enum.EnumMeta):
            return o[concretise_any(k)]
        if isinstance(o, str) and isinstance(k, SymInt):
            if C.ranged(k) and R.size(k.domain()) <= 512:
                n = len(o)
                r = SS.lookup(k, [(i, o[i]) for i in range(-n, n)])
                if not r[0]:
                    raise IndexError("string index out of range")
                return r[1]
            return o[C.concretise_int(k)]
        if isinstance(o, SymStr):
            return o[k]
        if isinstance(o, (list, tuple)):
            if C.ranged(k) and R.size(k.domain()) <= 512:
                n = len(o)
                r = SS.lookup(k, [(i, o[i]) for i in range(-n, n)])
                if not r[0]:
                    raise IndexError("list index out of range")
                return r[1]
            return o[C.concretise_int(k)]
        return o[concretise_any(k)] if not isinstance(getattr(type(o), "__getitem__", None), FuncT) else o[k]
    if isinstance(k, slice) and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)):
        return o[slice(concretise_any(k.start), concretise_any(k.stop), concretise_any(k.step))]
    return o[k]


def setitem(o, k, v):
    if isinstance(k, SymStr) and isinstance(o, dict):
        q = find_key(o, k)
        if q is _UNHASH:
            o[concretise_any(k)] = v
        else:
            o[q] = v
        return
    o[k] = v


def mod(a, b):
    if isinstance(a, str):
        if is_sym(b) or deep_sym((b,), {}) or _has_obj(b):
            return _percent(a, b)
    return a % b


def _has_obj(b):
    return False


_PCT = re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([sdrxXia%c])")


def _percent(fmt, b):
    args = b if type(b) is tuple else (b,)
    out = []
    i = pos = 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        c = m.group(5)
        if c == "%":
            out.append("%")
            continue
        if m.group(1) is not None:
            v = b[m.group(1)]
        else:
            v = args[i]
            i += 1
        if m.group(2) or m.group(3) or m.group(4):
            if isinstance(v, SymInt) and c in "dxX" and "-" not in m.group(2) and not m.group(4) and v.bounds()[0] >= 0:
                out.append(m_format(v, m.group(2).replace("#", "") + (m.group(3) or "") + c))
                continue
            out.append(("%" + m.group(0)[1:].replace("(%s)" % m.group(1), "")) % (concretise_any(v),))
        elif c == "s":
            out.append(m_str(v))
        elif c == "r":
            out.append(m_repr(v))
        elif c in "di":
            out.append(m_str(v))
        elif c in "xXo" and isinstance(v, SymInt):
            out.append(m_format(v, c))
        else:
            out.append(("%" + c) % (concretise_any(v),))
    out.append(fmt[pos:])
    return s_join("", out)


# ---------------------------------------------------------------------------
# effect-free code (see merge.py) and regular expressions

from .merge import merged, summarise, UNBOUND  # noqa: E402

_ATOMS = (str, int, float, tuple, type(None), SymInt, SymStr, SymBool, type(UNBOUND))


def merged_if(f, inplace, *vals):
    if any(not isinstance(vals[i], _ATOMS) for i in inplace):
        return f(*vals)
    return merged(f, *vals)


from . import symre  # noqa: E402

for _n in symre.NAMES:
    MODELS[getattr(re, _n)] = symre.module_function(_n)
