"""Regular expressions on unknown text: CPython's parsed pattern, matched by backtracking; every test of a character
against a set is a decision of the path. The set of a single-character item is what CPython's own matcher accepts."""
import re
from re import _compiler, _constants as K, _parser

from . import core as C
from . import ranges as R
from .symstr import SymStr, SymInt, mk, els_of, is_str, is_sym, concretise_any

_ALL = None
_SETS = {}
_TREES = {}


def _charset(item, flags, state):
    """Code points that the one-character item accepts."""
    global _ALL
    k = (repr(item), flags)
    if k not in _SETS:
        if _ALL is None:
            _ALL = "".join(map(chr, range(0x110000)))
        p = _compiler.compile(_parser.SubPattern(state, [item]), flags)
        _SETS[k] = R.of_ints(m.start() for m in p.finditer(_ALL))
    return _SETS[k]


def _word(state, flags):
    return _charset((K.IN, [(K.CATEGORY, K.CATEGORY_WORD)]), flags & (re.A | re.U), state)


def tree(p):
    if p not in _TREES:
        t = _parser.parse(p.pattern, p.flags & ~re.U if isinstance(p.pattern, str) else p.flags)
        _TREES[p] = t
    return _TREES[p]


class Unsupported(Exception):
    pass


class M:
    def __init__(self, el, pat, lo, hi):
        self.el = el
        self.pat = pat
        self.tree = tree(pat)
        self.state = self.tree.state
        self.lo = lo
        self.hi = hi

    def test(self, i, rs):
        x = self.el[i]
        return R.has(rs, x) if isinstance(x, int) else bool(C.i_in(x, rs))

    def same(self, x, y, flags):
        if flags & re.I:
            raise Unsupported("group reference without case")
        return bool(C.i_eq(x, y))

    def seq(self, items, k, pos, g, flags, cont):
        """Match items[k:] at pos, then cont(pos, groups). Returns cont's result or None."""
        if k == len(items):
            return cont(pos, g)
        op, av = items[k]
        nxt = lambda p, gg: self.seq(items, k + 1, p, gg, flags, cont)
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if pos < self.hi and self.test(pos, _charset((op, av), flags, self.state)):
                return nxt(pos + 1, g)
            return None
        if op is K.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is K.SUBPATTERN:
            gid, add, sub, p = av
            def close(q, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (pos, q)
                    gg["last"] = gid
                return nxt(q, gg)
            return self.seq(list(p), 0, pos, g, (flags | add) & ~sub, close)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            def rep(n, at, gg):
                def more():
                    if hi is not K.MAXREPEAT and n >= hi:
                        return None
                    def after(q, g2):
                        if q == at and n >= lo:
                            return None
                        return rep(n + 1, q, g2)
                    return self.seq(p, 0, at, gg, flags, after)
                if n < lo:
                    return more()
                if op is K.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(at, gg)
                r = nxt(at, gg)
                return r if r is not None else more()
            return rep(0, pos, g)
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Unsupported("look-behind")
                at = pos - lo
                r = None if at < 0 else self.seq(list(p), 0, at, g, flags, lambda q, gg: (q, gg))
            else:
                r = self.seq(list(p), 0, pos, g, flags, lambda q, gg: (q, gg))
            if op is K.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, g) if r is None else None
        if op is K.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if pos + b - a > self.hi:
                return None
            for i in range(b - a):
                if not self.same(self.el[a + i], self.el[pos + i], flags):
                    return None
            return nxt(pos + b - a, g)
        if op is K.AT:
            return nxt(pos, g) if self.at(av, pos, flags) else None
        if op is K.ATOMIC_GROUP:
            r = self.seq(list(av), 0, pos, g, flags, lambda q, gg: (q, gg))
            return nxt(*r) if r is not None else None
        raise Unsupported(str(op))

    def at(self, a, pos, flags):
        n = len(self.el)
        nl = ((10, 10),)
        if a is K.AT_BEGINNING:
            return pos == 0 or bool(flags & re.M and pos > 0 and self.test(pos - 1, nl))
        if a is K.AT_BEGINNING_STRING:
            return pos == 0
        if a is K.AT_END:
            if pos == n or (pos == n - 1 and self.test(pos, nl)):
                return True
            return bool(flags & re.M and self.test(pos, nl))
        if a is K.AT_END_STRING:
            return pos == n
        if a in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = _word(self.state, flags)
            x = pos > 0 and self.test(pos - 1, w)
            y = pos < n and self.test(pos, w)
            return (x != y) == (a is K.AT_BOUNDARY)
        raise Unsupported(str(a))

    def run(self, pos, full=False, nonempty=False):
        def done(p, g):
            if full and p != self.hi:
                return None
            if nonempty and p == pos:
                return None
            return p, g
        return self.seq(list(self.tree), 0, pos, {}, self.pat.flags, done)


class SymMatch:
    def __init__(self, pat, s, el, pos, endpos, start, end, g):
        self.re, self.string, self._el, self.pos, self.endpos = pat, s, el, pos, endpos
        self._g = dict(g)
        self.lastindex = self._g.pop("last", None)
        self._g[0] = (start, end)
        self.lastgroup = {v: k for k, v in pat.groupindex.items()}.get(self.lastindex)

    def _i(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def _one(self, g, default=None):
        r = self._g.get(self._i(g))
        return default if r is None else mk(self._el[r[0]:r[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.re.groupindex}

    def span(self, g=0):
        return self._g.get(self._i(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, t):
        return _template(self.re, t)(self)

    def __bool__(self):
        return True


def _template(pat, repl):
    """A replacement string as a function of the match."""
    t = _parser.parse_template(repl, pat)

    def f(m):
        out = []
        for x in t:
            v = m._one(x, "") if isinstance(x, int) else x
            if v:
                out.extend(els_of(v))
        return mk(out)
    return f


def _norm(pos, endpos, n):
    pos = max(0, min(int(pos), n))
    endpos = n if endpos is None else max(0, min(int(endpos), n))
    return pos, endpos


def find(pat, s, pos=0, endpos=None, mode="search", nonempty=False):
    el = s._plain() if isinstance(s, SymStr) else els_of(s)
    pos, endpos = _norm(pos, endpos, len(el))
    m = M(el[:endpos], pat, pos, endpos)
    for i in range(pos, endpos + 1):
        r = m.run(i, mode == "fullmatch", nonempty and i == pos)
        if r is not None:
            return SymMatch(pat, s, el, pos, endpos, i, r[0], r[1])
        if mode != "search":
            return None
    return None


def finditer(pat, s, pos=0, endpos=None):
    el = s._plain() if isinstance(s, SymStr) else els_of(s)
    pos, endpos = _norm(pos, endpos, len(el))
    nonempty = False
    while pos <= endpos:
        m = find(pat, s, pos, endpos, nonempty=nonempty)
        if m is None:
            return
        yield m
        pos = m.end()
        nonempty = m.start() == m.end()


def subn(pat, repl, s, count=0):
    f = repl if callable(repl) and not is_str(repl) else None
    if f is None:
        if is_sym(repl):
            if any(not isinstance(x, int) and bool(C.i_eq(x, 92)) or x == 92 for x in els_of(repl)):
                repl = concretise_any(repl)
                f = _template(pat, repl)
            else:
                f = lambda m, _r=repl: _r
        else:
            f = _template(pat, repl)
    el = s._plain() if isinstance(s, SymStr) else els_of(s)
    out, at, n = [], 0, 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out.extend(el[at:m.start()])
        v = f(m)
        if v:
            out.extend(els_of(v))
        at = m.end()
        n += 1
    out.extend(el[at:])
    return mk(out), n


def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m._one(1, ""))
        else:
            out.append(m.groups(""))
    return out


def split(pat, s, maxsplit=0):
    el = s._plain() if isinstance(s, SymStr) else els_of(s)
    out, at, n = [], 0, 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(mk(el[at:m.start()]))
        out.extend(m.groups())
        at = m.end()
        n += 1
    out.append(mk(el[at:]))
    return out


def method(pat, name, args, kw):
    """pat.name(*args) with unknown text somewhere; None if not modelled."""
    try:
        if name in ("match", "fullmatch", "search"):
            return find(pat, *args, mode=name, **_kw(kw))
        if name == "finditer":
            return iter(list(finditer(pat, *args, **_kw(kw))))
        if name == "findall":
            return findall(pat, *args, **_kw(kw))
        if name == "sub":
            return subn(pat, *args, **_kw(kw))[0]
        if name == "subn":
            return subn(pat, *args, **_kw(kw))
        if name == "split":
            return split(pat, *args, **_kw(kw))
    except Unsupported as ex:
        C.CUR.mark_incomplete("regular expression: %s" % ex)
    return NotImplemented


def _kw(kw):
    return {("s" if k == "string" else k): v for k, v in kw.items()}


def module_function(name):
    real = getattr(re, name)

    def f(pattern, *args, **kw):
        if is_sym(pattern):
            pattern = concretise_any(pattern)
        flags = kw.pop("flags", 0)
        n = {"sub": 3, "subn": 3, "split": 2}.get(name, 1)
        if len(args) > n:
            flags = args[n]
            args = args[:n]
        pat = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kw.values()):
            r = method(pat, name, args, kw)
            if r is not NotImplemented:
                return r
            return getattr(pat, name)(*[concretise_any(a) for a in args], **{k: concretise_any(v) for k, v in kw.items()})
        return real(pattern, *args, flags=flags, **kw)
    return f


NAMES = ("match", "fullmatch", "search", "finditer", "findall", "sub", "subn", "split")
