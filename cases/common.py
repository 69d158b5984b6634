"""Shared helpers of the cases: running the real parser and comparing its trees
with the reference."""
import logging

import fcsql
import fcsql.parser
import fcsql.validation
from fcsql.parser import QueryParser
from fcsql.parser import QueryParserException
from fcsref.parser import ref_parse

FLAG_LETTER = {
    fcsql.parser.RegexFlag.CASE_INSENSITIVE: "i",
    fcsql.parser.RegexFlag.CASE_SENSITIVE: "I",
    fcsql.parser.RegexFlag.LITERAL_MATCHING: "l",
    fcsql.parser.RegexFlag.IGNORE_DIACRITICS: "d",
}


class Outcome:
    def __init__(self, kind, tree=None, exc=None, errors=None):
        self.kind = kind  # ok | refused | other
        self.tree = tree
        self.exc = exc
        self.errors = errors

    @property
    def ok(self):
        return self.kind == "ok"


def parse_with(p, q):
    try:
        t = p.parse(q)
    except QueryParserException as ex:
        return Outcome("refused", exc=ex, errors=list(p.errors))
    except Exception as ex:
        return Outcome("other", exc=ex, errors=list(p.errors))
    return Outcome("ok", tree=t, errors=list(p.errors))


SETUP = []  # the setup in force (at most one): parser configuration, what the parser parsed before, debug logging


def parse(q, **kw):
    if not SETUP:
        return parse_with(QueryParser(**kw), q)
    s = SETUP[0]
    p = QueryParser(**dict(s["kw"], **kw))
    for h in s["history"]:
        parse_with(p, q if h is None else h)
    return parse_with(p, q)


class Sink(logging.Handler):
    def __init__(self):
        super().__init__()
        self.count = 0

    def emit(self, record):
        self.count += 1


class debug_logging:
    """Every logger of the package at level DEBUG, records counted and dropped."""

    def __enter__(self):
        self.lg = logging.getLogger("fcsql")
        self.others = [logging.getLogger(n) for n in list(logging.root.manager.loggerDict) if n.startswith("fcsql.")]
        self.old = [(x, x.level) for x in [self.lg] + self.others]
        self.prop, self.sink, self.disabled = self.lg.propagate, Sink(), logging.root.manager.disable
        for x, _ in self.old:
            x.setLevel(logging.DEBUG)
        self.lg.propagate = False
        self.lg.addHandler(self.sink)
        logging.disable(logging.NOTSET)
        return self.sink

    def __exit__(self, *a):
        logging.disable(self.disabled)
        for x, l in self.old:
            x.setLevel(l)
        self.lg.propagate = self.prop
        self.lg.removeHandler(self.sink)
        return False


OP = fcsql.parser.Operator
FULL = {"default_identifier": "word", "default_operator": OP.NOT_EQUALS, "unicode_normalization_form": "NFKD",
        "enableSourceLocations": True}
GOOD = '([!(a="1" & q:b!="2"/i) | c="3"]{2,3} []* | (\'x\'/Id){2} "y"?) within p'
SYN, LEX, SEM = '[a="b" & (', '"a" §', '["q"]{3,2}'
LEXSYN = '"a" § [b'
SETUPS = [
    {"kw": {"default_identifier": "word"}}, {"kw": {"default_operator": OP.NOT_EQUALS}}, {"kw": {"unicode_normalization_form": "NFD"}},
    {"kw": {"unicode_normalization_form": None}}, {"kw": {"enableSourceLocations": True}}, {"kw": FULL},
    {"history": [GOOD]}, {"history": [SYN]}, {"history": [LEX]}, {"history": ['"a"{3,2}']}, {"history": ['"a"/iI']}, {"history": [None]},
    {"kw": FULL, "history": [LEXSYN, GOOD, '"a"{3,2}', None, SYN]}, {"debug": True}, {"kw": FULL, "history": [GOOD], "debug": True},
]
SETUP_BOUNDS = ("parser set-ups: other default identifier, default operator, normalization form, locations on, all of them; the parser "
                "used before for a rich query, a syntax error, unrecognised text, a bad quantifier, bad flags, the same query, all of "
                "them; debug logging on")
TEMPLATES = [
    '"%"', "'a' \"%\"/i", '[word = "%"/Id]', '[pos="%" & lemma != "x"/i]{2,3}', '[!a="%" | c="d"]+ within s', '("%" | "b"){2,} within p',
    '[]{,2} "%"? within utterance', "[ q:text='\\x41%' ]*", '(("a") "%")? | []', '[(a="1" | b="2") & c="%"]', '"\\x41\\n%"',
    '"a"{3,2} "%"', '"%"/iI', '"a" [b="%"', '"a" § "%"',
]


def under_setups(c, check, dom, templates=None, skip=()):
    """check(query) in each set-up."""
    s = c.choose("setup", [x for x in SETUPS if not any(k in x.get("kw", {}) for k in skip)])
    a, b = c.choose("template", templates or TEMPLATES).split("%")
    q = a + c.char("h", dom) + b
    c.show("setup", str(s))
    SETUP.append({"kw": s.get("kw", {}), "history": s.get("history", [])})
    try:
        if s.get("debug"):
            with debug_logging():
                check(q)
        else:
            check(q)
    finally:
        SETUP.clear()


def kind(n):
    return type(n).__name__


def preorder(n):
    out = [n]
    for c in n.children:
        out.extend(preorder(c))
    return out


def expressions(n):
    return [x for x in preorder(n) if kind(x) == "Expression"]


def rexpressions(n):
    return [x for x in preorder(n) if x.kind == "Expression"]


def flags_of(n):
    return None if n.regex_flags is None else frozenset(FLAG_LETTER[f] for f in n.regex_flags)


def align(n, r):
    """Pairs (node, reference node) when the trees have the same shape and node
    kinds (modulo allowed one-element sequences), else None and the place."""
    pairs = []
    if not _align(n, r, pairs):
        return None
    return pairs


def _align(n, r, pairs):
    if kind(n) == "QuerySequence" and len(n.children) == 1 and r.may_wrap and r.kind != "QuerySequence":
        pairs.append((n, Wrap(r)))
        n = n.children[0]
    if kind(n) != r.kind:
        return False
    pairs.append((n, r))
    if len(n.children) != len(r.children):
        return False
    for a, b in zip(n.children, r.children):
        if not _align(a, b, pairs):
            return False
    return True


class Wrap:
    """A one-element sequence wrapper; same text as the node inside."""

    def __init__(self, r):
        self.kind = "QuerySequence"
        self.attrs = {}
        self.start = r.start
        self.stop = r.stop
        self.children = [r]
        self.wrapped = True


def shape(n):
    return [kind(n)] + [shape(x) for x in n.children]


def rshape(r):
    return [r.kind] + [rshape(x) for x in r.children]
