import sys

import fcsql
import fcsql.parser
from fcsql.parser import QueryNode, QueryParser, QueryParserException

from sx.ctx import case
from cases.common import parse, preorder, kind, debug_logging, under_setups, SETUP_BOUNDS
from cases import big, gen

ARITY = {"Expression": (0, 0), "ExpressionWildcard": (0, 0), "SimpleWithin": (0, 0), "QueryWithWithin": (2, 2),
         "QuerySegment": (1, 1), "QueryGroup": (1, 1), "ExpressionNot": (1, 1), "ExpressionGroup": (1, 1),
         "ExpressionAnd": (2, None), "ExpressionOr": (2, None), "QueryDisjunction": (2, None), "QuerySequence": (1, None)}


def complete(c, t):
    c.check(isinstance(t, QueryNode), "parse returned something that is no query node")
    if isinstance(t, QueryNode):
        for n in preorder(t):
            c.check(isinstance(n, QueryNode), "a child is no query node")
            if isinstance(n, QueryNode):
                lo, hi = ARITY[kind(n)]
                c.check(lo <= len(n.children) and (hi is None or len(n.children) <= hi), "partial tree at " + kind(n))


def check(c, q, full=True):
    c.show("query", q)
    a = parse(q, enableSourceLocations=True)
    c.check(a.kind != "other", "QueryParser.parse raised something else than QueryParserException")
    if a.ok:
        complete(c, a.tree)
    b = parse(q, enableSourceLocations=False)
    c.check(b.kind != "other", "QueryParser.parse raised something else than QueryParserException (no locations)")
    c.check(a.kind == b.kind, "outcome depends on source locations")
    if b.ok:
        complete(c, b.tree)
    if not full:
        return
    try:
        t = fcsql.parse(q)
        k = "ok"
        complete(c, t)
    except QueryParserException:
        k = "refused"
    except Exception:
        k = "other"
    c.check(k == a.kind, "fcsql.parse behaves differently from QueryParser.parse")
    try:
        r = fcsql.can_parse(q)
    except Exception:
        r = "raised"
    c.check(r is True or r is False, "can_parse returned something else than True or False")
    c.check((r is True) == (a.kind == "ok"), "can_parse disagrees with parse")


@case("C03", bounds="every string of 0-3 characters", weight=5)
def any3(c):
    check(c, c.chars("x", c.choose("n", [0, 1, 2, 3])))


@case("C03", bounds="every string of 4 characters", tier="thorough", weight=6)
def any4(c):
    check(c, c.chars("x", 4), full=False)


@case("C03", bounds="every string of 5 characters starting with a quote, [ or (", tier="thorough", weight=6)
def any5(c):
    check(c, c.choose("f", ['"', "'", "[", "("]) + c.chars("x", 4), full=False)


@case("C03", bounds="12 seed queries with any one position replaced by, or any one character inserted as, an arbitrary "
                    "character", weight=4)
def holes(c):
    check(c, gen.holes(c))


@case("C03", bounds="6 seed queries with any two adjacent characters replaced by two arbitrary ones", tier="thorough",
      weight=4)
def holes2(c):
    check(c, gen.holes2(c), full=False)


@case("C03", bounds="every prefix and suffix of 12 seed queries followed/preceded by one arbitrary character", weight=2)
def cut(c):
    s = c.choose("seed", gen.SEEDS)
    pos = c.choose("pos", list(range(len(s))))
    if c.bool("front"):
        check(c, c.char("h") + s[pos:], full=False)
    else:
        check(c, s[:pos] + c.char("h"), full=False)


@case("C03", bounds="escapes with wrong or huge digits: \\x, \\u, \\U followed by 2/4/8 arbitrary characters", weight=3)
def escapes(c):
    k, n = c.choose("k", [("x", 2), ("u", 4), ("U", 8)])
    check(c, '"\\' + k + c.chars("h", n, "0189afAFgG\"\\") + '"' if n < 8 else
          '"\\U' + c.chars("h", 3, gen.HEXD) + "0" * 5 + '"')


@case("C03", bounds="8-digit escapes with arbitrary hexadecimal digits", weight=2)
def escapeU(c):
    check(c, '"\\U' + gen.hexes(c, "h", 8) + '"', full=False)


@case("C03", bounds="quantifier texts {..} of up to 4 arbitrary characters after a literal", weight=2)
def quant(c):
    check(c, '"a"{' + c.chars("x", c.choose("n", [0, 1, 2, 3])) + "}", full=False)


@case("C03", bounds="flags of up to 4 arbitrary flag letters", weight=2)
def flags(c):
    check(c, '"a"/' + c.chars("x", c.choose("n", [1, 2, 3, 4]), "icICld"), full=False)


DEPTHS = [1, 2, 5, 10, 20, 40]


@case("C03", bounds="deep nesting of groups and parenthesised expressions (1..40, complete) and of !, unclosed ( and [( (1..5; the "
                    "ambiguous grammar takes time exponential in them) around an arbitrary character")
def deep(c):
    k = c.choose("k", ["group", "paren", "not", "open", "openx"])
    d = c.choose("d", DEPTHS if k in ("group", "paren") else [1, 2, 3, 4, 5])
    ch = c.char("x", gen.PRINT)
    q = {"group": "(" * d + '"' + ch + '"' + ")" * d, "paren": "[" + "(" * d + 'a="' + ch + '"' + ")" * d + "]",
         "not": "[" + "!" * d + 'a="' + ch + '"]', "open": "(" * d + '"' + ch + '"', "openx": "[" + "(" * d + ch}[k]
    check(c, q, full=False)


@case("C03", bounds="quantifiers whose digits number 4299-5000 (the interpreter refuses to convert more than 4300), the last one arbitrary; "
                    "an expression with a literal of 2000 and 20000 characters, the last one arbitrary")
def huge(c):
    k, n = c.choose("k", [("n", 4299), ("n", 4300), ("n", 4301), ("n", 5000), ("0", 4301), (",m", 4302), ("lit", 2000), ("ident", 2000)])
    d = c.char("d", "0123456789")
    if k == "lit":
        check(c, '"' + "a" * n + d + '"', full=False)
    elif k == "ident":
        check(c, '[' + "a" * n + d + '="b"]', full=False)
    else:
        check(c, '"a"{' + ("," if k == ",m" else "") + ("0" if k == "0" else "7") * (n - 1) + d + "}", full=False)


@case("C03", bounds="groups and parenthesised expressions nested deeper than the interpreter's recursion limit (limit 900 frames above the "
                    "call, 160-400 levels, as in an application that uses much of the stack)")
def too_deep(c):
    k = c.choose("k", ["group", "paren"])
    d = c.choose("d", [200, 400])
    q = {"group": "(" * d + '"a"' + ")" * d, "paren": "[" + "(" * d + 'a="b"' + ")" * d + "]"}[k]
    loc = c.bool("loc")
    old = sys.getrecursionlimit()
    n, f = 0, sys._getframe()
    while f is not None:
        n, f = n + 1, f.f_back
    try:
        sys.setrecursionlimit(n + 900)
        o = parse(q, enableSourceLocations=loc)
    finally:
        sys.setrecursionlimit(old)
    c.check(o.kind != "other", "nesting beyond the recursion limit raises something else than QueryParserException")
    c.check(parse("'b'").ok, "a legal query is refused after one that is nested too deeply")


@case("C03", bounds="parser configurations: any default identifier of up to 2 arbitrary characters, both operators, every "
                    "normalization form, locations on or off, on a literal of 2 arbitrary characters", weight=2)
def config(c):
    from fcsql.parser import Operator
    ident = c.chars("i", c.choose("n", [0, 1, 2]))
    form = c.choose("form", [None, "NFC", "NFD", "NFKC", "NFKD"])
    op = c.choose("op", list(Operator))
    q = '"' + c.chars("x", 2) + '"'
    c.show("query", q)
    ks = []
    for loc in (False, True):
        o = parse(q, default_identifier=ident, default_operator=op, unicode_normalization_form=form,
                  enableSourceLocations=loc)
        c.check(o.kind != "other", "another exception")
        ks.append(o.kind)
    c.check(ks[0] == ks[1], "outcome depends on source locations")
    c.check((ks[0] == "ok") == (parse(q).kind == "ok"), "outcome depends on the configuration")


@case("C03", bounds="debug logging enabled: every string of 0-2 characters and 4 seed queries with one arbitrary character",
      weight=2)
def logged(c):
    q = c.chars("x", c.choose("n", [0, 1, 2])) if c.bool("k") else gen.holes(c, gen.SEEDS[1:4] + gen.SEEDS[5:6], ins=False)
    c.show("query", q)
    a = parse(q)
    with debug_logging() as sink:
        b = parse(q, enableSourceLocations=True)
    c.check(sink.count > 0, "case broken: nothing was logged")
    c.check(b.kind != "other", "another exception with debug logging")
    c.check(a.kind == b.kind, "outcome depends on debug logging")


@case("C03", bounds="15 query templates with one arbitrary character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q), gen.ANY)


@case("C03", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c))


@case("C03", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"))


@case("C03", bounds=big.faulty_bounds(), weight=2)
def faulty_sizes(c):
    check(c, big.faulty(c))


@case("C03", bounds=big.faulty_bounds("thorough"), tier="thorough", weight=2)
def more_faulty_sizes(c):
    check(c, big.faulty(c, "thorough"))


@case("C03", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c))


@case("C03", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True))
