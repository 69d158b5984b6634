from fcsql.parser import (ExpressionAnd, ExpressionGroup, ExpressionNot, ExpressionOr, ExpressionWildcard, Operator, QueryDisjunction,
                          QueryGroup, QuerySegment, QuerySequence, QueryWithWithin, RegexFlag, SimpleWithin,
                          SimpleWithinScope)

from sx.ctx import case
from cases import gen
from cases.common import parse
from cases.vcommon import SIZES, MORE_SIZES, WIDE_BOUNDS, surroundings, wide, expr, judge, KNOWN, collect

WORDC = ((45, 45), (48, 57), (65, 90), (97, 122))


def one(c, ident, **kw):
    c.show("identifier", ident)
    judge(c, expr(ident), **kw)


@case("C17", bounds="one expression whose identifier is any string of 0-10 characters; no allow list, or an empty one", weight=2)
def anystring(c):
    one(c, c.chars("x", c.choose("n", list(range(11)))), ids=c.choose("none", [None, []]))


@case("C17", bounds="every known identifier, word and x-... with one character replaced by, inserted as, any character, deleted, or "
                    "in other case")
def near(c):
    w = c.choose("w", list(KNOWN) + ["word", "x-a", "x-", "x-pos", "y-x-"])
    k = c.choose("k", ["rep", "ins", "del", "upper", "title", "same", "twice"])
    if k in ("rep", "ins", "del"):
        i = c.choose("i", list(range(len(w) + (k == "ins"))))
        w = w[:i] + ("" if k == "del" else c.char("h")) + w[i + (k != "ins"):]
    elif k == "upper":
        w = w.upper()
    elif k == "title":
        w = w.title()
    elif k == "twice":
        w = w + w
    one(c, w)


@case("C17", bounds="identifier of 0-3 characters, allow list of 1-3 identifiers of 0-3 characters, all arbitrary", weight=2)
def allow(c):
    n = c.choose("n", [0, 1, 2, 3])
    ids = [c.chars("a%d" % i, c.choose("l%d" % i, [0, 1, 2, 3]) if i == 0 else n) for i in range(c.choose("k", [1, 2, 3]))]
    c.show("allowed", ids)
    one(c, c.chars("x", n), ids=ids)


@case("C17", bounds="allow lists that hold or lack known identifiers, word and custom layers, against each of them with one "
                    "arbitrary character")
def allow_known(c):
    pool = ["text", "pos", "word", "x-my"]
    ids = [x for x in pool if c.bool("in" + x)] + c.choose("more", [[], ["other"]])
    w = c.choose("w", pool + ["lemma", "other", "x-"])
    i = c.choose("i", list(range(len(w) + 1)))
    if i < len(w):
        w = w[:i] + c.char("h") + w[i + 1:]
    one(c, w, ids=ids or None)


def wrap(c, e, name):
    """The expression at one of the places an expression can stand at, with others beside it."""
    def other(i):
        return expr("foo" if c.bool("%so%d" % (name, i)) else "text")
    k = c.choose(name, ["not", "group", "and1", "and2", "or3", "bare"])
    if k == "not":
        return ExpressionNot(e)
    if k == "group":
        return ExpressionGroup(e)
    if k == "and1":
        return ExpressionAnd([e, other(0)])
    if k == "and2":
        return ExpressionAnd([other(0), e])
    if k == "or3":
        return ExpressionOr([other(0), e, other(1)])
    return e


@case("C17", bounds="an expression (identifier of 2-4 arbitrary characters) under up to 2 nested boolean nodes, in a segment under a "
                    "group, sequence, disjunction or within query, beside other expressions", weight=2)
def places(c):
    x = expr(c.chars("x", c.choose("n", [2, 4]), WORDC))
    e = QuerySegment(wrap(c, wrap(c, x, "w1"), "w2"), 1, 1)
    k = c.choose("q", ["seg", "group", "seq", "disj", "within"])
    o = QuerySegment(expr("bar"), 0, -1)
    if k == "group":
        e = QueryGroup(e, 0, 5)
    elif k == "seq":
        e = QuerySequence([QuerySegment(ExpressionWildcard(), 1, 1), e, o])
    elif k == "disj":
        e = QueryDisjunction([o, QueryGroup(e, 1, 1)])
    elif k == "within":
        e = QueryWithWithin(QuerySequence([e, e]), SimpleWithin(SimpleWithinScope.SENTENCE))
    judge(c, e, ids=c.choose("ids", [None, ["bar", "text"]]))


IDS = ["text", "word", "x-a", "foo"]


def qexpr(c, n):
    """Parsed segment of n expressions with every boolean structure and each identifier chosen."""
    span = c.choose("span", [(0, 0)] + [(i, j) for i in range(n) for j in range(i + 1, n + 1)])
    out = ""
    for i in range(n):
        if i:
            out = out + c.choose("op%d" % i, ["&", "|"])
        out = out + ("(" if span[0] == i < span[1] else "") + c.choose("not%d" % i, ["", "!"])
        out = out + c.choose("id%d" % i, IDS) + '=".*"' + (")" if span[1] == i + 1 and span[1] > span[0] else "")
    return out


@case("C17", bounds="parsed segments of 1-2 comparisons with any structure, each layer known, word, custom or unknown, with locations",
      weight=3)
def parsed(c):
    q = "[" + qexpr(c, c.choose("n", [1, 2])) + "]"
    c.show("query", q)
    judge(c, parse(q).tree, query=q, ids=c.choose("ids", [None, ["foo", "word"]]))


@case("C17", bounds="parsed queries of 3 parts (segments, implicit literals, groups, wildcard) with any separator and within, each layer "
                    "known, word, custom or unknown", weight=2)
def parsed3(c):
    q = ""
    for i in range(3):
        k = c.choose("k%d" % i, ["seg", "grp", "lit", "wild"] if i < 2 else ["seg", "grp"])
        s = "[" + c.choose("id%d" % i, IDS) + '=".*"]' if k in ("seg", "grp") else ""
        q = q + (s if k == "seg" else "(" + s + "){2}" if k == "grp" else '".*"' if k == "lit" else "[]")
        q = q + (c.choose("sep%d" % i, [" ", "|"]) if i < 2 else c.choose("w", ["", " within s"]))
    c.show("query", q)
    judge(c, parse(q).tree, query=q)


@case("C17", bounds="parsed comparison with an identifier of 1-6 arbitrary word characters")
def parsed_any(c):
    n = c.choose("n", [1, 2, 3, 4, 5, 6])
    q = "[" + c.chars("x", n, gen.ALNUM if n > 3 else WORDC) + '=".*"]'
    c.show("query", q)
    o = parse(q)
    if o.ok:
        judge(c, o.tree, query=q)


@case("C17", bounds="the implicit literal's default identifier of 1-4 arbitrary characters")
def default_identifier(c):
    ident = c.chars("x", c.choose("n", [1, 2, 3, 4]))
    c.show("default", ident)
    o = parse('".*" | ".+"', default_identifier=ident)
    judge(c, o.tree)


@case("C17", bounds="the verdict does not depend on operator, text, flags, occurrence counts or warnings_as_errors")
def independent(c):
    ident = c.choose("id", IDS)
    from fcsql.parser import Operator
    e = expr(ident, regex=c.chars("r", c.choose("n", [0, 1, 2])), op=c.choose("op", list(Operator)),
             flags={f for f in RegexFlag if c.bool("f" + f.char)} or None)
    s = QuerySegment(e, c.int("lo", 0, 100), c.int("hi", -1, 100))
    judge(c, s, warnings_as_errors=c.bool("wae"))


@case("C17", bounds="parsed segments of 3 comparisons with any structure, each layer of 4 kinds", tier="thorough", weight=5)
def parsed_3(c):
    q = "[" + qexpr(c, 3) + "]"
    c.show("query", q)
    judge(c, parse(q).tree, query=q)


@case("C17", bounds="an identifier of each kind, either operator, flagged or not, under any three nested parents", weight=2)
def surrounded(c):
    e = expr(c.choose("id", IDS), op=c.choose("op", list(Operator)), flags=c.choose("flags", [None, {RegexFlag.IGNORE_DIACRITICS}]))
    judge(c, surroundings(c, e), ids=c.choose("ids", [None, ["foo", "text"]]))


@case("C17", bounds=WIDE_BOUNDS % SIZES, weight=2)
def sizes(c):
    judge(c, wide(c), ids=c.choose("ids", [None, ["foo", "text"]]))


@case("C17", bounds=WIDE_BOUNDS % MORE_SIZES, weight=2, tier="thorough")
def more_sizes(c):
    judge(c, wide(c, MORE_SIZES), ids=c.choose("ids", [None, ["foo", "text"]]))


@case("C17", bounds="identifiers of 7..1025 characters, three of them arbitrary; allow lists of 1..257 others with or without it")
def long(c):
    n = c.choose("n", [7, 9, 13, 17, 21, 33, 41, 65, 101, 129, 257, 513, 1025])
    s = c.choose("pre", ["", "x-"]) + "abcdefg-" * (n // 8 + 1)
    ident = c.char("f", WORDC) + s[1:n // 2] + c.char("m", WORDC) + s[n // 2 + 1:n - 1] + c.char("l", WORDC)
    k = c.choose("k", [0, 1, 2, 3, 9, 33, 257])
    ids = ["id%d" % i for i in range(k)]
    at = c.choose("at", ["no", "first", "last"]) if k else "no"
    if at != "no":
        ids.insert(0 if at == "first" else len(ids), ident)
    judge(c, expr(ident), ids=ids)


@case("C17", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    q = gen.varied(c, ident="zz")
    c.show("query", q)
    o = parse(q)
    if o.ok:
        judge(c, o.tree, query=q, ids=c.choose("ids", [None, ["foo", "word"]]))


@case("C17", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    q = gen.varied(c, ident="zz", triples=True)
    c.show("query", q)
    o = parse(q)
    if o.ok:
        judge(c, o.tree, query=q, ids=c.choose("ids", [None, ["foo", "word"]]))
