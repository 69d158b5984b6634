from fcsql.parser import (Expression, ExpressionAnd, ExpressionGroup, ExpressionNot, ExpressionOr, ExpressionWildcard,
                          Operator, QueryDisjunction, QueryGroup, QueryNode, QueryNodeType, QuerySegment, QuerySequence,
                          QueryWithWithin, RegexFlag, SimpleWithin, SimpleWithinScope, SourceLocation)

from sx.ctx import case
from cases.common import parse, kind, preorder
from cases import anytree, big, gen

LABEL = {"Expression": "Expression", "ExpressionWildcard": "Wildcard", "ExpressionGroup": "Group", "ExpressionNot": "Not",
         "ExpressionAnd": "And", "ExpressionOr": "Or", "QuerySegment": "QuerySegment", "QueryGroup": "QueryGroup",
         "QuerySequence": "QuerySequence", "QueryDisjunction": "QueryDisjunction", "QueryWithWithin": "QueryWithWithin",
         "SimpleWithin": "SimpleWithin"}


def esc(s):
    return s.replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")


def occ(name, v):
    return "" if v == 1 else "@" + name + "=" + ("*" if v == -1 else str(v)) + " "


def render(n):
    k = kind(n)
    out = "(" + LABEL[k]
    if k == "Expression":
        out = out + " " + (n.qualifier + ":" if n.qualifier else "") + n.identifier + " " + n.operator.value + ' "'
        out = out + esc(n.regex) + '"'
        if n.regex_flags:
            out = out + "/" + "".join(x for x, f in (("i", RegexFlag.CASE_INSENSITIVE), ("I", RegexFlag.CASE_SENSITIVE),
                                                    ("l", RegexFlag.LITERAL_MATCHING), ("d", RegexFlag.IGNORE_DIACRITICS))
                                      if f in n.regex_flags)
    elif k == "SimpleWithin":
        out = out + " " + n.scope.value
    elif k in ("QuerySegment", "QueryGroup"):
        out = out + " " + occ("min", n.min_occurs) + occ("max", n.max_occurs) + render(n.children[0])
    else:
        for x in n.children:
            out = out + " " + render(x)
    out = out + ")"
    if n.location is not None:
        out = out + "@" + str(n.location.start) + ":" + str(n.location.stop)
    return out


def check(c, t):
    got = str(t)
    c.check(c.eq(got, render(t)), "string form")
    c.check(c.eq(str(t), got), "string form differs the second time")


def parsed(c, q, **kw):
    c.show("query", q)
    o = parse(q, **kw)
    if o.ok:
        check(c, o.tree)


@case("C16", bounds="expression nodes with identifier and qualifier of 0-2, literal text of 0-3 arbitrary characters, with or without "
                    "location", weight=3)
def expression(c):
    qual = c.chars("q", c.choose("nq", [1, 2])) if c.bool("hasq") else None
    rx = c.chars("r", c.choose("nr", [0, 1, 2, 3]))
    n = Expression(qual, c.chars("i", c.choose("ni", [0, 1, 2])), c.choose("op", list(Operator)), rx, None)
    c.show("regex", rx)
    if c.bool("loc"):
        n.location = SourceLocation(3, 17)
    check(c, n)


@case("C16", bounds="every flag set on expressions, given as set in any construction order")
def flags(c):
    fl = [f for f in RegexFlag if c.bool("f" + f.char)]
    if c.bool("rev"):
        fl.reverse()
    n = Expression(c.choose("q", [None, "q"]), "w", c.choose("op", list(Operator)), c.chars("r", 1), set(fl))
    check(c, n)
    m = Expression(None, "w", Operator.EQUALS, "x", set(reversed(fl)))
    c.check(c.eq(str(m), render(m)), "string form")


@case("C16", bounds="segments and groups with every minimum 0..10^6 and maximum -1..10^6, every location 0 <= start, stop < 10^6",
      weight=2)
def occurrences(c):
    lo = c.int("lo", 0, 10 ** 6)
    hi = c.int("hi", -1, 10 ** 6)
    e = Expression(None, "w", Operator.EQUALS, "x", None)
    n = QuerySegment(e, lo, hi)
    if c.bool("group"):
        n = QueryGroup(QuerySegment(e, 1, 1), lo, hi)
    if c.bool("loc"):
        n.location = SourceLocation(c.int("start", 0, 10 ** 6), c.int("stop", 0, 10 ** 6))
    check(c, n)


@case("C16", bounds="n-ary nodes with 0-5 children of any of 4 kinds, located or not; every scope")
def nary(c):
    cls = c.choose("k", [ExpressionAnd, ExpressionOr, QuerySequence, QueryDisjunction])
    mk = {"e": lambda: Expression(None, "w", Operator.EQUALS, "x", None), "n": lambda: ExpressionNot(
        Expression("q", "w", Operator.NOT_EQUALS, "y", {RegexFlag.LITERAL_MATCHING})), "s": lambda: QuerySegment(
        ExpressionWildcard(), 0, -1), "w": lambda: SimpleWithin(c.choose("scope", list(SimpleWithinScope)))}
    n = c.choose("n", [0, 1, 2, 3, 4, 5])
    ks = [c.choose("k%d" % i, ["e", "s"]) for i in range(min(n, 3))] + ["n"] * max(0, n - 3)
    ch = [mk[k]() for k in ks]
    if n and c.bool("w"):
        ch[-1] = mk["w"]()
    if n and c.bool("locchild"):
        ch[0].location = SourceLocation(1, 2)
    node = cls(ch)
    if c.bool("loc"):
        node.location = SourceLocation(0, 9)
    check(c, node)


@case("C16", bounds="wildcards (with 0-2 children), nots, expression groups, with-within nodes, located or not")
def small(c):
    e = Expression(None, "w", Operator.EQUALS, c.chars("r", 1), None)
    f = Expression("q", "v", Operator.NOT_EQUALS, "y", None)
    n = c.choose("k", [lambda: ExpressionWildcard(), lambda: ExpressionWildcard(children=[e, f]), lambda: ExpressionNot(e),
                       lambda: ExpressionGroup(e), lambda: ExpressionGroup(ExpressionNot(f)),
                       lambda: QueryWithWithin(QuerySegment(e, 1, 1), SimpleWithin(c.choose("scope", list(SimpleWithinScope)))),
                       lambda: QueryWithWithin(QuerySegment(f, 2, 3), None)])()
    if c.bool("loc"):
        n.location = SourceLocation(0, 5)
    if n.children and c.bool("loc2"):
        n.children[-1].location = SourceLocation(2, 4)
    check(c, n)


@case("C16", bounds="parsed trees: 12 seed queries with one arbitrary character, locations on or off, no normalisation", weight=3)
def holes(c):
    parsed(c, gen.holes(c), enableSourceLocations=c.bool("loc"), unicode_normalization_form=None)


@case("C16", bounds="parsed trees: 1-2 segments with quantifiers, any juxtaposition and |, one range, with or without within", weight=2)
def queries(c):
    q = gen.main(c, "m", c.choose("n", [1, 2]), quants=gen.QUANTS[:7:2] + ["?"])
    parsed(c, q + c.choose("w", ["", " within t"]), enableSourceLocations=c.bool("loc"))


@case("C16", bounds="parsed trees: literals of 0-2 arbitrary characters or escapes with arbitrary digits, 0-2 flag letters", weight=2)
def literals(c):
    f = c.choose("nf", [0, 1, 2])
    q = '"' + gen.unit(c, "a", ["o", "e", "x", "u"]) + gen.unit(c, "b", ["o", "e"]) + '"' + ("/" + c.chars("f", f, "icICld") if f else "")
    parsed(c, q, unicode_normalization_form=None)


class Other(QueryNode):
    def __init__(self, **kw):
        super().__init__(QueryNodeType.QUERY_SEQUENCE, **kw)


@case("C16", bounds="trees that differ in one content field (identifier, qualifier, operator, flags, scope, minimum, maximum, order "
                    "of children, location) render differently; names are arbitrary word characters", weight=2)
def distinguishes(c):
    def w(name):
        return c.chars(name, 1, gen.ALNUM)

    def mkexpr(q, i, o, r, f):
        return Expression(q, i, o, r, f)
    field = c.choose("field", ["identifier", "qualifier", "operator", "flags", "scope", "occ", "order", "location", "text"])
    base = dict(q=w("q") if c.bool("hasq") else None, i=w("i"), o=c.choose("o", list(Operator)), r=w("r"), f=None)
    other = dict(base)
    if field == "identifier":
        other["i"] = w("i2")
        differ = other["i"] != base["i"]
    elif field == "qualifier":
        other["q"] = w("q2") if c.bool("hasq2") else None
        differ = other["q"] != base["q"]
    elif field == "operator":
        other["o"] = c.choose("o2", list(Operator))
        differ = other["o"] != base["o"]
    elif field == "flags":
        base["f"] = {f for f in RegexFlag if c.bool("a" + f.char)}
        other["f"] = {f for f in RegexFlag if c.bool("b" + f.char)}
        differ = base["f"] != other["f"]
    elif field == "text":
        other["r"] = w("r2")
        differ = other["r"] != base["r"]
    else:
        differ = None
    if differ is not None:
        a, b = mkexpr(**base), mkexpr(**other)
    elif field == "scope":
        s1, s2 = c.choose("s1", list(SimpleWithinScope)), c.choose("s2", list(SimpleWithinScope))
        a, b, differ = SimpleWithin(s1), SimpleWithin(s2), s1 != s2
    elif field == "occ":
        cls = c.choose("cls", [QuerySegment, QueryGroup])
        vals = [-1, 0, 1, 2, 10]
        p, q = (c.choose("lo", vals), c.choose("hi", vals)), (c.choose("lo2", vals), c.choose("hi2", vals))
        a, b = cls(mkexpr(**base), *p), cls(mkexpr(**base), *q)
        differ = p != q
    elif field == "order":
        cls = c.choose("cls", [ExpressionAnd, ExpressionOr, QuerySequence, QueryDisjunction])
        x, y = w("x"), w("y")
        def two(u, v):
            return cls([mkexpr(None, "w", Operator.EQUALS, u, None), mkexpr(None, "w", Operator.EQUALS, v, None)])
        a, b = two(x, y), two(y, x)
        differ = x != y
    else:
        a, b = mkexpr(**base), mkexpr(**base)
        l1, l2 = c.choose("l1", [None, (0, 1), (0, 12), (10, 12)]), c.choose("l2", [None, (0, 1), (0, 12), (1, 12)])
        a.location = SourceLocation(*l1) if l1 else None
        b.location = SourceLocation(*l2) if l2 else None
        differ = l1 != l2
    c.check(c.eq(str(a) != str(b), differ), "string forms are equal although the trees differ, or the other way round")


@case("C16", bounds="6 seed queries with two adjacent characters replaced by two arbitrary ones", tier="thorough", weight=3)
def holes2(c):
    parsed(c, gen.holes2(c), enableSourceLocations=True, unicode_normalization_form=None)


@case("C16", bounds=big.bounds(), weight=2)
def sizes(c):
    parsed(c, big.query(c), enableSourceLocations=c.bool("locations"))


@case("C16", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    parsed(c, big.query(c, tier="thorough"), enableSourceLocations=c.bool("locations"))


@case("C16", bounds=anytree.BOUNDS % "1-3", weight=2)
def free(c):
    t, _ = anytree.chain(c, [1, 2, 3], sibs=["none", "after", "both"], leaves=["Expression", "SimpleWithin"])
    check(c, t)


@case("C16", bounds="a node printed, then any of its fields changed to arbitrary characters, counts, flags, or children added, then printed again",
      weight=2)
def mutated(c):
    e = Expression("q", "w", Operator.EQUALS, "r", {RegexFlag.CASE_INSENSITIVE})
    f = Expression(None, "v", Operator.EQUALS, "s", None)
    seg = QuerySegment(ExpressionAnd([e, f]), 1, 1)
    t = QueryWithWithin(QueryGroup(QuerySequence([seg]), 2, 3), SimpleWithin(SimpleWithinScope.TEXT))
    first = c.choose("first", ["all", "expression", "segment", "nothing"])
    if first != "nothing":
        str({"all": t, "expression": e, "segment": seg}[first])
    what = c.choose("what", ["identifier", "qualifier", "regex", "operator", "flags", "flags in place", "occurs", "location", "scope", "child"])
    if what == "identifier":
        e.identifier = c.char("i")
    elif what == "qualifier":
        e.qualifier = c.choose("q", [None, "z"])
    elif what == "regex":
        e.regex = c.char("r") + c.char("s")
    elif what == "operator":
        e.operator = Operator.NOT_EQUALS
    elif what == "flags":
        e.regex_flags = {RegexFlag.LITERAL_MATCHING}
    elif what == "flags in place":
        e.regex_flags.add(RegexFlag.IGNORE_DIACRITICS)
    elif what == "occurs":
        x = c.choose("x", [seg, t.children[0]])
        x.min_occurs, x.max_occurs = c.int("lo", 0, 9), c.int("hi", -1, 9)
    elif what == "location":
        e.location = SourceLocation(c.int("lo", 0, 9), c.int("hi", 0, 9))
    elif what == "scope":
        t.children[1].scope = SimpleWithinScope.TURN
    else:
        f.parent.children.append(Expression(None, "u", Operator.EQUALS, "t", None))
    c.show("changed", what)
    check(c, t)
    check(c, e)
    check(c, seg)


@case("C16", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    parsed(c, gen.varied(c), enableSourceLocations=c.bool("locations"))


@case("C16", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    parsed(c, gen.varied(c, triples=True), enableSourceLocations=c.bool("locations"))
