from fcsql.parser import QueryNodeType

from sx.ctx import case
from cases.common import parse, kind, align, preorder, under_setups, SETUP_BOUNDS
from cases import big, gen
from fcsref.parser import ref_parse

NT = {"QuerySegment": QueryNodeType.QUERY_SEGMENT, "QueryGroup": QueryNodeType.QUERY_GROUP,
      "QuerySequence": QueryNodeType.QUERY_SEQUENCE, "QueryDisjunction": QueryNodeType.QUERY_DISJUNCTION,
      "QueryWithWithin": QueryNodeType.QUERY_WITH_WITHIN, "SimpleWithin": QueryNodeType.SIMPLE_WITHIN,
      "Expression": QueryNodeType.EXPRESSION, "ExpressionWildcard": QueryNodeType.EXPRESSION_WILDCARD,
      "ExpressionGroup": QueryNodeType.EXPRESSION_GROUP, "ExpressionOr": QueryNodeType.EXPRESSION_OR,
      "ExpressionAnd": QueryNodeType.EXPRESSION_AND, "ExpressionNot": QueryNodeType.EXPRESSION_NOT}


def check(c, q, must=True, ambiguous=False):
    """ambiguous: expressions inside segments may have another shape (C08), compare the query level only."""
    c.show("query", q)
    o, r = parse(q), ref_parse(q)
    if must:
        c.check(r.ok, "case broken: reference refuses")
    c.check(o.ok == r.ok or r.kind == "sem", "acceptance")
    if not (o.ok and r.ok):
        return
    pairs = align(o.tree, r.tree)
    c.check(pairs is not None, "the tree does not mirror the written parts")
    for n, x in pairs or []:
        c.check(n.node_type == NT[kind(n)], "node type of " + kind(n))
        if x.kind == "Expression":
            c.check(c.eq(n.regex, x.attrs["regex"]), "parts out of order")
        if x.kind in ("QuerySegment", "QueryGroup"):
            c.check(c.eq(n.min_occurs, x.attrs["min"]) and c.eq(n.max_occurs, x.attrs["max"]), "quantifier of another part")
        if x.kind == "QueryGroup":
            c.check(n.get_content() is n.children[0], "group content")


@case("C09", bounds="1-4 segments, any juxtaposition and |, one parenthesised range or none, literal characters arbitrary",
      weight=3)
def flat(c):
    check(c, gen.main(c, "m", c.choose("n", [1, 2, 3, 4])))


@case("C09", bounds="5 and 6 segments, any juxtaposition and |, 5 with one parenthesised range", weight=3)
def flat6(c):
    n = c.choose("n", [5, 6])
    check(c, gen.main(c, "m", n, groups=n == 5, seg=False))


@case("C09", bounds="1-3 segments with any of 5 quantifiers each and a quantified parenthesised range", weight=3)
def quantified(c):
    n = c.choose("n", [1, 2, 3])
    check(c, gen.main(c, "m", n, quants=["", "*", "{2}", "?", "{1,4}"] if n < 3 else ["", "+"]))


@case("C09", bounds="groups nested 1-4 deep, at each level alone or with a part before or after, by juxtaposition or |, "
                    "quantified or not", weight=3)
def nested(c):
    q = '"' + c.char("v", gen.PRINT) + '"'
    n = c.choose("depth", [1, 2, 3, 4])
    for i in range(n):
        sep = c.choose("op%d" % i, ["", " ", "|"])
        side = c.choose("s%d" % i, [0, 1]) if sep else 0
        o = '"' + "bcde"[i] + '"'
        q = (q + sep + o if side == 0 else o + sep + q) if sep else q
        q = "(" + q + ")" + (c.choose("q%d" % i, ["", "{2}"]) if n < 4 else "")
    tail = c.choose("tail", ["", " \"z\"", "|\"z\""])
    check(c, q + tail)


@case("C09", bounds="two or three groups, each of 1-2 parts, in any order with a bare part, by juxtaposition or |", weight=3)
def many_groups(c):
    n = c.choose("n", [2, 3])
    q = ""
    for i in range(n):
        q = q + (c.choose("sep%d" % i, [" ", "|"]) if i else "")
        k = c.choose("k%d" % i, ["g1", "g2s", "g2d", "b"])
        a, b = '"' + c.char("v%d" % i, gen.PRINT) + '"', "'" + "xyz"[i] + "'"
        q = q + {"g1": "(" + a + ")", "g2s": "(" + a + b + ")", "g2d": "(" + a + "|" + b + ")", "b": a}[k]
    check(c, q)


@case("C09", bounds="7-12 parts in one sequence, one disjunction, or alternating", weight=2)
def wide(c):
    n = c.choose("n", [7, 8, 9, 10, 11, 12, 20])
    k = c.choose("k", [" ", "|", "alt", "pairs"])
    q = ""
    at = c.choose("at", [0, n // 2, n - 1])
    for i in range(n):
        q = q + ("" if i == 0 else {" ": " ", "|": "|", "alt": " |"[i % 2], "pairs": " | "[i % 3]}[k])
        q = q + '"' + (c.char("v", gen.PRINT) if i == at else "abcdefghijklmnopqrstuvwxyz"[i]) + '"'
    check(c, q)


@case("C09", bounds="equal parts are all kept: 2-5 identical segments by juxtaposition or |, in a group or not")
def equal_parts(c):
    v = '"' + c.char("v", gen.PRINT) + '"'
    q = c.choose("sep", [" ", "|"]).join([v] * c.choose("n", [2, 3, 4, 5]))
    check(c, "(" + q + ")" if c.bool("g") else q)


@case("C09", bounds="segments holding boolean expressions, wildcards, flags among 1-3 parts; with a within clause")
def kinds(c):
    ks = ['"a"', '"a"/i', "[]", '[w="a"]', '[w="a" & v!="b"]', '[(w="a" | v="b")]', '("a")', '[!w="a"]']
    n = c.choose("n", [1, 2])
    q = ""
    for i in range(n):
        q = q + (c.choose("sep%d" % i, [" ", "|"]) if i else "") + c.choose("k%d" % i, ks)
    check(c, q + c.choose("w", ["", " within s"]))


@case("C09", bounds="0-2 arbitrary characters between two parts, at the start and at the end of a group", weight=2)
def between(c):
    f = c.choose("f", [('"a"', '"b"'), ('("a"', '"b")'), ('("a")', '("b")'), ("(", '"a")'), ('("a"', ")"), ("[]", '"b"')])
    check(c, f[0] + c.chars("x", c.choose("n", [0, 1, 2])) + f[1], must=False)


@case("C09", bounds="5 segments with one parenthesised range and kinds; 7 segments", tier="thorough", weight=3)
def flat7(c):
    n = c.choose("n", [5, 6, 7])
    check(c, gen.main(c, "m", n, groups=n < 7, seg=n < 6))


@case("C09", bounds="two nested levels of groups with 3 parts each, everything quantified or not", tier="thorough", weight=3)
def nested3(c):
    def level(name, inner):
        parts = ['"a"' + c.choose(name + "q0", ["", "*"]), inner, '"b"']
        q = ""
        k = c.choose(name + "n", [1, 2, 3])
        sel = [[1], [0, 1], [1, 2], [0, 1, 2]][c.choose(name + "sel", [0, 1, 2, 3]) if k > 1 else 0]
        for j, i in enumerate(sel):
            q = q + (c.choose(name + "s%d" % j, [" ", "|"]) if j else "") + parts[i]
        return "(" + q + ")" + c.choose(name + "q", ["", "{2,3}"])
    check(c, level("x", level("y", level("z", '"' + c.char("v", gen.PRINT) + '"'))))


@case("C09", bounds="15 query templates with one arbitrary printable character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q, must=False, ambiguous=True), gen.PRINT)


@case("C09", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c), must=False)


@case("C09", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"), must=False)


@case("C09", bounds="a segment, wildcard or group with any quantifier of one or two one-digit numbers, with or without a neighbour", weight=2)
def one_quantifier(c):
    x = c.choose("x", ['"a"', "[]", '("a")', '("a" "b")', '("a"|"b")', '(("a"))', '[w="a"]', '([])'])
    d, e = c.char("d", ((48, 57),)), c.char("e", ((48, 57),))
    x = x + c.choose("q", ["{%d}", "{%d,}", "{,%e}", "{%d,%e}", "*", "+", "?", ""]).replace("%d", d).replace("%e", e)
    check(c, c.choose("f", ["%x", '%x "n"', '"n" %x', '"n" | %x', '(%x "n")', "%x within s", "(%x)", "(%x){2}"]).replace("%x", x), must=False)


@case("C09", bounds="2-5 parts of one kind out of 9, in a sequence or a disjunction, alone, in a group or next to another part", weight=2)
def same_kind(c):
    n = c.choose("n", [2, 3, 4, 5])
    k = c.choose("k", ['"%"', '"%"/i', "[]", '[w="%"]', '[w="%" & v!="b"]', '("%")', '[!w="%"]', "[]{2}", '("%" "y"){1}'])
    v = [c.char("v", gen.PRINT)] + ["a", "b", "a", "c"]
    q = c.choose("sep", [" ", "|"]).join([k.replace("%", v[i]) for i in range(n)])
    check(c, c.choose("f", ["%s", "(%s)", '%s "z"', '"z" | %s', "%s within s"]).replace("%s", q))


@case("C09", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c), must=False)


@case("C09", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True), must=False)
