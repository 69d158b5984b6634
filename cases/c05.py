from sx.ctx import case
from cases.common import parse, expressions, rexpressions, flags_of, under_setups, SETUP_BOUNDS, TEMPLATES
from cases import big, gen
from fcsref.parser import ref_parse

LET = "iIcCld"


def check(c, q, must=True):
    c.show("query", q)
    o = parse(q)
    r = ref_parse(q)
    c.check(o.kind != "other", "another exception")
    if must:
        c.check(r.kind in ("ok", "sem"), "case broken: reference refuses the syntax")
    if r.kind == "sem":
        c.check(o.kind == "refused", "an illegal flag combination is accepted")
        c.check(o.errors == [], "an illegal flag combination is recorded as syntax error")
    if r.kind in ("syn", "lex"):
        c.check(o.kind == "refused", "ill-formed flags are accepted")
    if not r.ok:
        return
    c.check(o.ok, "a legal flag combination is refused")
    if not o.ok:
        return
    a, b = expressions(o.tree), rexpressions(r.tree)
    c.check(len(a) == len(b), "number of literals")
    for x, y in zip(a, b):
        c.check(flags_of(x) == y.attrs["flags"], "flag set")
        if y.attrs["flags"] is None:
            c.check(x.regex_flags is None, "flags without a flag part")
        else:
            c.check(isinstance(x.regex_flags, (set, frozenset)), "flags are no set")


@case("C05", bounds="1-5 arbitrary flag letters on a bare literal", weight=3)
def letters(c):
    check(c, '"a"/' + c.chars("f", c.choose("n", [1, 2, 3, 4, 5]), LET))


@case("C05", bounds="6-7 arbitrary flag letters", tier="thorough", weight=3)
def letters7(c):
    check(c, '"a"/' + c.chars("f", c.choose("n", [6, 7]), LET))


@case("C05", bounds="8..30 flag letters of which any 2 are arbitrary and the rest one legal letter")
def many(c):
    n = c.choose("n", [8, 15, 30])
    base = c.choose("base", list(LET))
    p1 = c.choose("p", [0, n // 2, n - 2])
    check(c, '"a"/' + base * p1 + c.chars("f", 2, LET) + base * (n - p1 - 2))


CTX = [("[w=", "]"), ("[q:w!=", "]"), ("(", ")*"), ("[!(a='x'/d & b=", ")]"), ("'x'/I | ", ""), ("'x' ", " within s"),
       ("[a='x'/l | b=", " & c='y'/dd]"), ("", "{2,3} 'z'/l"), ("", "*"), ("", " | 'z'")]


@case("C05", bounds="1-3 arbitrary flag letters on a literal in each of 10 contexts with other flagged and unflagged literals",
      weight=3)
def contexts(c):
    pre, post = c.choose("ctx", CTX)
    check(c, pre + c.choose("quote", ['"a"', "'b'"]) + "/" + c.chars("f", c.choose("n", [1, 2, 3]), LET) + post)


@case("C05", bounds="two literals with 0-2 arbitrary flag letters each (sequence, disjunction, boolean)", weight=2)
def two(c):
    def fl(name):
        n = c.choose(name + "n", [0, 1, 2])
        return "/" + c.chars(name, n, LET) if n else ""
    f = c.choose("f", [("", " ", ""), ("", "|", ""), ("[a=", "&b!=", "]"), ("[a=", "|b=", "]")])
    check(c, f[0] + '"x"' + fl("f") + f[1] + "'y'" + fl("g") + f[2])


@case("C05", bounds="three literals with 0-1 arbitrary flag letters each, in a sequence, disjunction, or boolean expression")
def three(c):
    f = c.choose("f", [("", " ", " ", ""), ("", "|", " ", ""), ("[a=", "&b=", "|c=", "]"), ("(", " ", ")'x'", "")])
    q = f[0]
    for i in range(3):
        q = q + '"x"' + ("/" + c.char("f%d" % i, LET) if c.bool("b%d" % i) else "") + f[i + 1]
    check(c, q)


@case("C05", bounds="up to 3 arbitrary characters after the slash", weight=3)
def any3(c):
    check(c, c.choose("pre", ['"a"/', '[w="a"/']) + c.chars("f", c.choose("n", [1, 2, 3])) + c.choose("post", ["", "]"]),
          must=False)


@case("C05", bounds="one arbitrary character inserted among two arbitrary flag letters")
def inserted(c):
    pos = c.choose("pos", [0, 1, 2])
    f = c.chars("f", 2, LET)
    check(c, '"a"/' + f[:pos] + c.char("x") + f[pos:], must=False)


@case("C05", bounds="up to 2 arbitrary white space characters before or after the slash, 1-2 arbitrary letters")
def spaced(c):
    a, b = c.choose("w", [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2)])
    check(c, '"a"' + c.chars("a", a, gen.WSD) + "/" + c.chars("b", b, gen.WSD) + c.chars("f", c.choose("n", [1, 2]), LET))


@case("C05", bounds="a literal without flags, of 2 arbitrary characters (slashes and flag letters inside quotes are text)")
def inside_quotes(c):
    check(c, c.choose("pre", ["", "[w="]) + '"' + c.chars("x", 2) + '"' + c.choose("post", ["", "]", "]*"]), must=False)


@case("C05", bounds="4 arbitrary characters after the slash", tier="thorough", weight=3)
def any4(c):
    check(c, '"a"/' + c.chars("f", 4), must=False)


@case("C05", bounds="30 query templates with one arbitrary printable character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q, must=False), gen.PRINT,
                 templates=TEMPLATES + ['"%"/' + f for f in ("i", "c", "I", "C", "l", "d", "il", "Id", "ld", "dli", "iI", "cC", "ii", "x")] + ["[a='%'/c & b!=\"c\"/Cl]"])


@case("C05", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c), must=False)


@case("C05", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"), must=False)


@case("C05", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c), must=False)


@case("C05", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True), must=False)
