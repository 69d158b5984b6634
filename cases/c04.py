from sx.ctx import case
from cases.common import parse, preorder, kind, under_setups, SETUP_BOUNDS, TEMPLATES
from cases import big, gen
from fcsref.parser import ref_parse


def quantified(n):
    return [x for x in preorder(n) if kind(x) in ("QuerySegment", "QueryGroup")]


def rquantified(n):
    return [x for x in preorder(n) if x.kind in ("QuerySegment", "QueryGroup")]


def check(c, q, must=False, **kw):
    c.show("query", q)
    o = parse(q, **kw)
    r = ref_parse(q)
    c.check(o.kind != "other", "another exception")
    if r.kind == "sem":
        c.check(o.kind == "refused", "a range with minimum above maximum is accepted")
    if must:
        c.check(r.kind in ("ok", "sem"), "case broken: reference refuses the syntax")
    if r.ok:
        c.check(o.ok, "a legal quantifier is refused")
    if o.ok:
        # whatever came back satisfies the invariant
        a = quantified(o.tree)
        for x in a:
            c.check(0 <= x.min_occurs, "negative minimum")
            c.check(x.max_occurs == -1 or x.min_occurs <= x.max_occurs, "minimum above maximum")
        if r.ok:
            b = rquantified(r.tree)
            c.check(len(a) == len(b), "number of segments and groups")
            for x, y in zip(a, b):
                c.check(kind(x) == y.kind, "kind")
                c.check(c.eq(x.min_occurs, y.attrs["min"]), "minimum")
                c.check(c.eq(x.max_occurs, y.attrs["max"]), "maximum")
    return o, r


def digits(c, name, n):
    return c.chars(name, n, "0123456789")


FORMS = ["n", "n,", ",m", "n,m"]


def quant(c, name, nd, md, forms=FORMS):
    f = c.choose(name + "form", forms)
    if f == "n":
        return "{" + digits(c, name + "n", nd) + "}"
    if f == "n,":
        return "{" + digits(c, name + "n", nd) + ",}"
    if f == ",m":
        return "{," + digits(c, name + "m", md) + "}"
    return "{" + digits(c, name + "n", nd) + "," + digits(c, name + "m", md) + "}"


ITEMS = ["\"a\"", "'b'/i", "[]", "[w=\"x\"]", "(\"a\")", "(\"a\" | \"b\")", "[!(p='q' & r!='s')]", "(\"a\" \"b\"{2})"]


@case("C04", bounds="every item kind with no quantifier, *, +, ? or one of {n} {n,} {,m} {n,m} with 1-3 digits each, all "
                    "digits arbitrary", weight=4)
def one(c):
    item = c.choose("item", ITEMS)
    k = c.choose("k", ["", "*", "+", "?", "curly"])
    if k == "curly":
        k = quant(c, "q", c.choose("nd", [1, 2, 3]), c.choose("md", [1, 2, 3]))
    check(c, item + k, must=True)


@case("C04", bounds="{n}, {n,}, {,m}, {n,m} with 1..40 arbitrary digits each (1,2,4,5,8,9,10,15,16,17,19,20,40), equal or "
                    "differing lengths, leading zeros included", weight=2)
def long_digits(c):
    ns = [1, 2, 4, 5, 8, 9, 10, 15, 16, 17, 19, 20, 40]
    n = c.choose("nd", ns)
    m = c.choose("md", sorted({n, 1, 2, max(1, n - 1), n + 1, 20}))
    check(c, c.choose("item", ['"a"', '("a")']) + quant(c, "q", n, m), must=True)


@case("C04", bounds="white space between the parts of a {..} quantifier: up to 2 arbitrary white space characters at each of 5 "
                    "places, 1-2 arbitrary digits")
def spaced(c):
    place = c.choose("place", [0, 1, 2, 3, 4])
    ws = c.chars("w", c.choose("wn", [1, 2]), gen.WSD)
    parts = ["{", digits(c, "n", c.choose("nd", [1, 2])), ",", digits(c, "m", 1), "}"]
    s = '"a"'
    for i, p in enumerate(parts):
        s = s + (ws if i == place else "") + p
    check(c, s, must=True)


@case("C04", bounds="two or three items in a sequence or disjunction, each with every quantifier form, 1 arbitrary digit per "
                    "number; the range belongs to the item before it", weight=3)
def several(c):
    n = c.choose("n", [2, 3])
    sep = c.choose("sep", [" ", "|"])
    q = ""
    for i in range(n):
        if i:
            q = q + sep
        q = q + c.choose("i%d" % i, ['"a"', '("b" "c")'] if i == 0 else ["[w='d']"])
        k = c.choose("k%d" % i, ["", "*", "+", "?", "curly"] if i < 2 else ["", "*"])
        if k == "curly":
            k = quant(c, "q%d" % i, 1, 1, FORMS if n == 2 else ["n", "n,m"])
        q = q + k
    check(c, q + c.choose("w", ["", " within s"]), must=True)


@case("C04", bounds="quantifiers inside and outside nested groups, every form, 1 arbitrary digit per number", weight=3)
def nested(c):
    q = '"a"'
    depth = c.choose("depth", [1, 2])
    for i in range(depth + 1):
        k = c.choose("k%d" % i, ["", "*", "?", "curly"])
        if k == "curly":
            k = quant(c, "q%d" % i, 1, 1, ["n,m", "n,"] if depth == 2 else FORMS)
        q = q + k
        if i < depth:
            q = "(" + q + ")"
    check(c, q, must=True)


@case("C04", bounds="an item followed by up to 3 arbitrary characters", weight=3)
def after(c):
    check(c, c.choose("item", ['"a"', '("a")', '[]']) + c.chars("x", c.choose("n", [1, 2, 3])))


@case("C04", bounds="an item followed by { up to 3 arbitrary characters and }", weight=3)
def inside(c):
    check(c, c.choose("item", ['"a"', '("a")']) + "{" + c.chars("x", c.choose("n", [0, 1, 2, 3])) + "}")


@case("C04", bounds="as inside with 4 arbitrary characters from digits, comma, space, braces, *, +", weight=1)
def inside4(c):
    check(c, '"a"{' + c.chars("x", 4, "0123456789, {}*+") + "}")


@case("C04", bounds="source locations on or off, quantifier {n,m} of 2 arbitrary digits each, after a flagged literal")
def with_locations(c):
    check(c, '"a"/' + c.char("f", "icICld") + quant(c, "q", 2, 2), must=True, enableSourceLocations=c.bool("loc"))


@case("C04", bounds="two {..} quantifiers, 3 arbitrary digits per number", tier="thorough", weight=3)
def two_long(c):
    check(c, '"a"' + quant(c, "p", 3, 3) + c.choose("sep", [" ", "|"]) + '("b")' + quant(c, "q", 3, 3), must=True)


@case("C04", bounds="up to 4 arbitrary characters after a literal", tier="thorough", weight=3)
def after4(c):
    check(c, '"a"' + c.chars("x", 4))


@case("C04", bounds="42 query templates with one arbitrary printable character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q), gen.PRINT,
                 templates=TEMPLATES + [i + q for i in ('"%"', '[w="%"]', '("a" "%")') for q in ("*", "+", "?", "{3}", "{2,}", "{,4}", "{1,7}", "{0,0}", "{4,2}")])


@case("C04", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c))


@case("C04", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"))


@case("C04", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c))


@case("C04", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True))
