from sx.ctx import case
from cases.common import parse, kind, align, preorder, under_setups, SETUP_BOUNDS
from cases import big, gen
from fcsref.parser import ref_parse
from fcsref.lexer import WS


def attrs(n):
    return tuple(getattr(n, f, None) for f in ("min_occurs", "max_occurs", "qualifier", "identifier", "operator", "regex",
                                               "scope")) + (
        None if getattr(n, "regex_flags", None) is None else frozenset(n.regex_flags),)


def same(c, a, b):
    if kind(a) != kind(b) or len(a.children) != len(b.children):
        return False
    if not c.all([c.eq(x, y) for x, y in zip(attrs(a), attrs(b))]):
        return False
    return all(same(c, x, y) for x, y in zip(a.children, b.children))


def check(c, q, both=True, reuse=False):
    c.show("query", q)
    o, r = parse(q, enableSourceLocations=True), ref_parse(q)
    if not o.ok:
        return
    n = len(q)
    nodes = preorder(o.tree)
    for x in nodes:
        c.check(x.location is not None, "a node without location: " + kind(x))
    if any(x.location is None for x in nodes):
        return
    for x in nodes:
        a, b = x.location.start, x.location.stop
        c.check(0 <= a and a < b and b <= n, "location out of the query or empty: " + kind(x))
        pos = a
        for y in x.children:
            c.check(pos <= y.location.start, "siblings overlap or are out of order / child starts before its parent")
            pos = y.location.stop
        c.check(pos <= b, "a child ends after its parent")
    if r.ok:
        pairs = align(o.tree, r.tree)
        for x, y in pairs or []:
            c.check(x.location.start == y.start, "start of " + y.kind)
            if y.kind == "QueryWithWithin":
                rest = q[y.stop:n]
                c.check(y.stop <= x.location.stop and x.location.stop <= n, "end of the whole query")
                c.check(all(ch in WS for ch in q[y.stop:x.location.stop]), "more than white space after the within clause")
            else:
                c.check(x.location.stop == y.stop, "end of " + y.kind)
            # the slice is the source text of the node
            c.check(c.eq(q[x.location.start:x.location.stop], q[y.start:x.location.stop]), "slice")
    if both:
        p = parse(q, enableSourceLocations=False)
        c.check(p.ok, "refused without locations")
        if p.ok:
            c.check(all(x.location is None for x in preorder(p.tree)), "a location although disabled")
            c.check(same(c, o.tree, p.tree), "the tree depends on source locations")


W1 = [0, 1, 2]


@case("C11", bounds="every string of 0-3 characters", weight=3)
def any3(c):
    check(c, c.chars("x", c.choose("n", [2, 3])), both=False)


@case("C11", bounds="12 seed queries with one position replaced by, or one character inserted as, an arbitrary character", weight=4)
def holes(c):
    check(c, gen.holes(c))


@case("C11", bounds="0-3 arbitrary white space characters (line breaks included) before, inside at each of up to 12 token "
                    "boundaries, and after 10 queries", weight=3)
def spaced(c):
    toks = c.choose("q", [
        ['"a"'], ['"a"', '"b"', "*"], ["[", "q", ":", "w", "!=", '"a"', "/", "i", "]"], ["(", '"a"', "|", '"b"', ")", "{", "2", "}"],
        ["[", "!", "a", "=", "'b'", "&", "c", "=", "'d'", "]"], ["[", "(", "a", "=", "'b'", "|", "c", "=", "'d'", ")", "]"],
        ['"a"', " within ", "s"], ["[", "]", "{", "1", ",", "2", "}", '"a"', " within ", "text"], ["(", "(", '"a"', ")", "*", ")", "+"],
        ['"a"', "|", '"b"', '"c"', "?", "|", "(", "'d'", ")"]])
    at = c.choose("at", list(range(len(toks) + 1)))
    ws = c.chars("w", c.choose("n", [1, 2, 3]), gen.WSD)
    q = ""
    for i, t in enumerate(toks):
        q = q + (ws if i == at else "") + t
    check(c, q + (ws if at == len(toks) else ""))


@case("C11", bounds="1-3 segments, any juxtaposition and |, one parenthesised range, quantified or not, with or without within; "
                    "literal characters arbitrary (any code point)", weight=3)
def queries(c):
    n = c.choose("n", [1, 2, 3])
    q = gen.main(c, "m", n, quants=["", "{2,3}"] if n < 3 else ["", "*"])
    check(c, q + c.choose("w", ["", " within turn", "\twithin\np \n"]))


@case("C11", bounds="segments of 1-3 comparisons, any & and |, any !, one parenthesised range", weight=2)
def exprs(c):
    check(c, c.choose("pre", ["[", " [ "]) + gen.expr(c, "e", c.choose("n", [1, 2, 3])) + "]" + c.choose("q", ["", "*"]))


@case("C11", bounds="literals of 0-3 arbitrary characters or escapes with arbitrary digits (their length in the query counts, not "
                    "their decoded length), under every normalization form", weight=3)
def literals(c):
    u = gen.unit(c, "a", ["o", "e", "x", "u", "U"]) + gen.unit(c, "b", ["o", "e", "u"])
    q = c.choose("pre", ['', '"z" ', '[w=']) 
    post = "]" if q[-1:] == "=" else c.choose("post", ["", "/i", "*", ' "y"'])
    q = q + '"' + u + '"' + post
    c.show("query", q)
    o, r = parse(q, enableSourceLocations=True, unicode_normalization_form=c.choose("form", [None, "NFD"])), ref_parse(q)
    if not (o.ok and r.ok):
        return
    for x, y in align(o.tree, r.tree) or []:
        c.check(x.location.start == y.start and x.location.stop == y.stop, "location of " + y.kind)


@case("C11", bounds="two successive parses with one parser object, over 12 x 12 seed queries, locations switched on, off, or "
                    "toggled in between")
def reused(c):
    from fcsql.parser import QueryParser
    from cases.common import parse_with
    s, s2 = c.choose("s", gen.SEEDS), c.choose("s2", gen.SEEDS)
    p = QueryParser(enableSourceLocations=c.bool("l1"))
    a = parse_with(p, s)
    p.enableSourceLocations = c.bool("l2")
    b = parse_with(p, s2)
    first = [x.location is not None for x in preorder(a.tree)]
    second = [x.location is not None for x in preorder(b.tree)]
    c.check(all(first) or not any(first), "mixed locations in the first tree")
    c.check(all(second) if p.enableSourceLocations else not any(second), "locations of the second tree")
    if p.enableSourceLocations:
        r = ref_parse(s2)
        for x, y in align(b.tree, r.tree) or []:
            if y.kind != "QueryWithWithin":
                c.check(x.location.start == y.start and x.location.stop == y.stop, "location of " + y.kind)


@case("C11", bounds="fcsql.parse gives locations by default and when asked, none when told not to; 12 seed queries after 0-2 "
                    "arbitrary white space characters")
def top_level(c):
    import fcsql
    q = c.chars("w", c.choose("n", [0, 1, 2]), gen.WSD) + c.choose("s", gen.SEEDS)
    c.show("query", q)
    how = c.choose("how", ["default", "on", "off"])
    t = fcsql.parse(q) if how == "default" else fcsql.parse(q, enableSourceLocations=how == "on")
    r = ref_parse(q)
    if how == "off":
        c.check(all(x.location is None for x in preorder(t)), "a location although disabled")
    else:
        for x, y in align(t, r.tree) or []:
            c.check(x.location is not None and x.location.start == y.start, "start of " + y.kind)


@case("C11", bounds="6 seed queries with two adjacent characters replaced by two arbitrary ones", tier="thorough", weight=3)
def holes2(c):
    check(c, gen.holes2(c), both=False)


@case("C11", bounds="two runs of 1-2 arbitrary white space characters at any two token boundaries of 3 queries", tier="thorough",
      weight=3)
def spaced2(c):
    toks = c.choose("q", [["(", '"a"', "|", '"b"', ")", "{", "2", "}"], ["[", "!", "a", "=", "'b'", "&", "c", "=", "'d'", "]"],
                          ['"a"', "|", '"b"', '"c"', "?", " within ", "p"]])
    i = c.choose("i", list(range(len(toks) + 1)))
    j = c.choose("j", list(range(i, len(toks) + 1)))
    a, b = c.chars("w", c.choose("n", [1, 2]), gen.WSD), c.chars("v", c.choose("m", [1, 2]), gen.WSD)
    q = ""
    for k, t in enumerate(toks + [""]):
        q = q + (a if k == i else "") + (b if k == j else "") + t
    check(c, q)


@case("C11", bounds="15 query templates with one arbitrary character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q), gen.ANY)


@case("C11", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c))


@case("C11", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"))


@case("C11", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c))


@case("C11", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True))
