from sx.ctx import case
from cases.common import parse, preorder, kind, align, under_setups, SETUP_BOUNDS, TEMPLATES
from cases import anytree, big, gen
from fcsref.parser import ref_parse

MAINS = ['"a"', "[]", "[w='x'/i & within='y']", '("a")', '("a" | "b")*', '"a" "b"', '"a" | "b"', '"a"{2,3} ("b" "c")+',
         '[s="s"] | [within:within="within"]', "\"a\"/i"]


def check(c, q, must=False):
    c.show("query", q)
    o, r = parse(q), ref_parse(q)
    c.check(o.kind != "other", "another exception")
    if must:
        c.check(r.ok, "case broken: reference refuses")
    c.check(o.ok == r.ok, "acceptance of the within clause")
    if not (o.ok and r.ok):
        return o, r
    pairs = align(o.tree, r.tree)
    c.check(pairs is not None, "tree")
    for n, x in pairs or []:
        if x.kind == "SimpleWithin":
            c.check(str(n.scope.value) == x.attrs["scope"] and n.scope.name == x.attrs["scope"].upper(), "scope")
            c.check(kind(n.parent) == "QueryWithWithin", "a within part outside a with-within node")
    if o.ok and kind(o.tree) == "QueryWithWithin":
        c.check(o.tree.get_query() is o.tree.children[0] and o.tree.get_within() is o.tree.children[1], "accessors")
        c.check(len(o.tree.children) == 2, "with-within node without two children")
    return o, r


def same(a, b):
    if kind(a) != kind(b) or len(a.children) != len(b.children):
        return False
    for f in ("min_occurs", "max_occurs", "qualifier", "identifier", "operator", "regex", "regex_flags"):
        if getattr(a, f, None) != getattr(b, f, None):
            return False
    return all(same(x, y) for x, y in zip(a.children, b.children))


SCOPES = ["sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session"]


@case("C06", bounds="10 queries with each of the ten scope words and without the clause; the first child is the tree of the query alone")
def scopes(c):
    m = c.choose("m", MAINS)
    w = c.choose("w", SCOPES + [None])
    o, r = check(c, m + (" within " + w if w else ""), must=True)
    if o.ok:
        alone = parse(m).tree
        c.check(same(o.tree.children[0] if w else o.tree, alone), "the query part differs from the tree of the query alone")


@case("C06", bounds="every scope word of 1-4 arbitrary characters", weight=4)
def any_word(c):
    check(c, '"a" within ' + c.chars("w", c.choose("n", [1, 2, 3, 4]), gen.WORDCH))


@case("C06", bounds="scope words of 5, 7-11 letters or digits, all arbitrary", weight=3)
def long_word(c):
    check(c, '"a" within ' + c.chars("w", c.choose("n", [5, 7, 8, 9, 10, 11]), gen.ALNUM))


@case("C06", bounds="scope position: 1-2 arbitrary characters", weight=2)
def any2(c):
    check(c, '"a" within ' + c.chars("w", c.choose("n", [0, 1, 2])))


@case("C06", bounds="every scope word with one position replaced by an arbitrary character or one arbitrary character inserted",
      weight=2)
def near(c):
    s = c.choose("s", SCOPES)
    mode = c.choose("mode", ["replace", "insert"])
    pos = c.choose("pos", list(range(len(s) + (mode == "insert"))))
    check(c, '[w="a"] within ' + s[:pos] + c.char("h") + s[pos + (mode == "replace"):])


@case("C06", bounds="the keyword: 6 arbitrary word characters, or 'within' with any one position replaced/inserted", weight=2)
def keyword(c):
    if c.bool("all"):
        k = c.chars("k", 6, gen.WORDCH)
    else:
        mode = c.choose("mode", ["replace", "insert"])
        pos = c.choose("pos", list(range(6 + (mode == "insert"))))
        k = "within"[:pos] + c.char("h") + "within"[pos + (mode == "replace"):]
    check(c, '"a" ' + k + " s")


@case("C06", bounds="1-2 arbitrary characters between query and keyword, keyword and scope, and after the scope")
def between(c):
    a, b, d = c.choose("w", [("", " ", None), (" ", None, ""), (None, " ", ""), (None, None, "")])
    def fill(x, name):
        return c.chars(name, c.choose(name + "n", [0, 1, 2]) if (a, b, d) != (None, None, "") else 1) if x is None else x
    check(c, c.choose("m", ['"a"', '("a")*']) + fill(a, "a") + "within" + fill(b, "b") + "text" + fill(d, "d"))


@case("C06", bounds="what may follow or precede the clause: a second clause, a quantifier, a further item, in each of 6 texts, "
                    "with one arbitrary character")
def misplaced(c):
    t = c.choose("t", ['"a" within s within %s', '"a" within %s*', '"a" within s "%s"', 'within s "%s"', '("a" within %s)',
                       '["%s" within s]'])
    i = t.index("%s")
    check(c, t[:i] + c.char("x") + t[i + 2:])


@case("C06", bounds="scope words of 6 arbitrary letters, digits, hyphens, and of 12 and 16 letters or digits",
      tier="thorough", weight=3)
def long_word2(c):
    n = c.choose("n", [6, 12, 16])
    check(c, '"a" within ' + c.chars("w", n, gen.WORDCH if n == 6 else gen.ALNUM))


@case("C06", bounds="scope position: 3 arbitrary characters", tier="thorough", weight=3)
def any3(c):
    check(c, '"a" within ' + c.chars("w", 3))


@case("C06", bounds="39 query templates with one arbitrary character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q), gen.ANY,
                 templates=TEMPLATES + [m + " within " + w for m in ('"%"', '[a!="%"] []*') for w in SCOPES + ["x", "S"]])


@case("C06", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c) + c.choose("scope", ["", " within turn"]))


@case("C06", bounds="every scope word after a big query: " + big.bounds(["sequence"], ["literal", "blanks"], deep=[], maxw=17), weight=2)
def sizes_scopes(c):
    check(c, big.query(c, wide=["sequence"], long=["literal", "blanks"], deep=[], maxw=17) + " within " + c.choose("scope", SCOPES))


@case("C06", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough") + c.choose("scope", ["", " within turn"]))


@case("C06", bounds="with-within nodes built by hand around a chain of 0-2 nodes of any kinds, every scope or no within part")
def built(c):
    import fcsql.parser as fp
    t, _ = anytree.chain(c, [0, 1, 2], sibs=["none", "after"])
    s = c.choose("scope", [None] + list(fp.SimpleWithinScope))
    w = None if s is None else fp.SimpleWithin(s)
    n = fp.QueryWithWithin(t, w)
    c.check(n.node_type is fp.QueryNodeType.QUERY_WITH_WITHIN, "node type")
    c.check(len(n.children) == (1 if w is None else 2) and n.children[0] is t and n.get_query() is t, "query")
    c.check(n.get_within() is w and (w is None or n.children[1] is w), "within part")
    c.check(w is None or w.scope is s, "scope")
    c.check(t.parent is n and (w is None or w.parent is n), "parents")


@case("C06", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c))


@case("C06", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True))
