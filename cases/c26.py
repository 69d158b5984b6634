from sx.ctx import case
from cases import gen
from cases.c11 import attrs
from cases.common import kind, parse
from fcsref.lexer import WS
from fcsref.parser import ref_parse

CFG = dict(unicode_normalization_form=None)


def same_tree(c, a, b):
    if kind(a) != kind(b) or len(a.children) != len(b.children):
        return False
    return c.all([c.eq(x, y) for x, y in zip(attrs(a), attrs(b))] + [same_tree(c, x, y) for x, y in zip(a.children, b.children)])


def compare(c, q1, q2, **kw):
    c.show("queries", [q1, q2])
    kw = dict(CFG, **kw)
    a, b = parse(q1, **kw), parse(q2, **kw)
    c.check(a.kind == b.kind, "white space between tokens decides about acceptance")
    if a.ok and b.ok:
        c.check(same_tree(c, a.tree, b.tree), "white space between tokens changes the tree")


# token lists; " " marks a boundary at which white space is needed
QUERIES = [
    ['"a"'], ["[", "q", ":", "w", "!=", "'a'", "/", "ic", "]"], ["(", '"a"', "|", "[", "]", ")", "{", "2", ",", "3", "}"],
    ['"a"', "within", " ", "s"], ["[", "!", "a", "=", "'b'", "&", "(", "c", "=", "'d'", "|", "!", "e", "!=", "'f'", ")", "]", "+"],
    ['"a"', "'b'", "*", "[", "]", "?", "|", '"c"', "{", ",", "1", "}"], ["[", "within", "=", '"a"', "]", "within", " ", "text"],
    ["(", "(", '"a"', ")", '"b"', ")", "{", "1", ",", "}"], ["[", "]", "within", " ", "sentence"],
    # no sentences
    ["[", "a", "=", "]"], ['"a"', "|"], ["(", ")"], ['"a"', "/", "within"], ["[", "a", " ", "b", "=", '"c"', "]"], ['"a"', "{", "1", " ", "2", "}"],
]


def build(c, toks, gaps, name="w"):
    """(query without, query with white space): gaps maps boundary -> number of white space characters."""
    a, b = "", ""
    k = 0
    for i, t in enumerate(toks):
        if t == " ":
            a = a + " "
            b = b + c.char("%sm%d" % (name, i), WS)
            continue
        if k in gaps:
            b = b + c.chars("%s%d_" % (name, k), gaps[k], WS)
        k += 1
        a, b = a + t, b + t
    if k in gaps:
        b = b + c.chars("%s%d_" % (name, k), gaps[k], WS)
    return a, b


def nb(toks):
    return len([t for t in toks if t != " "]) + 1


@case("C26", bounds="15 queries (9 sentences): 0-3 arbitrary white space characters at any one boundary, mandatory blanks arbitrary white "
                    "space", weight=3)
def one(c):
    toks = c.choose("q", QUERIES)
    i = c.choose("i", list(range(nb(toks))))
    compare(c, *build(c, toks, {i: c.choose("n", [0, 1, 2, 3])}))


@case("C26", bounds="15 queries: one arbitrary white space character at any two boundaries", weight=3)
def two(c):
    toks = c.choose("q", QUERIES)
    i = c.choose("i", list(range(nb(toks))))
    j = c.choose("j", list(range(i, nb(toks))))
    compare(c, *build(c, toks, {i: 1, j: 1}))


@case("C26", bounds="15 queries: arbitrary white space at every boundary at once, locations on or off", weight=3)
def every(c):
    toks = c.choose("q", QUERIES)
    compare(c, *build(c, toks, {i: 1 for i in range(nb(toks))}), enableSourceLocations=c.bool("loc"))


@case("C26", bounds="1-2 segments with quantifiers, any structure, within or not: blanks of the text replaced by arbitrary white space",
      weight=2)
def structures(c):
    q = gen.main(c, "m", c.choose("n", [1, 2]), quants=gen.QUANTS[:7:2], dom=gen.ALNUM) + c.choose("w", ["", " within s"])
    w = c.chars("w", 2, WS)
    compare(c, q, w[0] + q.replace("|", w + "|" + w).replace("(", "(" + w).replace(")", w + ")").replace("{", w + "{" + w) + w)


@case("C26", bounds="segments of 1-2 comparisons, any boolean structure: arbitrary white space around every operator and bracket", weight=2)
def exprs(c):
    q = "[" + gen.expr(c, "e", c.choose("n", [1, 2]), dom=gen.ALNUM).replace(" ", "") + "]"
    w = c.chars("w", 1, WS)
    r = q
    for ch in "[](&|!=":
        r = r.replace(ch, w + ch + w) if ch not in "!" else r.replace("!", w + "!" + w)
    compare(c, q, r)


@case("C26", bounds="white space inside a literal is text: 1-3 arbitrary white space characters at any place of 2 literals, either quote")
def inside(c):
    quote = c.choose("quote", ['"', "'"])
    w = c.chars("w", c.choose("n", [1, 2, 3]), WS)
    a, b = c.choose("ab", [("", ""), ("x", "y"), ("", "y"), ("\\n", "")])
    q = c.choose("pre", ["", "[w="]) + quote + a + w + b + quote
    q = q + ("]" if q[0] == "[" else "")
    c.show("query", q)
    o = parse(q, **CFG)
    c.check(o.ok, "white space in a literal is refused")
    if o.ok:
        e = o.tree
        while kind(e) != "Expression":
            e = e.children[0]
        c.check(c.eq(e.regex, a.replace("\\n", "\n") + w + b), "white space in the literal is not kept")


@case("C26", bounds="strings of 1-3 arbitrary white space characters around any string of 0-1 arbitrary characters are treated as that string")
def around(c):
    x = c.chars("x", c.choose("k", [0, 1]))
    w, v = c.chars("w", c.choose("n", [0, 1, 2]), WS), c.chars("v", c.choose("m", [1, 2]), WS)
    compare(c, x, w + x + v)


@case("C26", bounds="5 seed queries with one arbitrary character at a token boundary, then arbitrary white space at both ends", weight=2)
def hole(c):
    s = c.choose("s", ["[a='x']", "'a'|'b'", "('a')+", "'a'{1,2}", "'a' within s"])
    k = c.choose("k", list(range(len(s) + 1)))
    q = s[:k] + c.char("h") + s[k:]
    # a quote opened by the character would swallow the end
    c.assume(not (q[k] in "\"'\\"))
    w = c.chars("w", 1, WS)
    compare(c, q, w + q + w)


@case("C26", bounds="15 queries: two arbitrary white space characters at any two boundaries, one at a third", tier="thorough", weight=3)
def three(c):
    toks = c.choose("q", QUERIES)
    n = nb(toks)
    i = c.choose("i", list(range(n)))
    j = c.choose("j", list(range(i, n)))
    k = c.choose("k", list(range(j, n)))
    compare(c, *build(c, toks, {k: 1, j: 2, i: 2}))


def one_more(c, q):
    """An arbitrary white space character at one boundary between two tokens."""
    r = ref_parse(q)
    c.assume(r.ok)
    at = c.choose("at", sorted({t.start for t in r.toks} | {t.stop for t in r.toks}))
    compare(c, q, q[:at] + c.char("w", WS) + q[at:], enableSourceLocations=False)


@case("C26", bounds=gen.varied_bounds() + "; an arbitrary white space character at any one token boundary", weight=2)
def varied(c):
    one_more(c, gen.varied(c))


@case("C26", bounds=gen.varied_bounds(triples=True) + "; an arbitrary white space character at any one token boundary", weight=4, tier="thorough")
def varied3(c):
    one_more(c, gen.varied(c, triples=True))
