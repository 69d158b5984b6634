from sx.ctx import case
from cases.common import parse, kind, align, expressions, under_setups, SETUP_BOUNDS
from cases import big, gen
from fcsref.parser import ref_parse


def check(c, q, tree=True):
    c.show("query", q)
    o, r = parse(q, unicode_normalization_form=None), ref_parse(q)
    c.check(o.kind != "other", "another exception")
    if r.ok:
        c.check(o.ok, "a sentence of the language is refused")
    else:
        c.check(not o.ok, "something outside the language is accepted")
    if tree and o.ok and r.ok:
        # nothing of the input was ignored: every part of the text is in the tree
        pairs = align(o.tree, r.tree)
        if not any(t.type == "NOT" for t in r.toks):
            c.check(pairs is not None, "the tree is not the one of the whole text")
        for x, y in pairs or []:
            if y.kind == "Expression":
                c.check(c.eq(x.regex, y.attrs["regex"]), "text inside quotes")


@case("C12", bounds="every string of 0-3 characters", weight=5)
def any3(c):
    check(c, c.chars("x", c.choose("n", [0, 1, 2, 3])))


@case("C12", bounds="12 seed queries with one position replaced by, or one character inserted as, an arbitrary character", weight=4)
def holes(c):
    check(c, gen.holes(c))


TOK = ['"a"', "[", "]", "(", ")", "|", "&", "!", "a", "=", "!=", ":", "/", "i", "{", "}", "2", ",", "*", "within", "s"]


@case("C12", bounds="every sequence of up to 4 of 20 token texts, blank separated, in any of 6 frames", weight=6)
def tokens(c):
    pre, post, n = c.choose("frame", [("", "", 3), ("[", "]", 3), ('"a" ', "", 3), ("(", ")", 3), ('[a="b" ', "]", 3),
                                      ('"a"{', "}", 3)])
    q = pre
    for i in range(c.choose("n", list(range(n + 1)))):
        q = q + c.choose("t%d" % i, TOK) + " "
    check(c, q + post, tree=False)


@case("C12", bounds="12 seed queries with any one token deleted, doubled, or swapped with the next")
def edits(c):
    from fcsref.lexer import tokenize
    s = c.choose("s", gen.SEEDS)
    toks, _ = tokenize(s)
    t = [x.text for x in toks]
    k = c.choose("k", ["del", "dup", "swap"])
    i = c.choose("i", list(range(len(t) - (1 if k == "swap" else 0))))
    if k == "del":
        t = t[:i] + t[i + 1:]
    elif k == "dup":
        t = t[:i] + [t[i]] + t[i:]
    else:
        t = t[:i] + [t[i + 1], t[i]] + t[i + 2:]
    check(c, " ".join(t))


@case("C12", bounds="a literal of 0-3 arbitrary characters, either quote, closed or not, beside other syntax", weight=3)
def literal(c):
    quote = c.choose("q", ['"', "'"])
    pre, post = c.choose("ctx", [("", ""), ("[w=", "]"), ("'x' ", ' "y"')])
    check(c, pre + quote + c.chars("x", c.choose("n", [0, 1, 2] if pre else [0, 1, 2, 3])) + c.choose("cl", [quote, ""]) + post)


@case("C12", bounds="words of 1-3 arbitrary letters, digits, hyphens in name, qualifier, flag, scope, keyword position", weight=3)
def words(c):
    w = c.chars("w", c.choose("n", [1, 2, 3]), gen.WORDCH)
    f = c.choose("f", [("[", '="a"]'), ("[", ':x="a"]'), ('"a"/', ""), ('"a" within ', ""), ('"a" ', " s"), ("", "")])
    check(c, f[0] + w + f[1])


@case("C12", bounds="longest match: two texts of the token inventory with 0-1 arbitrary characters between, in 3 frames", weight=2)
def adjacent(c):
    f = c.choose("f", [("[", '="a"]'), ('"a" ', ""), ("[a", '"b"]')])
    a, b = c.choose("a", ["a", "a-", "i", "s", "within", "!", "=", "2", "-a"]), c.choose("b", ["a", "1", "-b", "=", "s", "i", ":"])
    check(c, f[0] + a + c.chars("x", c.choose("n", [0, 1])) + b + f[1])


@case("C12", bounds="range legality: {n,m} with 1-2 arbitrary digits each; flag combinations of 1-3 arbitrary letters; escapes "
                    "\\x \\u \\U with arbitrary digits", weight=2)
def semantic(c):
    k = c.choose("k", ["range", "flags", "esc"])
    if k == "range":
        q = '"a"{' + c.chars("n", c.choose("nd", [1, 2]), "0123456789") + "," + c.chars("m", c.choose("md", [1, 2]), "0123456789") + "}"
    elif k == "flags":
        q = '"a"/' + c.chars("f", c.choose("nf", [1, 2, 3]), "icICld")
    else:
        e, n = c.choose("e", [("x", 2), ("u", 4), ("U", 8)])
        q = '"\\' + e + gen.hexes(c, "h", n) + '"'
    check(c, q, tree=False)


@case("C12", bounds="two arbitrary characters: at the start and at the end of 12 seed queries", weight=2)
def ends(c):
    check(c, c.char("a") + c.choose("s", gen.SEEDS) + c.char("b"))


@case("C12", bounds="every sequence of 4 token texts, in 2 frames", tier="thorough", weight=6)
def tokens4(c):
    pre, post = c.choose("frame", [("", ""), ("[", "]"), ('"a" ', ""), ("[a = ", "]")])
    q = pre
    for i in range(4):
        q = q + c.choose("t%d" % i, TOK) + " "
    check(c, q + post, tree=False)


@case("C12", bounds="every string of 4 characters", tier="thorough", weight=6)
def any4(c):
    check(c, c.chars("x", 4))


@case("C12", bounds="6 seed queries with two adjacent characters replaced by two arbitrary ones", tier="thorough", weight=4)
def holes2(c):
    check(c, gen.holes2(c))


@case("C12", bounds="15 query templates with one arbitrary character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q), gen.ANY)


@case("C12", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c))


@case("C12", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"))


@case("C12", bounds=big.faulty_bounds(), weight=2)
def faulty_sizes(c):
    check(c, big.faulty(c))


@case("C12", bounds=big.faulty_bounds("thorough"), tier="thorough", weight=2)
def more_faulty_sizes(c):
    check(c, big.faulty(c, "thorough"))


@case("C12", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c))


@case("C12", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True))
