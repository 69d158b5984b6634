from fcsql.parser import Operator

from sx.ctx import case
from cases.common import parse, expressions, rexpressions, flags_of, under_setups, SETUP_BOUNDS, TEMPLATES, SETUP
from cases import big, gen
from fcsref.parser import ref_parse

SCOPES = ["sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session"]
WORDS = SCOPES + ["within", "i", "I", "c", "C", "l", "d", "ic", "lI", "dd", "iIcCld", "word", "lemma", "pos", "x-a", "a-b-c",
                  "Text", "WITHIN", "sentences", "x1", "s1", "i2", "withi", "withins", "not", "and", "or"]


def check(c, q, must=False, known_ident=None, known_op=None, **kw):
    c.show("query", q)
    o = parse(q, **kw)
    r = ref_parse(q, **{k: v for k, v in (("identifier", known_ident), ("operator", known_op)) if v is not None})
    c.check(o.kind != "other", "another exception")
    if must:
        c.check(r.ok, "case broken: reference refuses")
    if r.kind != "sem":
        c.check(o.ok == r.ok, "acceptance of a comparison")
    if not (o.ok and r.ok):
        return
    a, b = expressions(o.tree), rexpressions(r.tree)
    c.check(len(a) == len(b), "number of comparisons")
    for x, y in zip(a, b):
        c.check(c.eq(x.identifier, y.attrs["identifier"]), "identifier")
        if y.attrs["qualifier"] is None:
            c.check(x.qualifier is None, "a qualifier where none is written")
        else:
            c.check(x.qualifier is not None and c.eq(x.qualifier, y.attrs["qualifier"]), "qualifier")
        c.check(isinstance(x.operator, Operator) and x.operator.value == y.attrs["operator"], "operator")
        c.check(flags_of(x) == y.attrs["flags"], "flags")
        c.check(c.eq(x.regex, y.attrs["regex"]), "literal text")


OPS = ["=", "!="]


@case("C07", bounds="identifier of 1-4 arbitrary letters, digits, hyphens, no qualifier, both operators", weight=4)
def ident(c):
    check(c, "[" + c.chars("w", c.choose("n", [1, 2, 3, 4]), gen.WORDCH) + c.choose("op", OPS) + '"v"]')


@case("C07", bounds="qualifier and identifier of 1-2 arbitrary letters, digits, hyphens each, both operators", weight=4)
def both(c):
    check(c, "[" + c.chars("q", c.choose("n", [1, 2]), gen.WORDCH) + ":" +
          c.chars("w", c.choose("m", [1, 2]), gen.WORDCH) + c.choose("op", OPS) + '"v"]')


@case("C07", bounds="identifier or qualifier of 5, 6, 9 arbitrary letters or digits (first a letter)", weight=3)
def long_words(c):
    w = c.char("f", gen.LETTER) + c.chars("w", c.choose("n", [4, 5, 8]), gen.ALNUM)
    check(c, "[" + (w + ":x" if c.bool("q") else w) + c.choose("op", OPS) + '"v"]', must=True)


@case("C07", bounds="41 words (scope words, keyword, flag letters, near misses) as qualifier and as identifier, both "
                    "operators; the other word is one arbitrary letter", weight=2)
def special_words(c):
    w = c.choose("w", WORDS)
    o = c.char("o", gen.LETTER)
    form = c.choose("form", ["i", "q", "Q"])
    a = {"i": w, "q": w + ":" + o, "Q": o + ":" + w}[form]
    check(c, "[" + a + c.choose("op", OPS) + "'v']", must=True)


@case("C07", bounds="20 x 20 pairs of special words as qualifier and identifier")
def special_pairs(c):
    w, v = c.choose("w", WORDS[:20]), c.choose("v", WORDS[:20])
    check(c, "[" + w + ":" + v + "!='v']", must=True)


@case("C07", bounds="2-3 comparisons joined by any & and |, negated or not, each with or without qualifier and with either "
                    "operator, one name an arbitrary letter", weight=3)
def several(c):
    n = c.choose("n", [2, 3])
    at = c.choose("at", ["q0", "i0", "q1", "i1"])
    def name(k, d):
        return c.char(k, gen.LETTER) if k == at else d
    q = "["
    for i in range(n):
        if i:
            q = q + c.choose("j%d" % i, ["&", "|"])
        q = q + c.choose("n%d" % i, ["", "!"] if i == 0 else [""])
        if c.bool("hq%d" % i):
            q = q + name("q%d" % i, "q-r") + ":"
        q = q + name("i%d" % i, "z-y") + c.choose("o%d" % i, OPS) + '"' + c.char("v%d" % i, gen.PRINT) + '"'
    check(c, q + "]", must=True)


@case("C07", bounds="up to 2 arbitrary white space characters before or after each token of a comparison", weight=2)
def spaced(c):
    toks = ["q", ":", "w", c.choose("op", OPS), '"v"']
    at = c.choose("at", list(range(6)))
    ws = c.chars("s", c.choose("n", [1, 2]), gen.WSD)
    q = "["
    for i, t in enumerate(toks):
        q = q + (ws if i == at else "") + t
    check(c, q + (ws if at == 5 else "") + "]", must=True)


@case("C07", bounds="operator position: 1-2 arbitrary characters between name and literal, and between qualifier and name")
def operator(c):
    if c.bool("k"):
        check(c, "[w" + c.chars("o", c.choose("n", [1, 2])) + '"v"]')
    else:
        check(c, "[q" + c.chars("o", c.choose("n", [1, 2])) + 'w="v"]')


@case("C07", bounds="bare literal of 1 arbitrary character with 0-1 flags: default identifier of 0-3 arbitrary characters or "
                    "unset, either default operator or unset; in a sequence, group, disjunction, beside comparisons", weight=2)
def defaults(c):
    kw = {}
    ki = ko = None
    if c.bool("hasi"):
        ki = kw["default_identifier"] = c.chars("i", c.choose("in", [0, 1, 2, 3]))
        c.show("identifier", ki)
    if c.bool("haso"):
        op = c.choose("op", list(Operator))
        kw["default_operator"] = op
        ko = op.value
    pre, post = c.choose("ctx", [("", ""), ("(", ")"), ("[a!='x']", ""), ("'x' |", ""), ("", "[q:a='x']{2}"), ("", " within s")])
    check(c, pre + '"' + c.char("v", gen.PRINT) + '"' + c.choose("f", ["", "/i", "/l"]) + post, True, ki, ko, **kw)


@case("C07", bounds="2 or 3 bare literals and comparisons in one query; configured defaults apply to the bare ones only")
def mixed(c):
    q = ""
    for i in range(3):
        q = q + c.choose("p%d" % i, ['"x"', '[text!="y"/d]', '[text:text="z"]', '("w"/i)']) + c.choose("s%d" % i, [" ", "|"] if i < 2 else [""])
    check(c, q, True, "x-deflt", "Ne", default_identifier="x-deflt", default_operator=Operator.NOT_EQUALS)


@case("C07", bounds="literal text of 2 arbitrary characters beside names: text never leaks into names")
def quoted_names(c):
    check(c, "[q:w" + c.choose("op", OPS) + '"' + c.chars("x", 2, gen.NODQ) + '" & v="' + c.char("y", gen.NODQ) + '"]', must=True,
          unicode_normalization_form=None)


@case("C07", bounds="name position: 1-2 arbitrary characters", weight=2)
def any_name(c):
    check(c, "[" + c.chars("x", c.choose("n", [0, 1, 2])) + c.choose("op", OPS) + '"v"]')


@case("C07", bounds="identifier of 5-6 arbitrary letters, digits, hyphens", tier="thorough", weight=4)
def ident6(c):
    check(c, "[" + c.chars("w", c.choose("n", [5, 6]), gen.WORDCH) + '="v"]')


@case("C07", bounds="qualifier and identifier of 3 arbitrary letters, digits, hyphens each", tier="thorough", weight=4)
def both3(c):
    check(c, "[" + c.chars("q", 3, gen.WORDCH) + ":" + c.chars("w", 3, gen.WORDCH) + '="v"]')


@case("C07", bounds="name position: 3 arbitrary characters", tier="thorough", weight=4)
def any_name3(c):
    check(c, "[" + c.chars("x", 3) + '="v"]')


@case("C07", bounds="21 query templates with one arbitrary printable character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q, known_ident=SETUP[0]["kw"].get("default_identifier"),
                                     known_op="Ne" if "default_operator" in SETUP[0]["kw"] else None), gen.PRINT,
                 templates=TEMPLATES + ['[a!="%"]', '[x:a="%"]', '[x:a!="%"/c]', '[q-1:text="%" | text!="b"]', '"%"/i', '"%"/Cld'])


@case("C07", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c))


@case("C07", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"))


@case("C07", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c))


@case("C07", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True))
