from fcsql.parser import Operator, RegexFlag
from fcsql.validation import is_likely_a_regex

from sx.ctx import case
from cases import gen
from cases.common import parse
from cases.vcommon import SIZES, WIDE_BOUNDS, surroundings, wide, expr, judge, likely_regex, POS_TAGS


def one(c, **kw):
    c.show("value", kw.get("regex"))
    e = expr(**kw)
    judge(c, e, ids=[e.identifier])


@case("C19", bounds="pos with any value of 0-6 characters", weight=2)
def anyvalue(c):
    one(c, identifier="pos", regex=c.chars("r", c.choose("n", [0, 1, 2, 3, 4, 5, 6])))


@case("C19", bounds="every UD tag with one character replaced by, or inserted as, any character, deleted, or in lower case", weight=2)
def near(c):
    w = c.choose("w", POS_TAGS)
    k = c.choose("k", ["rep", "ins", "del", "lower", "title", "same"])
    if k in ("rep", "ins", "del"):
        i = c.choose("i", list(range(len(w) + (k == "ins"))))
        w = w[:i] + ("" if k == "del" else c.char("h")) + w[i + (k != "ins"):]
    elif k == "lower":
        w = w.lower()
    elif k == "title":
        w = w.title()
    one(c, identifier="pos", regex=w)


@case("C19", bounds="two UD tags joined by any character or none")
def joined(c):
    a, b = c.choose("a", POS_TAGS), c.choose("b", ["ADJ", "X", "NOUN", "CCONJ"])
    one(c, identifier="pos", regex=a + c.chars("h", c.choose("n", [0, 1])) + b)


@case("C19", bounds="any layer of 0-4 characters, with or without qualifier of 1-2 characters, value NN, NOUN or N*")
def layers(c):
    q = c.chars("q", c.choose("nq", [1, 2])) if c.bool("hasq") else None
    one(c, identifier=c.chars("l", c.choose("n", [0, 1, 2, 3, 4])), qualifier=q, regex=c.choose("r", ["NN", "NOUN", "N*"]))


@case("C19", bounds="every set of flags, value of 0-2 arbitrary characters")
def flags(c):
    fl = {f for f in RegexFlag if c.bool("f" + f.char)}
    one(c, identifier="pos", regex=c.chars("r", c.choose("n", [0, 1, 2])), flags=fl or None)


@case("C19", bounds="the value may be on any of 4 layers with the other conditions, and layer pos next to an allow list or not")
def context(c):
    q = c.choose("q", [None, "UD17"])
    e = expr(c.choose("l", ["pos", "text", "x-pos", "POS"]), q, c.chars("r", c.choose("n", [1, 2, 3])))
    c.show("value", e.regex)
    judge(c, e, ids=c.choose("ids", [None, [], ["pos"], ["text"]]), quals=c.choose("quals", [None, [("pos", ["UD17"])], [("pos", None)]]),
          warnings_as_errors=c.bool("wae"))


@case("C19", bounds="is_likely_a_regex on any string of 0-5 characters", weight=2)
def likely(c):
    s = c.chars("s", c.choose("n", [0, 1, 2, 3, 4, 5]))
    c.show("value", s)
    c.check(c.eq(bool(is_likely_a_regex(s)), likely_regex(s)), "is_likely_a_regex")


@case("C19", bounds="parsed pos comparisons with a value of 1-3 arbitrary characters or an escape, with or without flag and qualifier",
      weight=2)
def parsed(c):
    v = c.choose("pre", ["", "NOU"]) + gen.unit(c, "a", ["o", "e", "x"]) + c.choose("suf", ["", "N"])
    q = "[" + c.choose("q", ["", "q:"]) + 'pos="' + v + '"' + c.choose("f", ["", "/i", "/l"]) + "]"
    c.show("query", q)
    o = parse(q, unicode_normalization_form=None)
    if o.ok:
        judge(c, o.tree, query=q)


@case("C19", bounds="several pos comparisons in one query, each a tag, no tag, a regex, flagged, qualified or on another layer", weight=2)
def several(c):
    ps = [c.choose("p%d" % i, ['pos="NOUN"', 'pos="NN"', 'pos="N.*"', 'pos="NN"/i', 'q:pos="NN"', 'text="NN"', 'pos!="noun"'])
          for i in range(3)]
    q = c.choose("f", ["[%s & %s] [%s]", "[%s | !(%s & %s)]", '([%s] "NN" | [%s]) [%s] within s']) % tuple(ps)
    c.show("query", q)
    judge(c, parse(q).tree, query=q)


@case("C19", bounds="any value of 7 characters", tier="thorough", weight=2)
def anyvalue7(c):
    one(c, identifier="pos", regex=c.chars("r", 7))


@case("C19", bounds="two adjacent arbitrary characters in every UD tag", tier="thorough", weight=2)
def near2(c):
    w = c.choose("w", POS_TAGS)
    i = c.choose("i", list(range(max(1, len(w) - 1))))
    one(c, identifier="pos", regex=w[:i] + c.chars("h", 2) + w[i + 2:])


@case("C19", bounds="is_likely_a_regex on any string of 6-8 characters", tier="thorough", weight=2)
def likely8(c):
    s = c.chars("s", c.choose("n", [6, 7, 8]))
    c.show("value", s)
    c.check(c.eq(bool(is_likely_a_regex(s)), likely_regex(s)), "is_likely_a_regex")


@case("C19", bounds="pos with a tag, another word, a regular expression or an empty value, qualified or not, either operator, flagged or "
                    "not, under any three nested parents", weight=2)
def surrounded(c):
    e = expr("pos", c.choose("q", [None, "a"]), c.choose("r", ["NOUN", "NN", "N.*", ""]), op=c.choose("op", list(Operator)),
             flags=c.choose("flags", [None, {RegexFlag.LITERAL_MATCHING}]))
    judge(c, surroundings(c, e))


@case("C19", bounds=WIDE_BOUNDS % SIZES, weight=2)
def sizes(c):
    judge(c, wide(c, modes=["mixed", "pos"]))


@case("C19", bounds="values of 7..1025 characters, three of them arbitrary")
def long(c):
    n = c.choose("n", [7, 8, 9, 10, 13, 16, 17, 21, 33, 65, 101, 129, 257, 513, 1025])
    s = "ADJNOUN X" * (n // 9 + 1)
    one(c, identifier="pos", regex=c.char("f") + s[1:n // 2] + c.char("m") + s[n // 2 + 1:n - 1] + c.char("l"))


@case("C19", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    q = gen.varied(c, ident="pos")
    c.show("query", q)
    o = parse(q, unicode_normalization_form=None)
    if o.ok:
        judge(c, o.tree, query=q)


@case("C19", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    q = gen.varied(c, ident="pos", triples=True)
    c.show("query", q)
    o = parse(q, unicode_normalization_form=None)
    if o.ok:
        judge(c, o.tree, query=q)
