import unicodedata

from sx.ctx import case
from cases.common import parse, expressions, rexpressions, align, kind, under_setups, SETUP_BOUNDS
from cases import big, gen
from fcsref.parser import ref_parse

FORMS = [None, "NFC", "NFD", "NFKC", "NFKD"]


def norm(form, s):
    return s if form is None else unicodedata.normalize(form, s)


def check(c, q, form, how="arg"):
    c.show("query", q)
    c.show("form", form)
    kw = {} if how == "default" else {"unicode_normalization_form": form}
    o = parse(q, **kw)
    r = ref_parse(q)
    if not r.ok:
        return
    c.check(o.ok, "a legal query is refused")
    if not o.ok:
        return
    a, b = expressions(o.tree), rexpressions(r.tree)
    c.check(len(a) == len(b), "number of literals")
    for x, y in zip(a, b):
        c.special(y.attrs["regex"])
        c.check(c.eq(x.regex, norm(form, y.attrs["regex"])), "literal text is not the normalization of the decoded text")
    return o, r


@case("C02", bounds="literal of 0-2 arbitrary characters (either quote), every form, the default form", weight=3)
def body2(c):
    n = c.choose("n", [0, 1, 2])
    how = c.choose("how", ["arg", "default"])
    form = "NFC" if how == "default" else c.choose("form", FORMS)
    quote = c.choose("quote", ['"', "'"])
    check(c, quote + c.chars("x", n, gen.NODQ if quote == '"' else gen.NOSQ) + quote, form, how)


@case("C02", bounds="literal of 2-3 units, each an arbitrary ordinary character or an escape with arbitrary digits, "
                    "every form", weight=3)
def units(c):
    form = c.choose("form", FORMS)
    n = c.choose("n", [2, 3])
    body = ""
    for i in range(n):
        body = body + gen.unit(c, "u%d" % i, ["o", "e", "x", "u"] if i < 2 else ["o", "u"])
    check(c, '"' + body + '"', form)


@case("C02", bounds="literal of 1 ordinary character and 1 eight-digit escape, every form", weight=2)
def unitU(c):
    form = c.choose("form", FORMS)
    a, b = gen.unit(c, "a", ["o"]), "\\U000" + gen.hexes(c, "h", 5)
    check(c, '"' + (a + b if c.bool("order") else b + a) + '"', form)


@case("C02", bounds="literal of 1-2 units in each of 9 surrounding contexts, with and without flags, every form", weight=3)
def contexts(c):
    form = c.choose("form", FORMS)
    pre, post = c.choose("ctx", gen.CONTEXTS)
    check(c, pre + '"' + gen.unit(c, "a", ["o", "u"]) + gen.unit(c, "b", ["o", "e"]) + '"' + post, form)


@case("C02", bounds="two literals in one query (sequence, disjunction, boolean, quantified group; flagged or not), one "
                    "arbitrary character or \\u escape each, every form", weight=2)
def two(c):
    form = c.choose("form", FORMS)
    a = '"e' + gen.unit(c, "a", ["o", "u"]) + '"' + c.choose("fa", ["", "/l", "/i", "/d"])
    b = '"' + gen.unit(c, "b", ["o", "u"]) + 'e"' + c.choose("fb", ["", "/l"])
    f = c.choose("f", [("", " ", ""), ("", "|", ""), ("[a=", "&b=", "]"), ("(", "", "){2}"), ("[!a!=", "|b=", "] within s")])
    check(c, f[0] + a + f[1] + b + f[2], form)


@case("C02", bounds="literals of 4..64 arbitrary ordinary characters, every form")
def long(c):
    form = c.choose("form", FORMS)
    n = c.choose("n", [4, 8, 16, 17, 33, 64])
    check(c, '"' + c.chars("x", n, gen.NODQ) + '"', form)


@case("C02", bounds="literals of up to 370 characters with two characters that compose (decompose) at any one of the positions around the "
                    "multiples of 16 from 16 to 288; an arbitrary letter elsewhere; every form", weight=2)
def interacting(c):
    form = c.choose("form", FORMS[1:])
    at = c.choose("at", list(range(0, 10)) + [n + d for n in range(16, 289, 16) for d in (-2, -1, 0)])
    pair = c.choose("pair", ["a\u0301", "\u00e9", "q\u0323\u0307", "\u1100\u1161\u11a8", "\uac01", "\u0307\u0323"])
    ch = c.char("x", gen.LETTER)
    check(c, '"' + ch * at + "b" + pair + "c" + "y" * c.choose("rest", [0, 70]) + '"', form)


@case("C02", bounds="a literal of 2 arbitrary characters in a query with qualifier, flags, quantifier and within; "
                    "everything but the literal text is the same under every form, locations included")
def rest_same(c):
    form = c.choose("form", FORMS)
    q = "[ q:x-a != \"" + c.chars("x", 2, gen.NODQ) + "\"/d ]{2,} ('" + c.char("y", gen.NOSQ) + "' | 'b')* within s"
    c.show("query", q)
    o, r = parse(q, unicode_normalization_form=form, enableSourceLocations=True), ref_parse(q)
    c.check(o.ok, "refused")
    if not o.ok:
        return
    pairs = align(o.tree, r.tree)
    c.check(pairs is not None, "structure changed by normalization")
    for n, x in pairs or []:
        c.check(n.location is not None and n.location.start == x.start and n.location.stop == x.stop, "location")
        for a in ("identifier", "qualifier"):
            if x.kind == "Expression":
                c.check(getattr(n, a) == x.attrs[a], a)


@case("C02", bounds="identifier and qualifier words are left alone: default identifier of 2 arbitrary characters, every form")
def default_identifier(c):
    form = c.choose("form", FORMS)
    ident = c.chars("i", 2)
    c.assume(len(ident) == 2)
    q = '"' + c.char("x", gen.NODQ) + '"'
    c.show("query", q)
    c.show("identifier", ident)
    c.special(ident)
    o = parse(q, unicode_normalization_form=form, default_identifier=ident)
    c.check(o.ok, "refused")
    if o.ok:
        c.check(c.eq(expressions(o.tree)[0].identifier, ident), "the default identifier was changed")


@case("C02", bounds="reconfiguring a parser between parses: the second parse of a literal of 2 arbitrary characters uses the "
                    "form set last")
def reconfigure(c):
    from fcsql.parser import QueryParser
    f1, f2 = c.choose("f1", FORMS), c.choose("f2", FORMS)
    s = c.chars("x", 2, gen.NODQ)
    q = '"' + s + '"'
    c.show("query", q)
    c.special(s)
    p = QueryParser(unicode_normalization_form=f1)
    a = expressions(p.parse(q))[0].regex
    p.unicode_normalization_form = f2
    b = expressions(p.parse(q))[0].regex
    c.check(c.eq(a, norm(f1, s)), "first parse")
    c.check(c.eq(b, norm(f2, s)), "second parse")


@case("C02", bounds="fcsql.parse normalizes to NFC: literal of 2 arbitrary characters")
def top_level(c):
    import fcsql
    s = c.chars("x", 2, gen.NODQ)
    q = '"' + s + '"'
    c.show("query", q)
    c.special(s)
    loc = c.bool("loc")
    t = fcsql.parse(q, enableSourceLocations=loc)
    c.check(c.eq(expressions(t)[0].regex, norm("NFC", s)), "fcsql.parse does not apply NFC")


@case("C02", bounds="literal of 3 arbitrary characters, every form", tier="thorough", weight=4)
def body3(c):
    form = c.choose("form", FORMS)
    check(c, '"' + c.chars("x", 3, gen.NODQ) + '"', form)


@case("C02", bounds="literal of 4 units, every form", tier="thorough", weight=4)
def units4(c):
    form = c.choose("form", FORMS)
    body = ""
    for i in range(4):
        body = body + gen.unit(c, "u%d" % i, ["o", "e", "x", "u"])
    check(c, '"' + body + '"', form)


@case("C02", bounds="15 query templates with one arbitrary character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q, c.choose("form", FORMS)), gen.ANY)


@case("C02", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c), c.choose("form", ["NFC", "NFKD"]))


@case("C02", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"), c.choose("form", ["NFC", "NFKD"]))


@case("C02", bounds=gen.varied_bounds() + "; forms NFD and None", weight=2)
def varied(c):
    check(c, gen.varied(c), c.choose("form", ["NFD", None]))


@case("C02", bounds=gen.varied_bounds(triples=True) + "; forms NFD and None", weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True), c.choose("form", ["NFD", None]))
