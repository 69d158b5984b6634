from sx.ctx import case
from cases.common import parse, expressions, rexpressions, under_setups, SETUP_BOUNDS, TEMPLATES
from cases import big, gen
from fcsref.parser import ref_parse


def check(c, q, **kw):
    c.show("query", q)
    o = parse(q, unicode_normalization_form=None, **kw)
    r = ref_parse(q)
    c.check(o.kind != "other", "parse raised something else than QueryParserException")
    if not r.ok:
        # only a refused code point may make an otherwise well-formed literal unacceptable
        if r.kind == "sem":
            c.check(o.kind == "refused", "a literal naming no code point is accepted")
        return
    c.check(o.ok, "a legal literal is refused")
    if not o.ok:
        return
    a = [e.regex for e in expressions(o.tree)]
    b = [e.attrs["regex"] for e in rexpressions(r.tree)]
    c.check(len(a) == len(b), "number of literals")
    for x, y in zip(a, b):
        c.check(c.eq(x, y), "decoded text differs")


@case("C01", bounds="one literal, double or single quotes, body of 0-3 arbitrary characters", weight=5)
def body3(c):
    n = c.choose("n", [0, 1, 2, 3])
    quote = c.choose("quote", ['"', "'"])
    check(c, quote + c.chars("x", n) + quote)


@case("C01", bounds="as body3 with 4 arbitrary characters", tier="thorough", weight=5)
def body4(c):
    quote = c.choose("quote", ['"', "'"])
    check(c, quote + c.chars("x", 4) + quote)


@case("C01", bounds="bodies of 1-3 units, each an arbitrary ordinary character or any escape with arbitrary hex digits",
      weight=4)
def units(c):
    n = c.choose("n", [1, 2, 3])
    body = ""
    for i in range(n):
        body = body + gen.unit(c, "u%d" % i, ["o", "e", "x", "u", "U"] if n < 3 else ["o", "e", "x", "u"])
    check(c, '"' + body + '"')


@case("C01", bounds="single-quoted bodies of 1-2 units", weight=3)
def units_single(c):
    n = c.choose("n", [1, 2])
    body = ""
    for i in range(n):
        k = c.choose("k%d" % i, ["o", "e", "x", "u", "U"])
        if k == "o":
            body = body + c.char("c%d" % i, gen.NOSQ)
        elif k == "e":
            body = body + "\\" + c.char("c%d" % i, gen.SIMPLE)
        else:
            body = body + "\\" + k + gen.hexes(c, "h%d" % i, {"x": 2, "u": 4, "U": 8}[k])
    check(c, "'" + body + "'")


@case("C01", bounds="body of 4 units (thorough)", tier="thorough", weight=3)
def units4(c):
    body = ""
    for i in range(4):
        body = body + gen.unit(c, "u%d" % i, ["o", "e", "x", "u", "U"])
    check(c, '"' + body + '"')


@case("C01", bounds="literal with 2 units in each of 9 surrounding contexts (comparison, group, sequence, disjunction, "
                    "negation, flags, within)", weight=3)
def contexts(c):
    pre, post = c.choose("ctx", gen.CONTEXTS)
    body = gen.unit(c, "a", ["o", "e", "x", "u"]) + gen.unit(c, "b", ["o", "e", "U"])
    check(c, pre + '"' + body + '"' + post)


@case("C01", bounds="literals of 5..200 arbitrary ordinary characters (lengths 5,6,7,8,9,12,15,16,17,20,31,32,33,40,50,"
                    "63,64,65,80,100,127,128,129,200), plain or with one escape at the start, in the middle or at the end")
def long(c):
    n = c.choose("n", [5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 127, 128, 129, 200])
    esc = c.choose("esc", ["none", "start", "mid", "end"])
    chars = c.chars("x", n, gen.NODQ)
    u = ""
    if esc != "none":
        u = gen.unit(c, "u", ["e", "x", "u", "U"])
    at = {"none": 0, "start": 0, "mid": n // 2, "end": n}[esc]
    check(c, '"' + chars[:at] + u + chars[at:] + '"')


@case("C01", bounds="1..24 consecutive escapes of one kind with arbitrary digits")
def repeated(c):
    n = c.choose("n", [1, 2, 3, 5, 8, 13, 24])
    k = c.choose("k", ["x", "u", "U"])
    body = ""
    for i in range(n):
        d = {"x": 2, "u": 4, "U": 4}[k]
        body = body + "\\" + k + ("0000" if k == "U" else "") + gen.hexes(c, "h%d_" % i, d)
    check(c, '"' + body + '"')


@case("C01", bounds="two literals in one query, each of 1 unit, in a sequence, disjunction or boolean expression")
def two(c):
    a = '"' + gen.unit(c, "a", ["o", "e", "x", "u", "U"]) + '"'
    b = '"' + gen.unit(c, "b", ["o", "e", "x", "u", "U"]) + '"'
    f = c.choose("f", [("", " ", ""), ("", "|", ""), ("[a=", "&b=", "]"), ("(", "", "){2}")])
    check(c, f[0] + a + f[1] + b + f[2])


@case("C01", bounds="22 query templates with one arbitrary character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q), gen.ANY,
                 templates=TEMPLATES + ["'%'", '"\\\\%"', "'\\u00e9%\\\\'", '[a="\\U0001F600%"]', "[a='\\'%']", '"\\"%\\t"', '"\\x0a%\\."'])


@case("C01", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c))


@case("C01", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"))


@case("C01", bounds="two or three literals, each an arbitrary ASCII letter or digit followed by one of five escapes; in a sequence, "
                    "disjunction or boolean expression", weight=2)
def twins(c):
    e = c.choose("e", ["\\n", "\\x41", "\\.", "\\u00e9", "\\\\"])
    n = c.choose("n", [2, 3])
    f = c.choose("f", [("", " ", ""), ("", "|", ""), ("[a=", "&b=", "]")])
    out = ""
    for i in range(n):
        out = out + (f[1] if i else "") + '"' + c.char("x%d" % i, gen.ALNUM) + e + '"'
    check(c, f[0] + out + f[2])


@case("C01", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c))


@case("C01", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True))
