import fcsql
from fcsql.parser import QueryParser, QueryParserException
from fcsql.validation import FCSQLValidator

from sx.ctx import case
from cases import big, gen
from cases.c20 import ITEMS
from cases.common import parse_with

OPTS = [dict(), dict(warnings_as_errors=True)]


def same_details(c, a, b):
    if len(a) != len(b):
        return False
    return c.all([c.all([x is y or c.eq(x, y) for x, y in zip((p.message, p.type, p.position, p.fragment),
                                                            (q.message, q.type, q.position, q.fragment))])
                  for p, q in zip(a, b)])


def attempt(f):
    try:
        return "ret", f()
    except Exception as ex:
        return "raise", ex


def check(c, q, version=None):
    c.show("query", q)
    kv = {} if version is None else {"version": version}
    p = QueryParser(enableSourceLocations=True)
    o = parse_with(p, q)
    c.check(o.kind != "other", "the parser raised another exception")
    if o.kind == "other":
        return
    for opt in OPTS:
        wae = bool(opt)
        if o.ok:
            v = FCSQLValidator(query=q, raise_at_first_violation=False, warnings_as_errors=wae)
            verdict = v.validate(o.tree)
            want = list(v.errors) + (list(v.warnings) if wae else [])
        else:
            verdict = False
            want = list(p.errors)
        k, got = attempt(lambda: fcsql.validate(q, **opt, **kv))
        c.check(k == "ret", "validate raised")
        c.check(got is verdict, "boolean form is %s" % (got,))
        k, lst = attempt(lambda: fcsql.validate(q, return_errors=True, **opt, **kv))
        c.check(k == "ret" and isinstance(lst, list), "the list form raised or is no list")
        if k != "ret" or not isinstance(lst, list):
            continue
        c.check((len(lst) == 0) is verdict, "list form and boolean form disagree")
        if o.ok or want:
            c.check(same_details(c, lst, want), "the list is not the parser's or the validator's")
        else:
            c.check(len(lst) == 1, "a refusal without syntax errors must give one detail")
            if len(lst) == 1:
                c.check(c.eq(lst[0].message, str(o.exc)), "the detail does not carry the exception message")


@case("C22", bounds="every string of 0-3 characters", weight=3)
def any3(c):
    check(c, c.chars("x", c.choose("n", [0, 1, 2, 3])))


LOW = ((0, 0x2FF),)  # no normalisation (fcsql.validate normalises to NFC)
SEEDS = ['[word = "a"]', "[pos='NN' & x-a=\"b\"]", '[foo!="x"/i]{2,1}', '"\\x41"/il | "b"', '([q:pos="a"] [])* within s']


@case("C22", bounds="5 seed queries with one position replaced by, or one character inserted as, any character below U+0300", weight=4)
def holes(c):
    check(c, gen.holes(c, SEEDS, dom=LOW))


@case("C22", bounds="queries of 1-3 comparisons, each clean, warning, error or POS warning, with & or |, in one or two segments", weight=2)
def issues(c):
    n = c.choose("n", [1, 2, 3])
    q = "["
    for i in range(n):
        l, v = c.choose("i%d" % i, ITEMS)
        q = q + (c.choose("op%d" % i, [" & ", " | ", "] ["]) if i else "") + l + '="' + v + '"'
    check(c, q + "]" + c.choose("w", ["", " within text"]))


@case("C22", bounds="a comparison with layer and value of 0-3 characters below U+0300")
def layer(c):
    check(c, "[" + c.chars("l", c.choose("n", [1, 3]), gen.ALNUM) + '="' + c.chars("v", c.choose("m", [0, 1, 2]), LOW) + '"]')


@case("C22", bounds="refusals that are no syntax errors: any two flag letters, any range of two digits each, any 8-digit code point")
def semantic(c):
    k = c.choose("k", ["flags", "range", "cp"])
    if k == "flags":
        q = '"a"/' + c.chars("f", c.choose("n", [1, 2, 3]), "iIcCld")
    elif k == "range":
        q = '"a"{' + c.chars("a", 2, "0123456789") + "," + c.chars("b", 2, "0123456789") + "}"
    else:
        q = '[foo="\\U' + c.chars("h", 8, "019aF") + '"]'
    check(c, q)


@case("C22", bounds="any version string of 0-4 characters other than 2.2, all options, 4 queries (good, bad layer, bad syntax, empty)")
def versions(c):
    v = c.chars("v", c.choose("n", [0, 1, 2, 3, 4]))
    q = c.choose("q", ['"a"', '[foo="x"]', "[", ""])
    c.assume(v != "2.2")
    c.show("version", v)
    for re_ in (False, True):
        for wae in (False, True):
            k, r = attempt(lambda: fcsql.validate(q, version=v, return_errors=re_, warnings_as_errors=wae))
            c.check(k == "raise" and isinstance(r, ValueError), "an unknown version gives %s" % k)


@case("C22", bounds="version 2.2 given explicitly: queries of 2 arbitrary characters and 5 seeds")
def explicit(c):
    check(c, c.choose("q", SEEDS + ['"a"', "[", '"' + c.chars("x", 1) + '"']), version="2.2")


@case("C22", bounds="a validator registered for another version is the one used, in every mode; query of 3 kinds")
def registered(c):
    import fcsql.validation as fv
    warn = c.bool("warn")

    class Mine(fv.Validator):
        def visit_Expression(self, node):
            (self.validation_warning if warn else self.validation_error)(node, "mine")
            return super().visit_Expression(node)
    ver = c.choose("ver", ["9.9", "2.1", "x"])
    fv.VALIDATORS[ver] = Mine
    try:
        wae = c.bool("wae")
        q = c.choose("q", ['"a"', '[foo="b"]', "[]"])
        bad = q != "[]" and (wae or not warn)
        k, r = attempt(lambda: fcsql.validate(q, version=ver, warnings_as_errors=wae))
        c.check(k == "ret" and r is (not bad), "boolean form")
        k, r = attempt(lambda: fcsql.validate(q, version=ver, warnings_as_errors=wae, return_errors=True))
        c.check(k == "ret" and [d.message for d in r] == (["mine"] if bad else []), "list form")
    finally:
        del fv.VALIDATORS[ver]


@case("C22", bounds="two adjacent characters below U+0300 in 5 seed queries", tier="thorough", weight=4)
def holes2(c):
    check(c, gen.holes2(c, SEEDS, dom=LOW))


@case("C22", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c))


@case("C22", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"))


@case("C22", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c, ident="zz"))


@case("C22", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, ident="zz", triples=True))
