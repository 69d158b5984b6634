import fcsql
from fcsql.parser import QueryParser, QueryVisitorAdapter
from fcsql.validation import FCSQLValidator, SpecificationValidationError

from sx.ctx import case
from cases import big, gen
from cases.c15 import RICH, WIDE
from cases.c23 import CONFIGS, QUERIES, same_errors, same_outcome, same_tree
from cases.common import debug_logging, kind, parse_with, preorder
from cases.tsnap import snap, unchanged


def both(c, q, **kw):
    c.show("query", q)
    a = parse_with(QueryParser(**kw), q)
    with debug_logging() as sink:
        b = parse_with(QueryParser(**kw), q)
    c.check(sink.count > 0, "case broken: nothing was logged")
    same_outcome(c, b, a)
    return a, b


@case("C29", bounds="every string of 0-2 characters, 3 configurations", weight=2)
def any2(c):
    both(c, c.chars("x", c.choose("n", [0, 1, 2])), **c.choose("cfg", CONFIGS))


@case("C29", bounds="12 seed queries with any one position replaced by an arbitrary character", weight=4)
def holes(c):
    both(c, gen.holes(c, ins=False), enableSourceLocations=True)


@case("C29", bounds="37 rich, wide and faulty queries, 3 configurations")
def rich(c):
    both(c, c.choose("q", RICH + WIDE + QUERIES), **c.choose("cfg", CONFIGS))


def outcome(f):
    try:
        return "value", f()
    except SpecificationValidationError as ex:
        return "raised", ex
    except Exception as ex:
        return "other", ex


VALID = ['"a"', '[word="a"]', '[x-a="b" & c="d"]', '[pos="noun" | q:pos="x"]', '("a" [!zzz="1"])* within s', '[pos="A%" & q:text="b"]',
         '[q:lemma="%" | y:text!="c"]']


@case("C29", bounds="validation of 7 queries with one arbitrary letter, raising or collecting, warnings as errors or not, allow lists or none",
      weight=2)
def validating(c):
    q = c.choose("q", VALID)
    if "%" in q:
        a, b = q.split("%")
        q = a + c.char("h", gen.LETTER) + b
    t = fcsql.parse(q)
    c.show("query", q)
    kw = dict(raise_at_first_violation=c.bool("raise"), warnings_as_errors=c.bool("wae"))
    if c.bool("allow"):
        kw["allowed_layer_identifiers"] = ["text", "pos"]
        kw["allowed_layer_qualifiers"] = [("text", ["q"]), ("pos", None)]
        c.assume(q.find("q:pos") < 0)
    u, v = FCSQLValidator(query=q, **kw), FCSQLValidator(query=q, **kw)
    s = snap(t)
    a = outcome(lambda: u.validate(t))
    with debug_logging():
        b = outcome(lambda: v.validate(t))
        d = outcome(lambda: FCSQLValidator(query=q, **kw).is_valid(t))
    c.check(a[0] == b[0], "validate raises in one case only")
    if a[0] == b[0] == "value":
        c.check(a[1] is b[1], "verdicts differ")
    elif a[0] == b[0] == "raised":
        c.check(a[1].node is b[1].node and c.eq(str(a[1]), str(b[1])) and c.eq(a[1].query_fragment, b[1].query_fragment), "exceptions differ")
    c.check(same_errors(c, u.errors, v.errors) and same_errors(c, u.warnings, v.warnings), "issues differ")
    c.check(d[0] == "value" and d[1] is (a[0] == "value" and a[1]), "is_valid")
    c.check(unchanged(c, t, s), "the tree changed")


@case("C29", bounds="fcsql.parse, can_parse, validate and antlr_parse of 22 queries, all modes")
def module(c):
    q = c.choose("q", VALID[:5] + QUERIES + ["[a='b' | c]", '"x"/ll'])
    c.show("query", q)
    kw = dict(return_errors=c.bool("ret"), warnings_as_errors=c.bool("wae"))
    fs = [lambda: fcsql.parse(q), lambda: fcsql.can_parse(q), lambda: fcsql.validate(q, **kw), lambda: fcsql.antlr_parse(q).getText()]
    f = fs[c.choose("f", [0, 1, 2, 3])]

    def run():
        try:
            return "value", f()
        except Exception as ex:
            return type(ex).__name__, str(ex)
    a = run()
    with debug_logging():
        b = run()
    c.check(a[0] == b[0], "outcome")
    if isinstance(a[1], fcsql.QueryNode):
        c.check(same_tree(c, a[1], b[1]), "tree")
    elif isinstance(a[1], list):
        c.check(isinstance(b[1], list) and same_errors(c, a[1], b[1]), "issues")
    else:
        c.check(c.eq(a[1], b[1]), "result")


class Rec(QueryVisitorAdapter):
    def __init__(self):
        super().__init__()
        self.log = []

    def visit_Expression(self, node):
        self.log.append(("e", node))
        return 1

    def visit_QueryGroup(self, node):
        self.log.append(("g", node))
        return super().visit_QueryGroup(node)

    def visitChildren(self, node):
        self.log.append(("c", node))
        return super().visitChildren(node)

    def defaultResult(self):
        return 0

    def aggregateResult(self, aggregate, nextResult):
        return aggregate + nextResult


PIECES = ['"a"', '("b" "c")', '"d" "e"', '[x="f" & (g="h" | !i="j")]', '("k" | "l" | "m" | "n" "o")+']


@case("C29", bounds="2-6 alternatives, or items in a row, one of them (at any place) of any of 5 kinds, in a group or not, with and without "
                    "a within clause", weight=2)
def shapes(c):
    n = c.choose("n", [2, 3, 4, 5, 6])
    at = c.choose("at", list(range(n)))
    p = c.choose("piece", PIECES)
    alt = c.bool("alt")
    xs = ["[]" if i % 2 else '"%s"' % "uvwxyz"[i] for i in range(n)]
    xs[at] = p
    q = (" | " if alt else " ").join(xs)
    both(c, c.choose("frame", ["%s", "(%s)", "(%s) []", '"0" | "1" "2" (%s){2} | "3"', "%s within s"]) % q,
         enableSourceLocations=c.bool("loc"))


@case("C29", bounds=big.bounds())
def sizes(c):
    both(c, big.query(c), enableSourceLocations=True)


@case("C29", bounds="a visitor on 21 trees: same handlers, same order, same result")
def visiting(c):
    t = fcsql.parse(c.choose("q", RICH + WIDE))
    s = snap(t)
    u, v = Rec(), Rec()
    a = u.visit(t)
    with debug_logging():
        b = v.visit(t)
    c.check(a == b, "result")
    c.check(len(u.log) == len(v.log) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(u.log, v.log)), "visits")
    c.check(unchanged(c, t, s), "the tree changed")


@case("C29", bounds="12 seed queries with any one character inserted as an arbitrary character", tier="thorough", weight=4)
def holes_ins(c):
    s = c.choose("seed", gen.SEEDS)
    k = c.choose("pos", list(range(len(s) + 1)))
    both(c, s[:k] + c.char("h") + s[k:], enableSourceLocations=c.bool("loc"))


@case("C29", bounds="every string of 3 characters", tier="thorough", weight=3)
def any3(c):
    both(c, c.chars("x", 3))


@case("C29", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    both(c, gen.varied(c), enableSourceLocations=True)


@case("C29", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    both(c, gen.varied(c, triples=True), enableSourceLocations=True)
