from fcsql.parser import (Expression, ExpressionAnd, ExpressionGroup, ExpressionNot, ExpressionOr, ExpressionWildcard, Operator,
                          QueryDisjunction, QueryGroup, QuerySegment, QuerySequence, QueryWithWithin, SimpleWithin,
                          SimpleWithinScope, SourceLocation)
from fcsql.validation import FCSQLValidator, SpecificationValidationError, Validator

from sx.ctx import case
from cases import anytree, gen
from cases.common import kind, parse, preorder
from cases.vcommon import SIZES, MORE_SIZES, WIDE_BOUNDS, wide, expr

TEXT = "0123456789abcdefghijklmnopqrstuvwxyz"


def observing(base):
    """The validator with its reporting methods observed: log = (counts as error?, node, message) in order."""
    class V(base):
        def validate(self, node, **kw):
            self.log = []
            return super().validate(node, **kw)

        def validation_error(self, node, message):
            self.log.append(("error", node, message))
            return super().validation_error(node, message)

        def validation_warning(self, node, message):
            self.log.append(("warning", node, message))
            return super().validation_warning(node, message)
    return V


def fragment(query, node):
    if query is None or node.location is None:
        return None
    return query[node.location.start:node.location.stop]


def outcome(v, t, how, **kw):
    """('ret', verdict) or ('raise', exception) or ('other', exception)"""
    try:
        return ("ret", getattr(v, how)(t, **kw))
    except SpecificationValidationError as ex:
        return ("raise", ex)
    except Exception as ex:
        return ("other", ex)


def modes(c, t, base=FCSQLValidator, query=None, plain=True, **cfg):
    O = observing(base)
    res = {}
    for wae in (False, True):
        v = O(query=query, raise_at_first_violation=False, warnings_as_errors=wae, **cfg)
        k, r = outcome(v, t, "validate")
        c.check(k == "ret", "collecting mode raised")
        if k != "ret":
            return
        errors, warnings, log = list(v.errors), list(v.warnings), v.log
        le, lw = [x for x in log if x[0] == "error"], [x for x in log if x[0] == "warning"]
        c.check(len(errors) == len(le) and len(warnings) == len(lw), "not every reported issue is recorded, or recorded as the other kind")
        c.check(c.eq([d.message for d in errors], [x[2] for x in le]) if len(errors) == len(le) else False, "recorded errors")
        c.check(c.eq([d.message for d in warnings], [x[2] for x in lw]) if len(warnings) == len(lw) else False, "recorded warnings")
        count = le + lw if wae else le
        c.check(r is (not count), "collecting mode: verdict %s for %d issues that count" % (r, len(count)))
        k2, r2 = outcome(v, t, "is_valid")
        c.check(k2 == "ret" and r2 is r, "is_valid in collecting mode differs")
        res[wae] = (errors, warnings)
        first = [x for x in log if wae or x[0] == "error"][:1]
        # raising mode
        w = O(query=query, raise_at_first_violation=True, warnings_as_errors=wae, **cfg)
        k, r = outcome(w, t, "validate")
        if first:
            c.check(k == "raise", "raising mode does not raise although an issue counts")
            if k == "raise":
                _, node, message = first[0]
                c.check(c.eq(r.args[0], message), "message of the raised error")
                c.check(c.eq(str(r), message), "text of the raised error")
                c.check(r.node is node, "node of the raised error")
                c.check(same_text(c, r.query_fragment, fragment(query, node)), "fragment of the raised error")
        else:
            c.check(k == "ret" and r is True, "raising mode without an issue that counts does not return True")
            if k == "ret":
                c.check(len(w.errors) == 0, "an error in raising mode although it returned")
                c.check(c.eq([d.message for d in w.warnings], [d.message for d in warnings]), "warnings in raising mode")
        k, r = outcome(O(query=query, raise_at_first_violation=True, warnings_as_errors=wae, **cfg), t, "is_valid")
        c.check(k == "ret" and r is (not first), "is_valid in raising mode")
        if plain:
            p = base(raise_at_first_violation=False, warnings_as_errors=wae, **cfg)
            c.check(p.validate(t) is (not count), "without query text the verdict differs")
    if len(res) == 2:
        for i in (0, 1):
            a, b = res[False][i], res[True][i]
            c.check(len(a) == len(b) and c.all([c.eq(x.message, y.message) and x.type == y.type for x, y in zip(a, b)]),
                    "warnings_as_errors changes what is recorded")


def same_text(c, a, b):
    if a is None or b is None:
        return a is b
    return c.eq(a, b)


ITEMS = [("text", ".*"), ("word", ".*"), ("foo", ".*"), ("pos", "nn"), ("x-a", "a")]


@case("C20", bounds="parsed segments of 1-3 comparisons with any structure of & and |, each clean, warning, error or POS warning",
      weight=3)
def parsed(c):
    n = c.choose("n", [1, 2, 3])
    q = ""
    for i in range(n):
        l, v = c.choose("i%d" % i, ITEMS[:4] if i else ITEMS)
        q = q + (c.choose("op%d" % i, [" & ", " | "]) if i else "") + (c.choose("not", ["", "!"]) if i == 0 else "") + l + '="' + v + '"'
    q = "[" + q + "]"
    c.show("query", q)
    modes(c, parse(q).tree, query=q)


@case("C20", bounds="queries of 3 parts with any separators, groups and within, each clean, warning, error or POS warning", weight=3)
def parts(c):
    q = ""
    for i in range(3):
        l, v = c.choose("i%d" % i, ITEMS[:4])
        s = "[" + l + '="' + v + '"]'
        q = q + (c.choose("sep%d" % i, [" ", " | "]) if i else "") + (c.choose("g", ["", "("]) if i == 1 else "") + s
        if i == 1 and "(" in q:
            q = q + ")*"
    q = q + c.choose("w", ["", " within s"])
    c.show("query", q)
    modes(c, parse(q).tree, query=q, plain=False)


@case("C20", bounds="several issues on one expression: allow lists of identifiers and qualifiers, layer pos, arbitrary value and qualifier",
      weight=2)
def one_node(c):
    ids = c.choose("ids", [None, ["pos"], ["text"]])
    quals = c.choose("quals", [None, [("pos", ["a"])], [("pos", None)]])
    e = expr(c.choose("l", ["pos", "text", "word", "zz"]), c.choose("q", [None, "a", c.chars("q", 1)]),
             c.chars("r", c.choose("n", [1, 2])))
    e.location = SourceLocation(3, 7)
    modes(c, QuerySegment(e, 1, 1), query=c.choose("text", [None, TEXT]), allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals)


@case("C20", bounds="one expression with an identifier of 1-6 arbitrary characters and a value of 0-2")
def any_identifier(c):
    e = expr(c.chars("l", c.choose("n", [1, 2, 3, 4, 5, 6])), None, c.chars("r", c.choose("m", [0, 2])))
    c.show("identifier", e.identifier)
    modes(c, e, query=None)


KINDS = ["Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr", "QuerySegment",
         "QueryGroup", "QuerySequence", "QueryDisjunction", "QueryWithWithin", "SimpleWithin"]
TREES = ['[a="1"]', '"x" | "y"', '([a="1" & !b="2"] [])* within s', '[(a="1" | b="2")] ("x"){2}']


@case("C20", bounds="a validator of the user that reports up to 2 errors or warnings at any nodes of 4 queries (every node kind), before "
                    "or after their children", weight=3)
def custom(c):
    q = c.choose("q", TREES)
    t = parse(q).tree
    nodes = preorder(t)
    plan = []
    for i in range(c.choose("n", [0, 1, 2])):
        plan.append((nodes[c.choose("node%d" % i, list(range(len(nodes))))],
                     (c.choose("when%d" % i, ["pre", "post"]), c.choose("what%d" % i, ["error", "warning"]))))
    c.show("query", q)
    modes(c, t, base=reporting_validator(plan), query=q, plain=False)


def reporting_validator(plan):
    class Rep(Validator):
        pass

    def mk(name):
        base = getattr(Validator, name)

        def h(self, node):
            for when in ("pre", "post"):
                if when == "post":
                    base(self, node)
                for k, (w, what) in plan:
                    if k is node and w == when:
                        if what == "error":
                            self.validation_error(node, "E" + w + kind(node))
                        else:
                            self.validation_warning(node, "W" + w + kind(node))
        return h
    for k in KINDS:
        setattr(Rep, "visit_" + k, mk("visit_" + k))
    return Rep


@case("C20", bounds="messages and query text are arbitrary: a message of 0-2 characters, query text of 0-3 characters, any location in it")
def arbitrary_text(c):
    n = c.choose("n", [1, 2, 3])
    text = c.chars("t", n)
    msg = c.chars("m", c.choose("k", [0, 1, 2]))
    warn = c.bool("warn")

    class V(Validator):
        def visit_Expression(self, node):
            (self.validation_warning if warn else self.validation_error)(node, msg)
            return super().visit_Expression(node)
    e = expr("text")
    a = c.choose("a", list(range(n)))
    e.location = SourceLocation(a, c.choose("b", list(range(a + 1, n + 1)))) if c.bool("loc") else None
    modes(c, QuerySequence([QuerySegment(e, 1, 1), QuerySegment(e, 1, 1)]), base=V, query=text)


@case("C20", bounds="parsed segments of 4 comparisons, each clean, warning, error or POS warning", tier="thorough", weight=3)
def parsed4(c):
    q = "[" + " & ".join([l + '="' + v + '"' for l, v in [c.choose("i%d" % i, ITEMS) for i in range(4)]]) + "]"
    c.show("query", q)
    modes(c, parse(q).tree, query=q)


@case("C20", bounds="3 reports at any nodes of 4 queries", tier="thorough", weight=4)
def custom3(c):
    q = c.choose("q", TREES)
    t = parse(q).tree
    nodes = preorder(t)
    plan = []
    for i in range(3):
        plan.append((nodes[c.choose("node%d" % i, list(range(len(nodes))))],
                     (c.choose("when%d" % i, ["pre", "post"]), c.choose("what%d" % i, ["error", "warning"]))))
    c.show("query", q)
    modes(c, t, base=reporting_validator(plan), query=q, plain=False)


@case("C20", bounds=WIDE_BOUNDS % SIZES, weight=2)
def sizes(c):
    modes(c, wide(c, locations=c.bool("locations")), query=c.choose("text", [None, TEXT * 40]))


@case("C20", bounds=WIDE_BOUNDS % MORE_SIZES, weight=2, tier="thorough")
def more_sizes(c):
    modes(c, wide(c, MORE_SIZES, locations=c.bool("locations")), query=c.choose("text", [None, TEXT * 40]))


@case("C20", bounds=anytree.BOUNDS % "1-2", weight=2)
def free(c):
    t, _ = anytree.chain(c, [1, 2], leaves=["Expression", "SimpleWithin"])
    modes(c, t, query=TEXT)


@case("C20", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    q = gen.varied(c, ident="zz")
    c.show("query", q)
    o = parse(q, enableSourceLocations=True)
    if o.ok:
        modes(c, o.tree, query=q, plain=False)


@case("C20", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    q = gen.varied(c, ident="zz", triples=True)
    c.show("query", q)
    o = parse(q, enableSourceLocations=True)
    if o.ok:
        modes(c, o.tree, query=q, plain=False)
