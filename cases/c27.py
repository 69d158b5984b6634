from fcsql.parser import Expression, Operator, QuerySegment, QuerySequence, SourceLocation
from fcsql.validation import FCSQLValidator, SpecificationValidationError, Validator

from sx.ctx import case
from cases import anytree, gen
from cases.c20 import ITEMS, KINDS, TREES, fragment, observing, same_text
from cases.common import kind, parse, preorder
from cases.vcommon import SIZES, WIDE_BOUNDS, wide, expr, rules, exprs_in_order


def same_loc(c, a, b):
    if a is None or b is None:
        return a is b
    return isinstance(a, SourceLocation) and c.all([c.eq(a.start, b.start), c.eq(a.stop, b.stop)])


def issues(c, v, text, log):
    """The recorded issues against the reported ones (log of (kind, node, message))."""
    for got, what in ((v.errors, "error"), (v.warnings, "warning")):
        want = [x for x in log if x[0] == what]
        c.check(len(got) == len(want), "number of %ss" % what)
        for d, (_, node, message) in zip(got, want):
            c.check(d.type == "validation-" + what, "type of a recorded %s" % what)
            c.check(same_loc(c, d.position, node.location), "position of a recorded %s" % what)
            c.check(same_text(c, d.fragment, fragment(text, node)), "fragment of a recorded %s" % what)


def raised(c, ex, text, node):
    c.check(ex.node is node, "node of the raised error")
    c.check(same_text(c, ex.query_fragment, fragment(text, node)), "fragment of the raised error")


def run(c, t, given, kw, base=FCSQLValidator, offenders=None):
    """Validate t, query text given to the constructor and to validate() as in given = (ctor, validate)."""
    ctor, late = given
    text = late if late is not None else ctor
    V = observing(base)
    v = V(query=ctor, raise_at_first_violation=False, **kw)
    v.validate(t, query=late) if late is not None else v.validate(t)
    issues(c, v, text, v.log)
    log = v.log
    if offenders is not None:
        # the reported nodes are the expressions that break a rule, in order
        c.check([id(x[1]) for x in log] == [id(x) for x in offenders], "issues are reported at other nodes")
    for wae in (False, True):
        counts = [x for x in log if wae or x[0] == "error"]
        w = V(query=ctor, raise_at_first_violation=True, warnings_as_errors=wae)
        if kw:
            for k, x in kw.items():
                setattr(w, k, x)
        try:
            w.validate(t, query=late) if late is not None else w.validate(t)
            ex = None
        except SpecificationValidationError as e:
            ex = e
        c.check((ex is not None) == bool(counts), "raised or not")
        if ex is not None and counts:
            raised(c, ex, text, counts[0][1])
    return v


def texts(c, q, other):
    return c.choose("text", [(None, None), (q, None), (None, q), (other, q), (q, q)])


@case("C27", bounds="parsed segments of 1-3 comparisons, each clean, warning, error or POS warning, locations on or off, query text given "
                    "nowhere, to the constructor, to validate() or different to both", weight=3)
def parsed(c):
    n = c.choose("n", [1, 2, 3])
    q = "["
    for i in range(n):
        l, v = c.choose("i%d" % i, ITEMS[:4])
        q = q + (c.choose("op%d" % i, [" & ", " | ", "] ["]) if i else "") + l + '="' + v + '"'
    q = q + "]"
    t = parse(q, enableSourceLocations=c.bool("loc")).tree
    c.show("query", q)
    off = [x for x in exprs_in_order(t) for _ in rules(x)]
    run(c, t, texts(c, q, "~" * 80), {}, offenders=off)


@case("C27", bounds="one comparison with layer and value of 1-2 arbitrary characters between 0-2 arbitrary white space characters", weight=2)
def arbitrary(c):
    from fcsref.lexer import WS
    q = "[" + c.chars("w", c.choose("nw", [0, 1, 2]), WS) + c.chars("l", c.choose("nl", [1, 2]), gen.ALNUM) + '="' + c.chars(
        "v", c.choose("nv", [1, 2]), ((32, 33), (35, 91), (93, 0x2FF))) + '"' + c.chars("z", c.choose("nz", [0, 1]), WS) + "]"
    c.show("query", q)
    o = parse(q, enableSourceLocations=True)
    if o.ok:
        off = [x for x in exprs_in_order(o.tree) for _ in rules(x)]
        run(c, o.tree, c.choose("text", [(q, None), (None, q), ("#" * 40, q)]), {}, offenders=off)


@case("C27", bounds="the implicit literal, groups, negation and within around the offending expression; values of 1 arbitrary character")
def places(c):
    ch = c.char("v", gen.LETTER)
    q = c.choose("q", ['[!pos="%s"]', '("%s" | [foo="%s"]){2}', '[(word="%s" | x-a="%s") & !(pos="%s")]', '"a" [zz="%s"] within s',
                       '[foo="%s"/i] | [bar!="%s"]', '"\\u00e9" [foo="%s"]'])
    q = q.replace("%s", ch)
    c.show("query", q)
    o = parse(q, enableSourceLocations=c.bool("loc"), default_identifier=c.choose("di", ["text", "zz"]))
    if o.ok:
        off = [x for x in exprs_in_order(o.tree) for _ in rules(x)]
        run(c, o.tree, texts(c, q, "different text"), {}, offenders=off)


@case("C27", bounds="any location inside a query text of 1-4 arbitrary characters; error or warning", weight=2)
def slices(c):
    n = c.choose("n", [1, 2, 3, 4])
    q = c.chars("t", n)
    e = expr(c.choose("id", ["foo", "word"]))
    if c.bool("loc"):
        a = c.choose("a", list(range(n)))
        e.location = SourceLocation(a, c.choose("b", list(range(a + 1, n + 1))))
    run(c, QuerySegment(e, 1, 1), c.choose("text", [(None, None), (q, None), (None, q), ("abcd", q)]), {}, offenders=[e])


@case("C27", bounds="a user's validator that reports 1-2 issues at any nodes of 4 queries (every node kind), before or after their children; "
                    "locations on or off", weight=3)
def custom(c):
    from cases.c20 import reporting_validator
    q = c.choose("q", TREES)
    t = parse(q, enableSourceLocations=c.bool("loc")).tree
    nodes = preorder(t)
    plan = [(nodes[c.choose("node%d" % i, list(range(len(nodes))))],
             (c.choose("when%d" % i, ["pre", "post"]), c.choose("what%d" % i, ["error", "warning"])))
            for i in range(c.choose("n", [1, 2]))]
    c.show("query", q)
    run(c, t, c.choose("text", [(q, None), ("zzz", q)]), {}, base=reporting_validator(plan))


@case("C27", bounds="several issues on one expression: identifier, qualifier and POS value at once, arbitrary qualifier and value")
def several(c):
    e = expr("pos", c.choose("q", [None, c.chars("q", 1)]), c.chars("r", 1))
    e.location = SourceLocation(1, 4)
    kw = dict(allowed_layer_identifiers=c.choose("ids", [None, ["text"]]), allowed_layer_qualifiers=c.choose("qs", [None, [("text", ["a"])]]))
    f = expr("text")
    f.location = SourceLocation(5, 6)
    from cases.vcommon import rules as r
    off = [x for x in (e, f) for _ in r(x, kw["allowed_layer_identifiers"], kw["allowed_layer_qualifiers"])]
    run(c, QuerySequence([QuerySegment(e, 1, 1), QuerySegment(f, 1, 1)]), c.choose("text", [("abcdefg", None), (None, None)]), kw,
        offenders=off)


@case("C27", bounds="the same validator for two queries one after the other, each with its own text, or the text of the constructor")
def reuse(c):
    V = observing(FCSQLValidator)
    q1, q2 = '[foo="' + c.char("a", gen.LETTER) + '"]', ' [word="' + c.char("b", gen.LETTER) + '" & bar="b"]'
    ctor = c.choose("ctor", [None, q1])
    v = V(query=ctor, raise_at_first_violation=False)
    t1, t2 = parse(q1, enableSourceLocations=True).tree, parse(q2, enableSourceLocations=True).tree
    if ctor is None or c.bool("late"):
        v.validate(t1, query=q1)
    else:
        v.validate(t1)
    issues(c, v, q1, v.log)
    v.validate(t2, query=q2)
    issues(c, v, q2, v.log)


@case("C27", bounds="offending expressions of up to 600 characters: value, layer identifier or qualifier of 1..513 characters (an arbitrary letter "
                    "among them), alone, in a row, a disjunction, a group, with a within clause; locations on or off", weight=2)
def lengths(c):
    n = c.choose("n", [1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 101, 119, 120, 121, 127, 128, 129, 200, 255, 256, 257, 511,
                       512, 513])
    ch = c.char("v", ((97, 122),))
    q = c.choose("q", [lambda: '[zzz="' + ch + "v" * n + '"]', lambda: "[zzz='" + "v" * n + ch + "']", lambda: '[z' + ch + "z" * n + '="a"]',
                       lambda: '[' + "z" * n + ch + ':pos="A"]', lambda: '[pos="' + "v" * n + ch + '"]',
                       lambda: '[zzz="a" & foo="' + ch * n + '" & word="b" ]'])()
    a, b = c.choose("frame", ['%s', '"a" %s', '"a" | %s', '(%s "b"){1,2}', '%s within s', '[word="b" | foo="c"] %s']).split("%s")
    q = a + q + b
    c.show("query", q)
    t = parse(q, enableSourceLocations=c.bool("loc")).tree
    off = [x for x in exprs_in_order(t) for _ in rules(x)]
    run(c, t, c.choose("text", [(q, None), (None, q), ("#" * 700, q), (None, None)]), {}, offenders=off)


@case("C27", bounds=WIDE_BOUNDS % SIZES, weight=2)
def sizes(c):
    t = wide(c, modes=["errors", "warnings", "mixed", "last"], locations=c.bool("locations"))
    run(c, t, texts(c, "The query text. " * 70, "other"), {}, offenders=[x for x in exprs_in_order(t) for _ in rules(x)])


@case("C27", bounds=anytree.BOUNDS % "1-2" + "; the text given or not", weight=2)
def free(c):
    t, _ = anytree.chain(c, [1, 2], leaves=["Expression", "SimpleWithin"])
    off = [x for x in exprs_in_order(t) for _ in rules(x)]
    run(c, t, c.choose("text", [(None, None), (None, "0123456789" * 5)]), {}, offenders=off)


@case("C27", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    q = gen.varied(c, ident="zz")
    c.show("query", q)
    o = parse(q, enableSourceLocations=True)
    if o.ok:
        run(c, o.tree, c.choose("text", [(q, None), (None, q)]), {}, offenders=[x for x in exprs_in_order(o.tree) for _ in rules(x)])


@case("C27", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    q = gen.varied(c, ident="zz", triples=True)
    c.show("query", q)
    o = parse(q, enableSourceLocations=True)
    if o.ok:
        run(c, o.tree, c.choose("text", [(q, None), (None, q)]), {}, offenders=[x for x in exprs_in_order(o.tree) for _ in rules(x)])
