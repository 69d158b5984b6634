from fcsql.parser import SourceLocation
from fcsql.validation import FCSQLValidator, SpecificationValidationError, Validator

from sx.ctx import case
from cases import anytree, gen
from cases.c20 import KINDS
from cases.common import kind, parse, preorder
from cases.tsnap import snap, unchanged
from cases.vcommon import wide_tree, expr


class Own(Exception):
    pass


class Watch:
    """Records what parent_node is at every handler; act(node, when) is what the validator does there."""

    def __init__(self, act):
        self.act = act
        self.log = []


def watching(base, names=None):
    class V(base):
        watch = None
    for k in KINDS:
        def mk(name):
            b = getattr(base, name)

            def h(self, node):
                w = self.watch
                w.log.append(("pre", node, self.parent_node))
                w.act(self, node, "pre")
                r = b(self, node)
                w.log.append(("post", node, self.parent_node))
                w.act(self, node, "post")
                return r
            return h
        if names is None or k in names:
            setattr(V, "visit_" + k, mk("visit_" + k))
    return V


def nothing(v, node, when):
    pass


def run(v, t, act=nothing, how="validate", **kw):
    v.watch = w = Watch(act)
    try:
        r = ("ret", getattr(v, how)(t, **kw))
    except SpecificationValidationError as ex:
        r = ("raise", ex.args, ex.node, ex.query_fragment)
    except Own:
        r = ("own",)
    return r, w.log, [(d.message, d.type, d.position, d.fragment) for d in v.errors], [
        (d.message, d.type, d.position, d.fragment) for d in v.warnings]


def same_run(c, a, b):
    (ra, la, ea, wa), (rb, lb, eb, wb) = a, b
    c.check(len(ra) == len(rb) and ra[0] == rb[0] and c.all([x is y or c.eq(x, y) for x, y in zip(ra[1:], rb[1:])]),
            "verdict or raised error differs from a fresh validator's")
    c.check(len(la) == len(lb) and all(x[0] == y[0] and x[1] is y[1] and x[2] is y[2] for x, y in zip(la, lb)),
            "parent_node values differ from a fresh validator's")
    for x, y, what in ((ea, eb, "errors"), (wa, wb, "warnings")):
        c.check(len(x) == len(y) and c.all([same_issue(c, p, q) for p, q in zip(x, y)]), what + " differ from a fresh validator's")


def same_issue(c, p, q):
    return c.all([x is y or c.eq(x, y) for x, y in zip(p, q)])


def parents(t):
    out = {}

    def walk(n, p):
        out[id(n)] = p
        for x in n.children:
            walk(x, n)
    walk(t, None)
    return out


def check_parents(c, log, t):
    ps = parents(t)
    for when, n, p in log:
        if id(n) in ps:
            c.check(p is ps[id(n)], "parent_node of %s (%s children)" % (kind(n), "before its" if when == "pre" else "after its"))


TREES = ['[pos="x"]', '"a" | [foo="1" & !word="2"]', '([foo="1" | (bar="2")] [])* within s', '[text=".*"]',
         '("x" | ["' "" 'a"]) "y"']
TREES[4] = '([x-y=".*" & word="1"] "a" | "b"{2}) "y"'


def cfg(c):
    return dict(raise_at_first_violation=c.bool("raise"), warnings_as_errors=c.bool("wae"),
                allowed_layer_identifiers=c.choose("ids", [None, ["foo", "text"]]))


@case("C21", bounds="histories of 1-2 validations of any of 5 trees by FCSQLValidator, any modes, then any of the 5 trees", weight=3)
def histories(c):
    V = watching(FCSQLValidator)
    kw = cfg(c)
    n = c.choose("n", [1, 2])
    qs = [c.choose("q%d" % i, TREES) for i in range(n + 1)]
    ts = [parse(q).tree for q in qs]
    c.show("queries", qs)
    v = V(**kw)
    for i, t in enumerate(ts):
        how = c.choose("how%d" % i, ["validate", "is_valid"]) if i == 0 else "validate"
        s = snap(t)
        got = run(v, t, how=how)
        c.check(unchanged(c, t, s), "validating changes the tree")
        same_run(c, got, run(V(**kw), t, how=how))
        check_parents(c, got[1], t)


@case("C21", bounds="one earlier validation of an expression with arbitrary identifier of 1-4 and value of 0-2 characters, then another",
      weight=2)
def arbitrary(c):
    V = watching(FCSQLValidator)
    kw = dict(raise_at_first_violation=c.bool("raise"), warnings_as_errors=c.bool("wae"))
    v = V(**kw)
    a = expr(c.chars("a", c.choose("n", [1, 4])), None, c.chars("r", c.choose("m", [0, 2])))
    b = expr(c.chars("b", c.choose("k", [3, 4])), None, c.chars("s", 1))
    c.show("identifiers", (a.identifier, b.identifier))
    run(v, a)
    s = snap(b)
    got = run(v, b)
    c.check(unchanged(c, b, s), "validating changes the tree")
    same_run(c, got, run(V(**kw), b))


@case("C21", bounds="an earlier validation aborted at any node of 4 queries (before or after its children) by a raised violation or by "
                    "an exception of the handler, then any tree", weight=3)
def aborted(c):
    V = watching(Validator)
    q = c.choose("q", TREES[:3] + [TREES[4]])
    t = parse(q).tree
    nodes = preorder(t)
    target = nodes[c.choose("node", list(range(len(nodes))))]
    when = c.choose("when", ["pre", "post"])
    what = c.choose("what", ["error", "warning", "own"])
    u = t if c.bool("same") else parse(c.choose("q2", TREES[:3])).tree
    c.show("query", q)

    def act(v, node, w):
        if node is target and w == when:
            if what == "own":
                raise Own()
            (v.validation_error if what == "error" else v.validation_warning)(node, "stop")
    kw = dict(raise_at_first_violation=c.bool("raise"), warnings_as_errors=True)
    v = V(**kw)
    how = c.choose("how", ["validate", "is_valid"])
    run(v, t, act, how=how)
    got = run(v, u)
    same_run(c, got, run(V(**kw), u))
    check_parents(c, got[1], u)


@case("C21", bounds="two aborted validations in a row, at any two nodes of 2 queries", weight=2)
def aborted2(c):
    V = watching(Validator)
    v = V(raise_at_first_violation=True)
    for i in range(2):
        t = parse(c.choose("q%d" % i, TREES[1:3])).tree
        nodes = preorder(t)
        target = nodes[c.choose("node%d" % i, list(range(len(nodes))))]

        def act(v, node, w):
            if node is target and w == "pre":
                v.validation_error(node, "stop")
        run(v, t, act)
    u = parse(TREES[2]).tree
    got = run(v, u)
    same_run(c, got, run(V(raise_at_first_violation=True), u))
    check_parents(c, got[1], u)


@case("C21", bounds="parent_node in every handler of queries of 1-3 segments with any structure, one range and within")
def parent_main(c):
    q = gen.main(c, "m", c.choose("n", [1, 2, 3])) + c.choose("w", ["", " within s"])
    c.show("query", q)
    t = parse(q).tree
    got = run(watching(Validator)(), t)
    c.check(len(got[1]) == 2 * len(preorder(t)), "not every node visited once")
    check_parents(c, got[1], t)


@case("C21", bounds="parent_node in every handler of segments of 1-3 comparisons with any boolean structure")
def parent_expr(c):
    q = "[" + gen.expr(c, "e", c.choose("n", [1, 2, 3])) + "]"
    c.show("query", q)
    t = parse(q).tree
    got = run(watching(Validator)(), t)
    c.check(len(got[1]) == 2 * len(preorder(t)), "not every node visited once")
    check_parents(c, got[1], t)


@case("C21", bounds="parent_node when only handlers of one or two kinds are overridden: any kinds, 5 queries")
def parent_some(c):
    t = parse(c.choose("q", TREES)).tree
    present = sorted({kind(x) for x in preorder(t)})
    names = {c.choose("k1", present), c.choose("k2", present)}
    got = run(watching(Validator, names)(), t)
    check_parents(c, got[1], t)


@case("C21", bounds="two validators of different configuration used in turn on 3 trees do not influence each other", weight=2)
def two(c):
    V = watching(FCSQLValidator)
    ka = dict(raise_at_first_violation=c.bool("ra"), warnings_as_errors=c.bool("wa"))
    kb = dict(raise_at_first_violation=c.bool("rb"), warnings_as_errors=c.bool("wb"), allowed_layer_identifiers=["foo"],
              allowed_layer_qualifiers=[("foo", ["a"])])
    a, b = V(**ka), V(**kb)
    for i in range(3):
        t = parse(c.choose("q%d" % i, TREES[1:4])).tree
        same_run(c, run(a, t), run(V(**ka), t))
        same_run(c, run(b, t), run(V(**kb), t))


@case("C21", bounds="a validator used in a handler of another one, at any node of 3 queries")
def nested(c):
    t = parse(c.choose("q", TREES[:3])).tree
    u = parse(TREES[1]).tree
    nodes = preorder(t)
    target = nodes[c.choose("node", list(range(len(nodes))))]
    V = watching(FCSQLValidator)
    inner = V(raise_at_first_violation=c.bool("ri"))

    def act(v, node, w):
        if node is target:
            run(inner, u)
    kw = dict(raise_at_first_violation=False)
    got = run(V(**kw), t, act)
    same_run(c, got, run(V(**kw), t))
    check_parents(c, got[1], t)


@case("C21", bounds="the configured lists are not changed by validating: arbitrary identifiers and qualifiers")
def config_kept(c):
    ids = [c.chars("i%d" % i, 1) for i in range(2)]
    quals = [(c.char("L"), None), (c.char("M"), [c.char("Q")])]
    before = (list(ids), [(a, b if b is None else list(b)) for a, b in quals])
    v = FCSQLValidator(allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals, raise_at_first_violation=False)
    v.validate(expr(c.char("l"), c.char("q"), c.char("r")))
    c.check(c.eq(ids, before[0]), "allowed_layer_identifiers changed")
    c.check(len(quals) == 2 and c.eq(quals[0][0], before[1][0][0]) and quals[0][1] is None and c.eq(quals[1][0], before[1][1][0])
            and c.eq(quals[1][1], before[1][1][1]), "allowed_layer_qualifiers changed")


@case("C21", bounds="histories of 4 validations of any of 4 trees", tier="thorough", weight=4)
def histories4(c):
    V = watching(FCSQLValidator)
    kw = cfg(c)
    v = V(**kw)
    for i in range(4):
        t = parse(c.choose("q%d" % i, TREES[:4])).tree
        got = run(v, t)
        same_run(c, got, run(V(**kw), t))
        check_parents(c, got[1], t)


HIST = [1, 2, 3, 4, 5, 6, 8, 9, 11, 17, 33, 65, 101, 129, 257]
TEXT = "The quick brown fox jumps over the lazy dog. " * 10


@case("C21", bounds="a tree of %s expressions with errors, warnings or both, and one of 1, 3 or 65, in either order, with one validator; "
                    "locations and query text (1-450 characters) given or not" % HIST, weight=2)
def sizes(c):
    V = watching(FCSQLValidator)
    kw = dict(raise_at_first_violation=c.bool("raise"), warnings_as_errors=c.bool("wae"))
    a = wide_tree(c.choose("n", HIST), c.choose("mode", ["errors", "warnings", "mixed"]), "sequence", c.bool("locations"))
    b = wide_tree(c.choose("m", [1, 3, 65]), c.choose("mode2", ["mixed", "last"]), "and", True, at=c.choose("at", [0, 100]))
    ta, tb = c.choose("texts", [(None, None), (TEXT[:20], TEXT), (TEXT, TEXT[:20]), (TEXT, None), (None, TEXT)])
    seq = [(a, ta), (b, tb)] if c.bool("order") else [(b, tb), (a, ta)]
    v = V(**kw)
    last = None
    for t, text in seq:
        last = text if text is not None else last
        given = {} if text is None else {"query": text}
        # no text given: the one given last stays in force
        same_run(c, run(v, t, **given), run(V(query=last, **kw), t))


@case("C21", bounds="3-40 validations in a row with one validator, then one more", weight=1)
def many(c):
    V = watching(FCSQLValidator)
    kw = dict(raise_at_first_violation=c.bool("raise"), warnings_as_errors=c.bool("wae"))
    v = V(**kw)
    for i in range(c.choose("n", [3, 5, 9, 17, 40])):
        run(v, parse(TREES[i % len(TREES)]).tree)
    t = parse(c.choose("q", TREES)).tree
    got = run(v, t)
    same_run(c, got, run(V(**kw), t))
    check_parents(c, got[1], t)


@case("C21", bounds=anytree.BOUNDS % "1-2" + "; parent_node in every handler, then again", weight=2)
def free(c):
    t, _ = anytree.chain(c, [1, 2])
    V = watching(FCSQLValidator)
    kw = dict(raise_at_first_violation=False)
    v = V(**kw)
    s = snap(t)
    got = run(v, t)
    c.check(unchanged(c, t, s), "validating changes the tree")
    c.check(len(got[1]) == 2 * len(preorder(t)), "not every node visited once")
    check_parents(c, got[1], t)
    same_run(c, run(v, t), got)


def used_before(c, q):
    """A validator that was used on another tree (by a raising validation, or a collecting one), then on that of q."""
    o = parse(q)
    c.assume(o.ok)
    c.show("query", q)
    V = watching(FCSQLValidator)
    kw = dict(raise_at_first_violation=c.bool("raise"), allowed_layer_qualifiers=[("pos", ["q"]), ("word", None)])
    v = V(**kw)
    run(v, parse(TREES[1]).tree)
    s = snap(o.tree)
    got = run(v, o.tree)
    c.check(unchanged(c, o.tree, s), "validating changes the tree")
    check_parents(c, got[1], o.tree)
    same_run(c, got, run(V(**kw), o.tree))


@case("C21", bounds=gen.varied_bounds() + "; after one of another tree", weight=2)
def varied(c):
    used_before(c, gen.varied(c))


@case("C21", bounds=gen.varied_bounds(triples=True) + "; after one of another tree", weight=4, tier="thorough")
def varied3(c):
    used_before(c, gen.varied(c, triples=True))
