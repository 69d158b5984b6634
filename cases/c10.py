import fcsql.parser as fp
from fcsql.parser import (Expression, ExpressionAnd, ExpressionGroup, ExpressionNot, ExpressionOr, ExpressionWildcard,
                          Operator, QueryDisjunction, QueryGroup, QueryNode, QuerySegment, QuerySequence, QueryWithWithin,
                          RegexFlag, SimpleWithin, SimpleWithinScope)

from sx.ctx import case
from cases.common import parse, kind, preorder, under_setups, SETUP_BOUNDS
from cases import anytree, big, gen

QUERY = {"QuerySegment", "QueryGroup", "QuerySequence", "QueryDisjunction"}
EXPR = {"Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr"}
SEXPR = EXPR - {"ExpressionWildcard"}
RULES = {
    "Expression": (0, 0, set()), "ExpressionWildcard": (0, 0, set()), "SimpleWithin": (0, 0, set()),
    "ExpressionGroup": (1, 1, SEXPR), "ExpressionNot": (1, 1, SEXPR), "ExpressionAnd": (2, None, SEXPR),
    "ExpressionOr": (2, None, SEXPR), "QuerySegment": (1, 1, EXPR), "QueryGroup": (1, 1, QUERY),
    "QuerySequence": (1, None, {"QuerySegment", "QueryGroup"}), "QueryDisjunction": (2, None, QUERY - {"QueryDisjunction"}),
    "QueryWithWithin": (2, 2, QUERY | {"SimpleWithin"}),
}


def linked(c, t):
    c.check(t.parent is None, "the root has a parent")
    seen = set()
    stack = [t]
    n_nodes = 0
    while stack and n_nodes < 2000:
        n = stack.pop()
        n_nodes += 1
        c.check(id(n) not in seen, "a node appears twice")
        seen.add(id(n))
        k = kind(n)
        c.check(k in RULES, "unknown node kind")
        lo, hi, kinds = RULES[k]
        c.check(lo <= len(n.children) and (hi is None or len(n.children) <= hi), "number of children of " + k)
        c.check(n.child_count == len(n.children), "child_count")
        for i, x in enumerate(n.children):
            c.check(isinstance(x, QueryNode), "a child is no node")
            c.check(x.parent is n, "a child's parent is another node: " + kind(x) + " in " + k)
            c.check(kind(x) in kinds, "kind of child: " + kind(x) + " in " + k)
            if k == "QueryWithWithin":
                c.check((kind(x) == "SimpleWithin") == (i == 1), "within part in the wrong place")
            stack.append(x)
    c.check(n_nodes < 2000, "cyclic tree")


def check(c, q, **kw):
    c.show("query", q)
    o = parse(q, **kw)
    if o.ok:
        linked(c, o.tree)
    return o


@case("C10", bounds="every string of 0-3 characters", weight=3)
def any3(c):
    check(c, c.chars("x", c.choose("n", [1, 2, 3])))


@case("C10", bounds="12 seed queries with one position replaced by, or one character inserted as, an arbitrary character", weight=3)
def holes(c):
    check(c, gen.holes(c))


@case("C10", bounds="1-3 segments, any juxtaposition and |, one parenthesised range, with or without quantifiers and within; "
                    "locations on or off", weight=2)
def queries(c):
    q = gen.main(c, "m", c.choose("n", [1, 2, 3]), quants=["", "{2}"])
    check(c, q + c.choose("w", ["", " within p"]), enableSourceLocations=c.bool("loc"))


@case("C10", bounds="segments of 1-3 comparisons, any & and |, any !, one parenthesised range", weight=2)
def exprs(c):
    check(c, "[" + gen.expr(c, "e", c.choose("n", [1, 2, 3])) + "]")


@case("C10", bounds="4-8 equal or differing parts: segments in a sequence or disjunction, comparisons under & or |")
def wide(c):
    n = c.choose("n", [4, 5, 6, 8])
    eq = c.bool("same")
    if c.bool("expr"):
        q = "[" + c.choose("op", ["&", "|"]).join(['a="b"' if eq else 'a="%d"' % i for i in range(n)]) + "]"
    else:
        q = c.choose("sep", [" ", "|"]).join(['"a"' if eq else '"%d"' % i for i in range(n)])
    check(c, q)


@case("C10", bounds="trees of two parses of the same seed query share no node; an earlier tree stays well linked")
def two_parses(c):
    s = c.choose("seed", gen.SEEDS)
    s2 = c.choose("seed2", gen.SEEDS)
    p = fp.QueryParser()
    a = p.parse(s)
    b = (p if c.bool("samep") else fp.QueryParser()).parse(s2)
    linked(c, a)
    linked(c, b)
    ids = {id(x) for x in preorder(a)}
    c.check(not any(id(x) in ids for x in preorder(b)), "two trees share a node")


def leaf(c, name):
    return Expression(None, "text", Operator.EQUALS, c.char(name), None)


class Sub(QueryNode):
    def __init__(self, **kw):
        super().__init__(fp.QueryNodeType.QUERY_SEQUENCE, **kw)


class Empty(QueryNode):
    """A node type of a user that is falsy."""

    def __init__(self):
        super().__init__(fp.QueryNodeType.EXPRESSION)


MANY = {"And": ExpressionAnd, "Or": ExpressionOr, "Seq": QuerySequence, "Dis": QueryDisjunction}


def built(c, n, want):
    c.check(len(n.children) == len(want) and all(a is b for a, b in zip(n.children, want)), "children differ from the given ones")
    c.check(all(x.parent is n for x in want), "parent of a given child is not set")
    c.check(n.child_count == len(want), "child_count")
    c.check(n.parent is None, "a new node has a parent")


@case("C10", bounds="constructing and, or, sequence, disjunction nodes from 0-5 children, given as list")
def construct_many(c):
    k = c.choose("k", sorted(MANY))
    ch = [leaf(c, "v%d" % i) for i in range(c.choose("n", [0, 1, 2, 3, 4, 5]))]
    lst = list(ch)
    n = MANY[k](lst)
    built(c, n, ch)
    c.check(lst == ch, "the given list was changed")
    # a node built from the same list is a node of its own
    m = MANY[c.choose("k2", sorted(MANY))](lst)
    built(c, m, ch)
    m.children.append(leaf(c, "extra"))
    c.check(len(n.children) == len(ch), "two nodes share their list of children")
    c.check(len(lst) == len(ch), "a node shares the given list")


@case("C10", bounds="constructing not, group, segment, query group, wildcard, with-within nodes, all occurrences -1..10^6")
def construct_one(c):
    k = c.choose("k", ["Not", "Group", "Seg", "QGroup", "Wild", "WildN", "Within", "WithinNone"])
    a, b = leaf(c, "a"), leaf(c, "b")
    lo, hi = c.int("lo", 0, 10 ** 6), c.int("hi", -1, 10 ** 6)
    if k == "Not":
        n, want = ExpressionNot(a), [a]
    elif k == "Group":
        n, want = ExpressionGroup(a), [a]
    elif k == "Seg":
        n, want = QuerySegment(a, lo, hi), [a]
        c.check(c.eq(n.min_occurs, lo) and c.eq(n.max_occurs, hi), "occurrences")
    elif k == "QGroup":
        n, want = QueryGroup(a, lo, hi), [a]
        c.check(c.eq(n.min_occurs, lo) and c.eq(n.max_occurs, hi), "occurrences")
    elif k == "Wild":
        n, want = ExpressionWildcard(), []
    elif k == "WildN":
        n, want = ExpressionWildcard(children=[a], child=b), [a, b]
    elif k == "Within":
        w = SimpleWithin(c.choose("scope", list(SimpleWithinScope)))
        n, want = QueryWithWithin(a, w), [a, w]
    else:
        n, want = QueryWithWithin(a, None), [a]
    built(c, n, want)


@case("C10", bounds="constructing a user-defined node from 0-3 listed children and optionally a single child and a location")
def construct_base(c):
    ch = [leaf(c, "v%d" % i) for i in range(c.choose("n", [0, 1, 2, 3]))]
    one = leaf(c, "one") if c.bool("one") else None
    kw = {}
    if c.bool("haslist"):
        kw["children"] = list(ch)
    else:
        ch = []
    if one is not None:
        kw["child"] = one
    n = Sub(**kw)
    built(c, n, ch + ([one] if one is not None else []))


@case("C10", bounds="constructing expression nodes: qualifier of 0-2 arbitrary characters or None, identifier of 0-2, every "
                    "flag set or None: fields are the given ones, an empty or blank qualifier and an empty flag set are None")
def construct_expression(c):
    q = c.chars("q", c.choose("nq", [0, 1, 2])) if c.bool("hasq") else None
    i = c.chars("i", c.choose("ni", [0, 1, 2]))
    op = c.choose("op", list(Operator))
    fl = {f for f in RegexFlag if c.bool("f" + f.char)} if c.bool("hasf") else None
    rx = c.chars("r", c.choose("nr", [0, 1]))
    given = None if fl is None else set(fl)
    n = Expression(q, i, op, rx, given)
    blank = q is None or q == "" or q.isspace()
    c.check((n.qualifier is None) == blank, "qualifier None exactly when absent or blank")
    if not blank and n.qualifier is not None:
        c.check(c.eq(n.qualifier, q), "qualifier")
    c.check(c.eq(n.identifier, i), "identifier")
    c.check(n.operator == op, "operator")
    c.check(c.eq(n.regex, rx), "regex")
    c.check((n.regex_flags is None) if not fl else n.regex_flags == fl, "flags")
    if given:
        given.clear()
        c.check(n.regex_flags == fl, "the node shares the given flag set")
    built(c, n, [])


@case("C10", bounds="6 seed queries with two adjacent characters replaced by two arbitrary ones", tier="thorough", weight=3)
def holes2(c):
    check(c, gen.holes2(c))


@case("C10", bounds="15 query templates with one arbitrary character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q), gen.ANY)


@case("C10", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c), enableSourceLocations=c.bool("locations"))


@case("C10", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"), enableSourceLocations=c.bool("locations"))


@case("C10", bounds=anytree.BOUNDS % "1-3", weight=2)
def free(c):
    t, made = anytree.chain(c, [1, 2, 3])
    for k, n, x in made:
        c.check(any(y is x for y in n.children), "the given child is no child of the new " + k)
        c.check(n.child_count == len(n.children), "child_count")
        for y in n.children:
            c.check(y.parent is n, "parent of a child of the new " + k)
    c.check(t.parent is None, "the root has a parent")


@case("C10", bounds="12 seed queries parsed, all references but one to any node dropped: the whole tree is still there, from that node", weight=2)
def only_one_kept(c):
    import gc
    q = c.choose("q", gen.SEEDS)
    c.show("query", q)
    o = parse(q, enableSourceLocations=c.bool("loc"))
    c.check(o.ok, "a seed query is refused")
    nodes = preorder(o.tree)
    n = nodes[c.choose("node", list(range(len(nodes))))]
    text, count, depth = str(o.tree), len(nodes), 0
    o = nodes = None
    gc.collect(0)
    while n.parent is not None and depth < 100:
        c.check(any(x is n for x in n.parent.children), "not among its parent's children")
        n = n.parent
        depth += 1
    c.check(len(preorder(n)) == count and str(n) == text, "the tree is not all there")


@case("C10", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c), enableSourceLocations=c.bool("locations"))


@case("C10", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True), enableSourceLocations=c.bool("locations"))
