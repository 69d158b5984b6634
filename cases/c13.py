from fcsql.parser import (Expression, ExpressionAnd, ExpressionGroup, ExpressionNot, ExpressionOr, ExpressionWildcard,
                          Operator, QueryDisjunction, QueryGroup, QueryNode, QueryNodeType, QuerySegment, QuerySequence,
                          QueryWithWithin, SimpleWithin, SimpleWithinScope)

from sx.ctx import case
from cases.common import parse, kind, preorder
from cases import anytree, gen

BIG = 2 ** 62


class Mine(Expression):
    """A user's own expression class."""


class Plain(QueryNode):
    def __init__(self, children=None):
        super().__init__(QueryNodeType.QUERY_SEQUENCE, children=children)


def mk(k):
    e = Expression(None, "text", Operator.EQUALS, "x", None)
    if k == "e":
        return e
    if k == "m":
        return Mine(None, "text", Operator.EQUALS, "y", None)
    if k == "s":
        return QuerySegment(e, 1, 1)
    if k == "g":
        return QueryGroup(QuerySegment(e, 1, 1), 1, 1)
    if k == "w":
        return SimpleWithin(SimpleWithinScope.TEXT)
    return ExpressionWildcard()


CLASSES = [None, Expression, Mine, QuerySegment, QueryGroup, QueryNode, SimpleWithin]


def of(n, cls):
    return [x for x in n.children if cls is None or isinstance(x, cls)]


def expect(l, i):
    return l[i] if 0 <= i < len(l) else None


def accessors(c, n, i, classes):
    for cls in classes:
        l = of(n, cls)
        got = []
        try:
            got = [n.get_child(i, cls) if cls is not None else n.get_child(i), n.get_first_child(cls), n.get_last_child(cls)]
        except Exception as ex:
            c.check(False, "an accessor raised " + type(ex).__name__)
            continue
        c.check(got[0] is expect(l, i), "get_child")
        c.check(got[1] is (l[0] if l else None), "get_first_child")
        c.check(got[2] is (l[-1] if l else None), "get_last_child")


@case("C13", bounds="nodes with 0-3 children, each of any of 5 kinds (a user subclass included); every class argument of 7; every "
                    "integer index from -2^62 to 2^62", weight=3)
def indexes(c):
    n = c.choose("n", [0, 1, 2, 3])
    ks = [c.choose("k%d" % i, ["e", "m", "s", "g", "w"] if n < 3 else ["e", "m", "s"]) for i in range(n)]
    cls = c.choose("cls", CLASSES)
    c.show("children", "".join(ks))
    i = c.int("i", -BIG, BIG)
    node = Plain([mk(k) for k in ks])
    accessors(c, node, i, [cls])


@case("C13", bounds="nodes with 4-40 children with the class pattern periodic (period 1-3), every index", weight=2)
def many(c):
    n = c.choose("n", [4, 5, 8, 16, 40])
    pat = c.choose("p", ["e", "s", "em", "se", "sm", "gse", "eeg"])
    node = Plain([mk(pat[j % len(pat)]) for j in range(n)])
    accessors(c, node, c.int("i", -BIG, BIG), [c.choose("cls", CLASSES)])


@case("C13", bounds="every concrete node type, every index, every class: keyword and positional class argument")
def node_types(c):
    e, f = mk("e"), mk("m")
    s, t = mk("s"), mk("g")
    node = c.choose("t", [lambda: e, lambda: ExpressionNot(e), lambda: ExpressionGroup(e), lambda: ExpressionAnd([e, f]),
                          lambda: ExpressionOr([e, f, mk("e")]), lambda: ExpressionWildcard(), lambda: QuerySegment(e, 1, 1),
                          lambda: QueryGroup(s, 1, 1), lambda: QuerySequence([s, t]), lambda: QueryDisjunction([s, t, mk("s")]),
                          lambda: QueryWithWithin(s, mk("w")), lambda: QueryWithWithin(s, None), lambda: mk("w"),
                          lambda: ExpressionWildcard(children=[e], child=f)])()
    i = c.int("i", -BIG, BIG)
    cls = c.choose("cls", CLASSES)
    accessors(c, node, i, [cls])
    c.check(node.get_child(i, clazz=cls) is expect(of(node, cls), i), "get_child by keyword")
    c.check(node.get_first_child(clazz=cls) is expect(of(node, cls), 0), "get_first_child by keyword")
    l = of(node, cls)
    c.check(node.get_last_child(clazz=cls) is (l[-1] if l else None), "get_last_child by keyword")
    c.check(node.child_count == len(node.children), "child_count")


@case("C13", bounds="the named accessors of every node type")
def named(c):
    e, f, s, w = mk("e"), mk("m"), mk("s"), mk("w")
    c.check(QueryWithWithin(s, w).get_query() is s, "get_query")
    c.check(QueryWithWithin(s, w).get_within() is w, "get_within")
    c.check(QueryWithWithin(s, None).get_query() is s, "get_query without within")
    c.check(QueryWithWithin(s, None).get_within() is None, "get_within without within")
    c.check(QuerySegment(e, 0, 2).get_expression() is e, "get_expression")
    c.check(QueryGroup(s, 0, 2).get_content() is s, "get_content")
    n = c.choose("n", [0, 1, 2, 3, 4])
    ch = [mk("e") for _ in range(n)]
    for cls in (ExpressionAnd, ExpressionOr):
        ops = cls(ch).operands
        c.check(len(ops) == n and all(a is b for a, b in zip(ops, ch)), "operands")


@case("C13", bounds="every node of the tree of each of 12 seed queries, every index and class", weight=2)
def parsed(c):
    q = c.choose("s", gen.SEEDS)
    t = parse(q).tree
    ns = preorder(t)
    k = c.choose("node", list(range(len(ns))))
    c.show("query", q)
    accessors(c, ns[k], c.int("i", -BIG, BIG), [c.choose("cls", CLASSES)])


@case("C13", bounds="children changed after construction (appended, removed, replaced), the accessors used before the change or not: "
                    "accessors follow; every index")
def mutated(c):
    node = Plain([mk("e"), mk("s")])
    if c.bool("before"):
        for cls in CLASSES:
            for i in (-1, 0, 1, 2):
                node.get_child(i, cls)
            node.get_first_child(cls)
            node.get_last_child(cls)
        c.check(node.child_count == 2, "child_count")
    k = c.choose("k", ["append", "pop", "clear", "replace", "swap", "none"])
    if k == "swap":
        node.children.reverse()
    if k == "append":
        node.children.append(mk("m"))
    elif k == "pop":
        node.children.pop()
    elif k == "clear":
        node.children.clear()
    elif k == "replace":
        node.children[0] = mk("g")
    accessors(c, node, c.int("i", -BIG, BIG), [c.choose("cls", CLASSES)])
    c.check(node.child_count == len(node.children), "child_count")


@case("C13", bounds=anytree.BOUNDS % "1-2" + "; every index", weight=2)
def free(c):
    t, _ = anytree.chain(c, [1, 2])
    i = c.int("i", -BIG, BIG)
    for n in preorder(t):
        accessors(c, n, i, [None, Expression, ExpressionWildcard, QuerySegment, SimpleWithin, QueryWithWithin])
