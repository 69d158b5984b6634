import fcsql.parser as fp
from fcsql.parser import QueryVisitor, QueryVisitorAdapter

from sx.ctx import case
from cases.common import parse, kind, preorder
from cases import anytree, big, gen

KINDS = ["Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr", "QuerySegment",
         "QueryGroup", "QuerySequence", "QueryDisjunction", "QueryWithWithin", "SimpleWithin"]


def preorder_pruned(n, stop):
    out = [n]
    if kind(n) in stop:
        return out
    for x in n.children:
        out.extend(preorder_pruned(x, stop))
    return out


def mk_handler(name, log, descend):
    def h(self, node):
        log.append((name, node))
        if descend:
            return getattr(super(self.__class__, self), name)(node)
        return ("r", node)
    return h


class Tracer(QueryVisitorAdapter):
    """No handler overridden; records what the defaults visit."""

    def __init__(self):
        super().__init__()
        self.log = []

    def visitChildren(self, node):
        self.log.append(node)
        return super().visitChildren(node)


def same_nodes(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check(c, t):
    nodes = preorder(t)
    # default handlers: everything once, preorder
    v = Tracer()
    v.visit(t)
    c.check(same_nodes(v.log, nodes), "the default handlers do not visit every node once in order")
    v = Tracer()
    t.accept(v)
    c.check(same_nodes(v.log, nodes), "accept does not visit every node once in order")
    # every handler overridden, descending
    log = []
    cls = type("All", (QueryVisitorAdapter,), {"visit_" + k: mk_handler("visit_" + k, log, True) for k in KINDS})
    cls().visit(t)
    c.check(same_nodes([x for _, x in log], nodes), "overridden handlers: not every node once in order")
    for name, x in log:
        c.check(name == "visit_" + kind(x), "a %s was handled by %s" % (kind(x), name))


def subset(c, t):
    """Handlers of one or two kinds overridden, descending or pruning."""
    present = sorted({kind(x) for x in preorder(t)})
    k1 = c.choose("k1", present)
    d1 = c.bool("d1")
    ov = {k1: d1}
    if c.bool("two") and len(present) > 1:
        k2 = c.choose("k2", [x for x in present if x != k1])
        ov[k2] = c.bool("d2")
    log = []
    cls = type("Some", (QueryVisitorAdapter,), {"visit_" + k: mk_handler("visit_" + k, log, d) for k, d in ov.items()})
    cls().visit(t)
    stop = {k for k, d in ov.items() if not d}
    want = [x for x in preorder_pruned(t, stop) if kind(x) in ov]
    c.check(same_nodes([x for _, x in log], want), "handlers reached differ from the pruned tree")
    for name, x in log:
        c.check(name == "visit_" + kind(x), "a %s was handled by %s" % (kind(x), name))
    # the remaining nodes are visited by the defaults
    log2 = []

    def vc(self, node):
        log2.append(node)
        return QueryVisitorAdapter.visitChildren(self, node)
    d = {"visit_" + k: mk_handler("visit_" + k, [], dd) for k, dd in ov.items()}
    d["visitChildren"] = vc
    type("Some2", (QueryVisitorAdapter,), d)().visit(t)
    want = [x for x in preorder_pruned(t, stop) if kind(x) not in stop]
    c.check(same_nodes(log2, want), "nodes descended into")


def tree(c, q):
    c.show("query", q)
    o = parse(q, enableSourceLocations=False)
    return o.tree if o.ok else None


@case("C15", bounds="1-3 segments, any juxtaposition and |, one parenthesised range, with or without within", weight=2)
def queries(c):
    q = gen.main(c, "m", c.choose("n", [1, 2, 3]))
    t = tree(c, q + c.choose("w", ["", " within s"]))
    if t is not None:
        check(c, t)


@case("C15", bounds="segments of 1-3 comparisons with any &, |, ! and one parenthesised range", weight=2)
def exprs(c):
    t = tree(c, "[" + gen.expr(c, "e", c.choose("n", [1, 2, 3])) + "]" + c.choose("r", ["", ' []']))
    if t is not None:
        check(c, t)


@case("C15", bounds="12 seed queries with one position replaced by, or one character inserted as, an arbitrary character", weight=3)
def holes(c):
    t = tree(c, gen.holes(c))
    if t is not None:
        check(c, t)


RICH = gen.SEEDS + ['([!(a="1" & b="2") | c="3"] []* | ("x"){2} "y") within p', '[a="b" & !(c="d" | !e="f")] | []']


@case("C15", bounds="14 queries that hold every node kind; every one or two kinds of handlers overridden, each descending or pruning",
      weight=3)
def overriding(c):
    t = tree(c, c.choose("q", RICH))
    subset(c, t)


class Agg(QueryVisitorAdapter):
    def __init__(self, limit, default):
        super().__init__()
        self.limit = limit
        self.default = default
        self.asked = []

    def defaultResult(self):
        return [self.default]

    def aggregateResult(self, aggregate, nextResult):
        return aggregate + [nextResult]

    def shouldVisitNextChild(self, node, currentResult):
        self.asked.append((node, list(currentResult)))
        return self.limit is None or len(currentResult) <= self.limit


def fold(n, limit, default):
    out = [default]
    for x in n.children:
        if limit is not None and not len(out) <= limit:
            break
        out = out + [fold(x, limit, default)]
    return out


def asked(n, limit, default, out):
    """Questions to shouldVisitNextChild in order; returns the result list of n."""
    res = [default]
    for x in n.children:
        out.append((n, list(res)))
        if limit is not None and not len(res) <= limit:
            break
        res = res + [asked(x, limit, default, out)]
    return res


@case("C15", bounds="folding: results collected over trees of 14 queries, shouldVisitNextChild stopping after any 0-5 children or "
                    "never, default result an arbitrary integer", weight=2)
def folding(c):
    t = tree(c, c.choose("q", RICH + ['"a" "b" "c" "d" "e" "f"', '[a="1"|b="2"|c="3"|d="4"]']))
    limit = c.int("limit", -1, 7)
    default = c.int("default", -10 ** 9, 10 ** 9)
    v = Agg(limit, default)
    got = v.visit(t)
    out = []
    want = asked(t, limit, default, out)
    c.check(got == want, "folded result")
    c.check(len(v.asked) == len(out) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(v.asked, out)),
            "questions to shouldVisitNextChild")


WIDE = ['"a" "b" "c" "d" "e" "f" "g" "h" "i" "j"', '"a"|"b"|"c"|"d"|"e"|"f"|"g"|"h"|"i"|"j"|"k"|"l"',
        '[a="1"|b="2"|c="3"|d="4"|e="5"|f="6"|g="7"|h="8"|i="9"]', '[a="1"&b="2"&c="3"&d="4"&e="5"&f="6"&g="7"&h="8"&i="9"&!j="0"]',
        " ".join('"a"' for _ in range(40)), "(" * 12 + '"a" "b"' + ")" * 12, "[" + "(" * 12 + '!a="1"' + ")" * 12 + "]"]


@case("C15", bounds="wide and deep trees: 10-40 parts, 9-10 operands, 12 nested groups: every node once, in order, and folding", weight=2)
def wide(c):
    t = tree(c, c.choose("q", WIDE))
    check(c, t)
    if c.bool("pruned"):
        subset(c, t)
    v = Agg(None, 0)
    c.check(v.visit(t) == fold(t, None, 0), "folded result")


RESULTS = [None, 0, False, "", [], 7]


@case("C15", bounds="folding of empty results: 14 queries and wide ones, the handler of any one node kind returns None, 0, False, '', [] "
                    "or 7, the default result is None, 0 or ()", weight=2)
def folding_empty(c):
    t = tree(c, c.choose("q", RICH + WIDE[:4]))
    k = c.choose("k", sorted({kind(x) for x in preorder(t)}))
    val = c.choose("val", RESULTS)
    default = c.choose("default", [None, 0, ()])
    calls = []

    class V(QueryVisitorAdapter):
        def defaultResult(self):
            return default

        def aggregateResult(self, aggregate, nextResult):
            calls.append((aggregate, nextResult))
            return (aggregate, nextResult)
    cls = type("W", (V,), {"visit_" + k: lambda self, node: val})
    got = cls().visit(t)
    want_calls = []

    def walk(n):
        if kind(n) == k:
            return val
        res = default
        for x in n.children:
            nxt = walk(x)
            want_calls.append((res, nxt))
            res = (res, nxt)
        return res
    want = walk(t)
    c.check(got == want and type(got) is type(want), "folded result")
    c.check(calls == want_calls, "results handed to aggregateResult")


@case("C15", bounds="the result of visit is the handler's: any node of 14 queries as start, arbitrary integer results; None for no node; "
                    "with plain QueryVisitor the default folding returns the last child's result")
def results(c):
    val = c.int("val", -5, 5)
    t = tree(c, c.choose("k", RICH))
    ns = preorder(t)
    t = ns[c.choose("node", list(range(len(ns))))]
    cls = type("V", (QueryVisitorAdapter,), {"visit_" + kind(t): lambda self, node: (node, val)})
    r = cls().visit(t)
    c.check(r is not None and r[0] is t and c.eq(r[1], val), "the handler's result is not returned")
    r = t.accept(cls())
    c.check(r is not None and r[0] is t and c.eq(r[1], val), "accept does not return the handler's result")
    c.check(cls().visit(None) is None, "visiting no node")
    leaf = type("L", (QueryVisitorAdapter,), {"visit_" + x: lambda self, node: node for x in ("Expression", "SimpleWithin",
                                                                                             "ExpressionWildcard")})
    last = t
    while last.children:
        last = last.children[-1]
    c.check(leaf().visit(t) is last, "default aggregation does not give the last child's result")


@case("C15", bounds="a hook that stops at one node only: each node of 14 queries in turn")
def stop_at(c):
    t = tree(c, c.choose("q", RICH))
    nodes = preorder(t)
    k = c.choose("k", list(range(len(nodes))))
    target = nodes[k]
    log = []

    class V(QueryVisitorAdapter):
        def shouldVisitNextChild(self, node, currentResult):
            return node is not target

        def visitChildren(self, node):
            log.append(node)
            return super().visitChildren(node)
    V().visit(t)

    def walk(n):
        out = [n]
        if n is not target:
            for x in n.children:
                out.extend(walk(x))
        return out
    c.check(same_nodes(log, walk(t)), "stopping at one node")


@case("C15", bounds="visiting twice, and two visitors in turn, gives the same visits")
def twice(c):
    t = tree(c, c.choose("q", RICH))
    v = Tracer()
    v.visit(t)
    n = len(v.log)
    v.visit(t)
    c.check(same_nodes(v.log[:n], preorder(t)) and same_nodes(v.log[n:], preorder(t)), "second visit")


@case("C15", bounds="segments of 4 comparisons with any &, |, ! and one parenthesised range", tier="thorough", weight=2)
def exprs4(c):
    t = tree(c, "[" + gen.expr(c, "e", 4) + "]")
    if t is not None:
        check(c, t)


@case("C15", bounds="any three kinds of handlers overridden", tier="thorough", weight=2)
def overriding3(c):
    t = tree(c, c.choose("q", RICH))
    present = sorted({kind(x) for x in preorder(t)})
    ov = {}
    for i in range(3):
        ov[c.choose("k%d" % i, present)] = c.bool("d%d" % i)
    log = []
    cls = type("Some", (QueryVisitorAdapter,), {"visit_" + k: mk_handler("visit_" + k, log, d) for k, d in ov.items()})
    cls().visit(t)
    want = [x for x in preorder_pruned(t, {k for k, d in ov.items() if not d}) if kind(x) in ov]
    c.check(same_nodes([x for _, x in log], want), "handlers reached")


@case("C15", bounds="built nodes of the four n-ary kinds with 1-6 children, any two of them of any kinds, the rest comparisons", weight=2)
def mixtures(c):
    def node(k):
        e = fp.Expression(None, "a", fp.Operator.EQUALS, "b", None)
        if k in ("Expression",):
            return e
        if k == "ExpressionWildcard":
            return fp.ExpressionWildcard()
        if k == "SimpleWithin":
            return fp.SimpleWithin(fp.SimpleWithinScope.TURN)
        if k in ("QuerySegment", "QueryGroup"):
            return getattr(fp, k)(e, 1, 2)
        if k == "QueryWithWithin":
            return fp.QueryWithWithin(e, None)
        if k in ("ExpressionGroup", "ExpressionNot"):
            return getattr(fp, k)(e)
        return getattr(fp, k)([e])
    n = c.choose("n", [1, 2, 3, 4, 5, 6])
    i, j = c.choose("i", list(range(n))), c.choose("j", list(range(n)))
    kids = ["Expression"] * n
    kids[i] = c.choose("ki", KINDS)
    if j > i:
        kids[j] = c.choose("kj", KINDS)
    c.show("children", kids)
    check(c, getattr(fp, c.choose("k", ["ExpressionAnd", "ExpressionOr", "QuerySequence", "QueryDisjunction"]))([node(x) for x in kids]))


@case("C15", bounds=big.bounds(long=[]), weight=2)
def sizes(c):
    t = tree(c, big.query(c, long=[]))
    if t is not None:
        check(c, t)


@case("C15", bounds="wide queries of 17 or 65 parts; every one or two kinds of handlers overridden, each descending or pruning",
      weight=2)
def sizes_overriding(c):
    n = c.choose("n", [17, 65])
    t = tree(c, c.choose("k", ['"a" ' * n, '"a"' + '|"b"' * n, '[a="b"' + '&c="d"' * n + ']', '[a="b"' + '|c="d"' * n + ']',
                               '("a"' + '|"b"' * n + ') "c" within s']))
    subset(c, t)


@case("C15", bounds=anytree.BOUNDS % "1-3", weight=2)
def free(c):
    t, _ = anytree.chain(c, [1, 2, 3])
    check(c, t)


@case("C15", bounds=anytree.BOUNDS % "1-2" + "; every one or two kinds of handlers overridden, each descending or pruning", weight=2)
def free_overriding(c):
    t, _ = anytree.chain(c, [1, 2], sibs=["none", "both"])
    subset(c, t)


@case("C15", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    t = tree(c, gen.varied(c))
    if t is not None:
        check(c, t)


@case("C15", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    t = tree(c, gen.varied(c, triples=True))
    if t is not None:
        check(c, t)
