import fcsql
from antlr4 import ParserRuleContext, ParseTreeWalker, Token
from antlr4.tree.Tree import TerminalNode
from fcsql.FCSParser import FCSParser
from fcsql.FCSParserListener import FCSParserListener
from fcsql.FCSParserVisitor import FCSParserVisitor

from sx.ctx import case
from cases import big, gen

# The rules of the grammar, from FCSParser.g4
RULES = ["query", "main_query", "query_disjunction", "query_sequence", "query_group", "query_simple", "quantifier", "query_implicit",
         "query_segment", "within_part", "within_part_simple", "expression", "expression_or", "expression_and", "expression_group",
         "expression_not", "expression_basic", "attribute", "qualifier", "identifier", "regexp", "regexp_pattern", "regexp_flag"]


def rule_of(ctx):
    """Name of the rule of a node, from its class."""
    n = type(ctx).__name__
    return n[0].lower() + n[1:-len("Context")]


def cap(r):
    return r[0].upper() + r[1:]


def kids(ctx):
    return [ctx.getChild(i) for i in range(ctx.getChildCount())]


def ctxs(t):
    out = [t]
    for x in kids(t):
        if isinstance(x, ParserRuleContext):
            out.extend(ctxs(x))
    return out


def expected(t, out):
    """Events of a walk: ('enter'|'exit', node) and ('leaf', node) in order."""
    if isinstance(t, TerminalNode):
        out.append(("leaf", t))
        return out
    out.append(("enter", t))
    for x in kids(t):
        expected(x, out)
    out.append(("exit", t))
    return out


def listener(log, rules=RULES, terminals=True):
    class L(FCSParserListener):
        pass

    def mk(ev, r):
        def h(self, ctx):
            log.append((ev, r, ctx))
        return h
    for r in rules:
        c_ = cap(r)
        # only callbacks the listener class offers can be overridden
        for ev in ("enter", "exit"):
            if not hasattr(FCSParserListener, ev + c_):
                log.append(("missing", ev + c_, None))
            setattr(L, ev + c_, mk(ev, r))
    if terminals:
        L.visitTerminal = lambda self, node: log.append(("leaf", None, node))
    return L()


def visitor(log, rules=RULES):
    class V(FCSParserVisitor):
        pass

    def mk(r):
        def h(self, ctx):
            log.append((r, ctx))
            return self.visitChildren(ctx)
        return h
    for r in rules:
        if not hasattr(FCSParserVisitor, "visit" + cap(r)):
            log.append(("missing " + r, None))
        setattr(V, "visit" + cap(r), mk(r))
    return V()


def token_name(node):
    t = node.getSymbol().type
    return "EOF" if t == Token.EOF else FCSParser.symbolicNames[t]


def child_kind(x):
    return rule_of(x) if isinstance(x, ParserRuleContext) else token_name(x)


def names(cls):
    """Typed accessors of a context class."""
    toks = [n for n in FCSParser.symbolicNames if n != "<INVALID>"] + ["EOF"]
    return [n for n in RULES + toks if n in vars(cls)]


def check(c, t, which=None):
    nodes = ctxs(t)
    for x in nodes:
        c.check(rule_of(x) in RULES and FCSParser.ruleNames[x.getRuleIndex()] == rule_of(x), "rule index of a node")
    # listener
    log = []
    ParseTreeWalker.DEFAULT.walk(listener(log), t)
    want = expected(t, [])
    c.check(len(log) == len(want), "number of listener events")
    for (ev, r, x), (wev, y) in zip(log, want):
        c.check(ev == wev and x is y, "order of listener events")
        if ev != "leaf":
            c.check(x is not None and r == rule_of(x), "callback %s%s for a node of %s" % (ev, cap(r), rule_of(x)))
    # visitor
    for how in ("visit", "accept"):
        log = []
        v = visitor(log)
        v.visit(t) if how == "visit" else t.accept(v)
        c.check(len(log) == len(nodes), "number of visits")
        for (r, x), y in zip(log, nodes):
            c.check(x is y, "order of visits")
            c.check(r == rule_of(y), "method visit%s for a node of %s" % (cap(r), rule_of(y)))
    # a visitor without own methods reaches every leaf
    seen = []

    class Leaves(FCSParserVisitor):
        def visitTerminal(self, node):
            seen.append(node)
    Leaves().visit(t)
    wl = [y for e, y in want if e == "leaf"]
    c.check(len(seen) == len(wl) and all(a is b for a, b in zip(seen, wl)), "default methods do not reach every leaf in order")
    for x in nodes:
        accessors(c, x)


def accessors(c, x):
    ks = kids(x)
    have = names(type(x))
    for k in ks:
        c.check(child_kind(k) in have, "no accessor for a child %s of %s" % (child_kind(k), rule_of(x)))
    for n in have:
        same = [k for k in ks if child_kind(k) == n]
        f = getattr(x, n)
        many = "i" in f.__code__.co_varnames[:f.__code__.co_argcount] if hasattr(f, "__code__") else False
        if many:
            got = f()
            c.check(len(got) == len(same) and all(a is b for a, b in zip(got, same)), "accessor %s of %s" % (n, rule_of(x)))
            for i in range(len(same) + 1):
                g = f(i)
                c.check(g is (same[i] if i < len(same) else None), "accessor %s(%d) of %s" % (n, i, rule_of(x)))
        else:
            c.check(len(same) <= 1 or n in ("",), "several children %s behind a single accessor" % n)
            g = f()
            c.check(g is (same[0] if same else None), "accessor %s of %s" % (n, rule_of(x)))


def tree(c, q):
    c.show("query", q)
    try:
        return fcsql.antlr_parse(q)
    except fcsql.SyntaxError:
        return None


RICH = ['[x:a!="1"/il & !(b="2" | !c="3")]* | ("d" "e"){2,3} within sentence', '[]+ "f"{4} \'g\'{5,} "h"{,6} "i"?',
        '([a="1" | b="2" & c="3"]) within s', '"a"/d', '((("x"))) | [within="y"] | [s:i="z"]']


@case("C28", bounds="12 seed queries with one position replaced by, or one character inserted as, an arbitrary character", weight=4)
def holes(c):
    t = tree(c, gen.holes(c))
    if t is not None:
        check(c, t)


@case("C28", bounds="1-2 segments with quantifiers, any separator, one range; with or without within", weight=3)
def queries(c):
    q = gen.main(c, "m", c.choose("n", [1, 2]), quants=gen.QUANTS[:7:2])
    t = tree(c, q + c.choose("w", ["", " within t"]))
    c.check(t is not None, "refused")
    if t is not None:
        check(c, t)


@case("C28", bounds="segments of 1-3 comparisons with any boolean structure", weight=3)
def exprs(c):
    t = tree(c, "[" + gen.expr(c, "e", c.choose("n", [1, 2, 3])) + "]")
    if t is not None:
        check(c, t)


@case("C28", bounds="5 queries that hold every rule and every alternative")
def rich(c):
    t = tree(c, c.choose("q", RICH))
    c.check(t is not None, "refused")
    if t is not None:
        check(c, t)


@case("C28", bounds="a listener and a visitor with own methods for any one rule only, 5 queries", weight=2)
def single(c):
    t = tree(c, c.choose("q", RICH))
    r = c.choose("r", RULES)
    log = []
    ParseTreeWalker.DEFAULT.walk(listener(log, [r], terminals=False), t)
    want = [(e, y) for e, y in expected(t, []) if e != "leaf" and rule_of(y) == r]
    c.check(len(log) == len(want) and all(a[0] == b[0] and a[2] is b[1] for a, b in zip(log, want)), "callbacks of one rule")
    log = []
    visitor(log, [r]).visit(t)
    want = [y for y in ctxs(t) if rule_of(y) == r]
    c.check(len(log) == len(want) and all(a[1] is b for a, b in zip(log, want)), "visits of one rule")


@case("C28", bounds="segments of 4 comparisons with any boolean structure", tier="thorough", weight=3)
def exprs4(c):
    t = tree(c, "[" + gen.expr(c, "e", 4, groups=False) + "]")
    if t is not None:
        check(c, t)


@case("C28", bounds="3 segments with quantifiers, any separator, one range; with or without within", tier="thorough", weight=3)
def queries3(c):
    q = gen.main(c, "m", 3, quants=["", "*", "{1,}"])
    t = tree(c, q + c.choose("w", ["", " within t"]))
    if t is not None:
        check(c, t)


@case("C28", bounds=big.bounds(), weight=2)
def sizes(c):
    t = tree(c, big.query(c))
    if t is not None:
        check(c, t)


@case("C28", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    t = tree(c, big.query(c, tier="thorough"))
    if t is not None:
        check(c, t)


@case("C28", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    t = tree(c, gen.varied(c))
    if t is not None:
        check(c, t)


@case("C28", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    t = tree(c, gen.varied(c, triples=True))
    if t is not None:
        check(c, t)
