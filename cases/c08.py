from sx.ctx import case
from cases.common import parse, kind, shape, rshape, under_setups, SETUP_BOUNDS
from cases import big, gen
from fcsref.parser import ref_parse
from fcsref import quirk

QK = {"ExpressionNot": "Not", "ExpressionOr": "Or", "ExpressionAnd": "And", "ExpressionGroup": "Group"}
TOK = {"NOT": "!", "AND": "&", "OR": "|", "L_PAREN": "(", "R_PAREN": ")"}


def leaf(n):
    return n.identifier + "=" + n.regex


def struct(n):
    """Nested description of an expression tree; leaves by their text."""
    if kind(n) == "Expression":
        return ("A", n.identifier, n.regex)
    return (kind(n),) + tuple(struct(x) for x in n.children)


def rstruct(n):
    if n.kind == "Expression":
        return ("A", n.attrs["identifier"], n.attrs["regex"])
    return (n.kind,) + tuple(rstruct(x) for x in n.children)


def same(c, a, b, out):
    """Structural comparison; leaf comparisons are collected in out."""
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == "A":
        out.append(c.eq(a[1], b[1]))
        out.append(c.eq(a[2], b[2]))
        return True
    return all(same(c, x, y, out) for x, y in zip(a[1:], b[1:]))


def qstruct(node, leaves):
    if node[0] == "A":
        return leaves[node[1]]
    return ({v: k for k, v in QK.items()}[node[0]],) + tuple(qstruct(x, leaves) for x in node[1:])


def rleaves(n, out):
    if n.kind == "Expression":
        out.append(rstruct(n))
    for x in n.children:
        rleaves(x, out)
    return out


def quirk_struct(r, rseg):
    """The tree the ambiguous grammar yields, for the one segment of the query."""
    types, idx, leaves = [], {}, rleaves(rseg, [])
    k = 0
    toks = r.toks
    i = 1
    while i < len(toks) - 1:
        t = toks[i].type
        if t in TOK:
            types.append(TOK[t])
            i += 1
        else:
            idx[len(types)] = k
            k += 1
            types.append("A")
            i += 3  # name, operator, literal
    node = quirk.parse_expr(types, 0, len(types))
    return node and qstruct(node, {p: leaves[j] for p, j in idx.items()})


def check(c, q, **kw):
    c.show("query", q)
    o, r = parse(q, **kw), ref_parse(q)
    c.check(r.ok, "case broken: reference refuses")
    c.check(o.ok, "a legal expression is refused")
    if not (o.ok and r.ok):
        return
    c.check(kind(o.tree) == "QuerySegment" and len(o.tree.children) == 1, "segment")
    a, b = struct(o.tree.children[0]), rstruct(r.tree.children[0])
    out = []
    if same(c, a, b, out):
        c.check(c.all(out), "operands differ")
        return
    # the tree differs from the documented one: the recorded ambiguity, or something else
    out = []
    if any(t.type == "NOT" for t in r.toks):
        z = quirk_struct(r, r.tree.children[0])
        if z is not None and same(c, a, z, out):
            c.check(c.all(out), "operands differ")
            c.known("not-swallows", "an operator after ! binds into its operand")
            return
    c.check(False, "expression tree differs from the documented precedence")


def flat(c, n, nots, vals=True):
    q = "["
    for i in range(n):
        if i:
            q = q + c.choose("op%d" % i, ["&", "|"])
        q = q + "!" * c.choose("n%d" % i, list(range(nots + 1)))
        q = q + "abcdefgh"[i] + '="' + (c.char("v%d" % i, gen.PRINT) if vals else "v") + '"'
    return q + "]"


@case("C08", bounds="1-5 comparisons joined by any & and |, no !, operand values arbitrary characters", weight=2)
def no_not(c):
    check(c, flat(c, c.choose("n", [1, 2, 3, 4, 5]), 0))


@case("C08", bounds="6-8 comparisons joined by any & and |, no !", weight=3)
def no_not8(c):
    check(c, flat(c, c.choose("n", [6, 7, 8]), 0, False))


@case("C08", bounds="1-3 comparisons joined by any & and |, 0-2 ! before each", weight=2)
def nots(c):
    check(c, flat(c, c.choose("n", [1, 2, 3]), 2))


@case("C08", bounds="4 comparisons joined by any & and |, 0-1 ! before each", weight=2)
def nots4(c):
    check(c, flat(c, 4, 1))


@case("C08", bounds="1-4 comparisons with one parenthesised range (or none) anywhere, no !, values arbitrary characters",
      weight=3)
def groups(c):
    check(c, "[" + gen.expr(c, "e", c.choose("n", [1, 2, 3, 4]), 0) + "]")


@case("C08", bounds="1-3 comparisons with one parenthesised range (or none), 0-1 ! before each operand and the parentheses",
      weight=3)
def groups_not(c):
    check(c, "[" + gen.expr(c, "e", c.choose("n", [1, 2, 3]), 1) + "]")


@case("C08", bounds="expression of depth 3: parentheses nested 1-3 deep around 1-2 operands with any operators between, no ! "
                    "inside, 0-1 ! before each parenthesis", weight=3)
def nested(c):
    q = 'a="' + c.char("v", gen.PRINT) + '"'
    for i in range(c.choose("depth", [1, 2, 3])):
        op = c.choose("op%d" % i, ["", "&", "|"])
        side = c.choose("s%d" % i, [0, 1]) if op else 0
        o = "bcd"[i] + '="w"'
        q = (q + op + o if side == 0 else o + op + q) if op else q
        q = c.choose("n%d" % i, ["", "!"]) + "(" + q + ")"
    check(c, "[" + q + "]")


@case("C08", bounds="two parenthesised pairs and a bare operand: any operators, any order of the three parts")
def two_groups(c):
    def pair(name, x, y):
        return "(" + x + "=\"v\"" + c.choose(name, ["&", "|"]) + y + "=\"w\")"
    parts = [pair("p", "a", "b"), pair("q", "c", "d"), 'e="' + c.char("v", gen.PRINT) + '"']
    order = c.choose("order", [(0, 1, 2), (0, 2, 1), (2, 0, 1), (0, 1), (1, 2), (2, 1)])
    q = ""
    for k, i in enumerate(order):
        q = q + (c.choose("o%d" % k, ["&", "|"]) if k else "") + parts[i]
    check(c, "[" + q + "]")


@case("C08", bounds="segments [X]: X empty or up to 2 arbitrary white space characters is a wildcard, which has no children")
def wildcard(c):
    q = c.choose("pre", ["", "("]) 
    q = q + "[" + c.chars("w", c.choose("n", [0, 1, 2]), gen.WSD) + "]"
    if q[0] == "(":
        q = q + ")"
    q = q + c.choose("q", ["", "*", "{2,3}", " \"a\""])
    c.show("query", q)
    o = parse(q)
    c.check(o.ok, "refused")
    if o.ok:
        n = o.tree
        while kind(n) not in ("ExpressionWildcard", "Expression") and n.children:
            n = n.children[0]
        c.check(kind(n) == "ExpressionWildcard" and n.children == [], "an empty segment is no wildcard")


@case("C08", bounds="the same n-ary operand three times (identical operands are all kept): up to 4 equal operands")
def equal_operands(c):
    n = c.choose("n", [2, 3, 4])
    op = c.choose("op", ["&", "|"])
    v = c.char("v", gen.PRINT)
    check(c, "[" + op.join(['a="' + v + '"'] * n) + "]")


@case("C08", bounds="two segments in one query, each of 1-2 comparisons with any operator and 0-1 !: neither influences the other")
def two_segments(c):
    qs = []
    for k in range(2):
        q = "["
        for i in range(c.choose("n%d" % k, [1, 2])):
            if i:
                q = q + c.choose("o%d" % k, ["&", "|"])
            q = q + c.choose("b%d%d" % (k, i), ["", "!"]) + "ab"[i] + '="' + "xy"[k] + '"'
        qs.append(q + "]")
    q = qs[0] + c.choose("sep", [" ", "|"]) + qs[1]
    c.show("query", q)
    o = parse(q)
    c.check(o.ok, "refused")
    if o.ok:
        for seg, one in zip(o.tree.children, qs):
            alone = parse(one).tree
            c.check(struct(seg.children[0]) == struct(alone.children[0]), "a segment's tree depends on another segment")


@case("C08", bounds="operators and white space: up to 2 arbitrary characters between two comparisons", weight=2)
def between(c):
    q = '[a="x"' + c.chars("o", c.choose("n", [0, 1, 2])) + 'b="y"]'
    c.show("query", q)
    o, r = parse(q), ref_parse(q)
    c.check(o.ok == r.ok, "acceptance")
    if o.ok and r.ok:
        out = []
        c.check(same(c, struct(o.tree.children[0]), rstruct(r.tree.children[0]), out) and c.all(out), "tree")


@case("C08", bounds="4 comparisons, 0-2 ! before each; 5 comparisons, 0-1 !", tier="thorough", weight=4)
def nots5(c):
    n = c.choose("n", [4, 5])
    check(c, flat(c, n, 2 if n == 4 else 1, False))


@case("C08", bounds="4 comparisons with one parenthesised range and 0-1 ! everywhere; 5-6 comparisons with one range, no !",
      tier="thorough", weight=4)
def groups6(c):
    n = c.choose("n", [4, 5, 6])
    check(c, "[" + gen.expr(c, "e", n, 1 if n == 4 else 0) + "]")


@case("C08", bounds="9-10 comparisons joined by any & and |", tier="thorough", weight=3)
def no_not10(c):
    check(c, flat(c, c.choose("n", [9, 10]), 0, False))


EXPRS = ['[!a="%" & b="1"]', '[a="1" | b="%" & c="3"]', '[!(a="1" | b="2") & c="%"]{2}', '[a="1" & (b="%" | c="3") | d!="4"]',
         '[(a="1") | ((b="2" & c="%"/i))]', '[a="%" & b="2" & c="3" & d="4"]']


@case("C08", bounds="6 segment templates with one arbitrary printable character in a literal; " + SETUP_BOUNDS, weight=2)
def setups(c):
    under_setups(c, lambda q: check(c, q), gen.PRINT, templates=EXPRS)


DEEP = [x for x in big.DEEP if "expression" in x or "negated" in x]
EXPR = ["&", "|", "& and |"]


@case("C08", bounds=big.bounds(EXPR, [], deep=DEEP), weight=2)
def sizes(c):
    check(c, big.query(c, wide=EXPR, long=[], deep=DEEP))


@case("C08", bounds=big.bounds(EXPR, [], "thorough", deep=DEEP), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, wide=EXPR, long=[], deep=DEEP, tier="thorough"))


def check_all(c, q):
    c.show("query", q)
    o, r = parse(q, unicode_normalization_form=None), ref_parse(q)
    if not r.ok:
        return
    c.check(o.ok, "a legal query is refused")
    if not o.ok:
        return
    segments = lambda n, k: [n] if k(n) == "QuerySegment" else [y for x in n.children for y in segments(x, k)]
    ss, rs = segments(o.tree, kind), segments(r.tree, lambda n: n.kind)
    c.check(len(ss) == len(rs), "number of segments")
    out = []
    for x, y in zip(ss, rs):
        c.check(same(c, struct(x), rstruct(y), out), "expression tree differs from the documented precedence")
    c.check(c.all(out), "operands differ")


@case("C08", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check_all(c, gen.varied(c))


@case("C08", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check_all(c, gen.varied(c, triples=True))
