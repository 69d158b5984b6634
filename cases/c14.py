from fcsql.parser import Expression, Operator, QueryNodeType, RegexFlag

from sx.ctx import case
from cases.common import parse, kind, preorder, expressions
from cases.c13 import mk
from cases import gen
from fcsref.parser import ref_parse


def raises(f, *a):
    try:
        f(*a)
    except TypeError:
        return True
    except Exception:
        return False
    return False


def pure_bool(c, v, want, msg):
    c.check(c.eq(v, want), msg)


def check(c, n, qual, ident, op, flags, x):
    """x: an arbitrary string to compare with."""
    c.check(c.eq(n.has_layer_identifier(x), x == ident), "has_layer_identifier")
    c.check(n.has_layer_identifier(ident) == True, "has_layer_identifier of the identifier")  # noqa: E712
    present = qual is not None
    c.check(c.eq(n.has_layer_qualifier(x), present and x == qual), "has_layer_qualifier")
    if present:
        c.check(n.has_layer_qualifier(qual) == True, "has_layer_qualifier of the qualifier")  # noqa: E712
    c.check(n.is_layer_qualifier_empty() == (not present), "is_layer_qualifier_empty")
    for o in Operator:
        c.check(n.has_operator(o) == (o == op), "has_operator")
    for f in RegexFlag:
        c.check(n.has_regex_flag(f) == (f in flags), "has_regex_flag")
    c.check(n.is_regex_flags_empty() == (not flags), "is_regex_flags_empty")
    for f in (n.has_layer_identifier, n.has_layer_qualifier, n.has_operator, n.has_regex_flag, n.has_node_type):
        c.check(raises(f, None), "None does not raise TypeError")


def flagset(c):
    return frozenset(f for f in RegexFlag if c.bool("f" + f.char))


@case("C14", bounds="expression nodes with identifier of 0-3, qualifier None or 1-3, compared with a string of 0-3 characters, all "
                    "characters arbitrary", weight=3)
def strings(c):
    ident = c.chars("i", c.choose("ni", [0, 1, 2, 3]))
    qual = c.chars("q", c.choose("nq", [1, 2, 3])) if c.bool("hasq") else None
    x = c.chars("x", c.choose("nx", [0, 1, 2, 3]))
    if qual is not None:
        c.assume(not qual.isspace())
    c.show("identifier", ident)
    c.show("qualifier", qual)
    c.show("x", x)
    n = Expression(qual, ident, Operator.EQUALS, "r", None)
    check(c, n, qual, ident, Operator.EQUALS, frozenset(), x)


@case("C14", bounds="every flag set of the four flags (as set, frozenset, or none given), both operators, qualifier present or not")
def flags(c):
    fl = flagset(c)
    op = c.choose("op", list(Operator))
    qual = c.choose("q", [None, "q"])
    given = c.choose("how", ["set", "frozenset", "none"])
    if given == "none":
        c.assume(not fl)
    n = Expression(qual, "w", op, "r", None if given == "none" else (set(fl) if given == "set" else fl))
    check(c, n, qual, "w", op, fl, c.chars("x", 1))


@case("C14", bounds="identifiers and qualifiers of 4, 8, 20, 64 arbitrary characters, compared with themselves, a prefix, and with one "
                    "character changed", weight=2)
def long(c):
    n = c.choose("n", [4, 8, 20, 64])
    w = c.chars("w", n)
    how = c.choose("how", ["same", "prefix", "longer", "changed"])
    if how == "same":
        x, eq = w, True
    elif how == "prefix":
        x, eq = w[:n - 1], False
    elif how == "longer":
        x, eq = w + c.char("y"), False
    else:
        p = c.choose("p", [0, n // 2, n - 1])
        y = c.char("y")
        x = w[:p] + y + w[p + 1:]
        eq = y == w[p]
    c.show("w", w)
    c.show("x", x)
    if c.bool("isq"):
        c.assume(not w.isspace())
        node = Expression(w, "i", Operator.NOT_EQUALS, "r", None)
        c.check(c.eq(node.has_layer_qualifier(x), eq), "has_layer_qualifier")
    else:
        node = Expression(None, w, Operator.NOT_EQUALS, "r", None)
        c.check(c.eq(node.has_layer_identifier(x), eq), "has_layer_identifier")


@case("C14", bounds="expressions of parsed queries: names of 1-2 arbitrary word characters, 0-3 arbitrary flag letters, both operators",
      weight=3)
def parsed(c):
    nf = c.choose("nf", [0, 1, 2])
    q = "[" + (c.char("q", gen.LETTER) + ":" if c.bool("hasq") else "") + c.chars("w", c.choose("n", [1, 2]), gen.LETTER) + \
        c.choose("op", ["=", "!="]) + '"v"' + ("/" + c.chars("f", nf, "icICld") if nf else "") + "]"
    c.show("query", q)
    o, r = parse(q), ref_parse(q)
    if not (o.ok and r.ok):
        return
    n = expressions(o.tree)[0]
    a = r.tree.children[0].attrs
    fl = frozenset(f for f in RegexFlag if f.char in (a["flags"] or ()))
    op = [x for x in Operator if x.value == a["operator"]][0]
    check(c, n, a["qualifier"], a["identifier"], op, fl, c.choose("x", ["s", "w", "word", "", "i"]))


@case("C14", bounds="bare literals with 0-2 arbitrary flag letters, default identifier of 1 arbitrary character")
def bare(c):
    nf = c.choose("nf", [0, 1, 2])
    ident = c.char("i")
    q = '"a"' + ("/" + c.chars("f", nf, "icICld") if nf else "")
    o, r = parse(q, default_identifier=ident), ref_parse(q)
    c.show("query", q)
    if not (o.ok and r.ok):
        return
    fl = frozenset(f for f in RegexFlag if f.char in (r.tree.children[0].attrs["flags"] or ()))
    check(c, expressions(o.tree)[0], None, ident, Operator.EQUALS, fl, c.chars("x", 1))


@case("C14", bounds="has_node_type over every node kind (all nodes of 12 seed queries, and constructed ones) and every node type")
def node_type(c):
    from cases.c09 import NT
    if c.bool("built"):
        ns = [mk(k) for k in "emsgwx"]
        names = ["Expression", "Expression", "QuerySegment", "QueryGroup", "SimpleWithin", "ExpressionWildcard"]
    else:
        q = c.choose("s", gen.SEEDS)
        ns = preorder(parse(q).tree)
        names = [kind(n) for n in ns]
    t = c.choose("t", list(QueryNodeType))
    for n, k in zip(ns, names):
        c.check(n.has_node_type(t) == (t is NT[k]), "has_node_type(%s) of a %s" % (t, k))
        c.check(n.has_node_type(n.node_type) is True, "has_node_type of the own type")
        c.check(raises(n.has_node_type, None), "None does not raise TypeError")


@case("C14", bounds="fields changed after construction: predicates follow; new values of 1 arbitrary character")
def mutated(c):
    n = Expression("q", "w", Operator.EQUALS, "r", {RegexFlag.CASE_INSENSITIVE})
    n.identifier = c.char("i")
    k = c.choose("k", ["q", "noq"])
    n.qualifier = c.char("qc") if k == "q" else None
    if n.qualifier is not None:
        c.assume(not n.qualifier.isspace())
    fl = flagset(c)
    n.regex_flags = set(fl) if fl else None
    n.operator = c.choose("op", list(Operator))
    check(c, n, n.qualifier, n.identifier, n.operator, fl, c.char("x"))
