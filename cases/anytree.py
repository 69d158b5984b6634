"""Trees built by hand in which any node kind may stand under any other."""
import fcsql.parser as fp
from fcsql.parser import SourceLocation

MANY = ["ExpressionAnd", "ExpressionOr", "QuerySequence", "QueryDisjunction"]
ONE = ["ExpressionGroup", "ExpressionNot", "QuerySegment", "QueryGroup"]
INNER = MANY + ONE + ["QueryWithWithin", "WithinPart", "ExpressionWildcard"]
LEAVES = ["Expression", "ExpressionWildcard", "SimpleWithin"]
BOUNDS = ("trees built by hand: a chain of %s nodes, each of any of 11 kinds (every node class as parent of every other), around any "
          "leaf, with or without other children in front of or behind the chain")


def expression(i, layer="foo"):
    e = fp.Expression(None, layer, fp.Operator.EQUALS, ".*", None)
    e.location = SourceLocation(i, i + 1)
    return e


def leaf(kind, i, layer="foo"):
    if kind == "ExpressionWildcard":
        return fp.ExpressionWildcard()
    if kind == "SimpleWithin":
        return fp.SimpleWithin(fp.SimpleWithinScope.TURN)
    return expression(i, layer)


def parent(kind, child, sib, i):
    """A node of the kind with the child; sib: where the others are (kinds with several children)."""
    if kind in ONE:
        return getattr(fp, kind)(child, 2, 3) if kind.startswith("Query") else getattr(fp, kind)(child)
    if kind == "QueryWithWithin":
        return fp.QueryWithWithin(child, None if sib == "none" else fp.SimpleWithin(fp.SimpleWithinScope.TEXT))
    if kind == "WithinPart":
        return fp.QueryWithWithin(expression(10 * i), child)
    kids = {"none": [child], "before": [expression(10 * i, "word"), child], "after": [child, expression(10 * i), expression(10 * i + 1, "text")],
            "both": [fp.ExpressionWildcard(), child, expression(10 * i)]}[sib]
    if kind == "ExpressionWildcard":
        return fp.ExpressionWildcard(children=kids)
    return getattr(fp, kind)(kids)


def chain(c, levels, sibs=("none", "before", "after", "both"), leaves=LEAVES, kinds=INNER):
    """(tree, [(kind, node, child)..]) from the inside out."""
    sib = c.choose("sib", list(sibs))
    ks = [c.choose("level%d" % i, kinds) for i in range(c.choose("levels", levels))]
    t = leaf(c.choose("leaf", leaves), 1)
    made = []
    for i, k in enumerate(ks):
        n = parent(k, t, sib, i + 1)
        made.append((k, n, t))
        t = n
    c.show("chain", " < ".join(ks))
    return t, made
