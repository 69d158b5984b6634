"""Shared helpers of the validator cases."""
from fcsql.parser import Expression, Operator, SourceLocation
from fcsql.validation import FCSQLValidator, SpecificationValidationError

from cases.common import kind, preorder

KNOWN = ("text", "lemma", "pos", "orth", "norm", "phonetic")
POS_TAGS = ("ADJ", "ADP", "ADV", "AUX", "CCONJ", "DET", "INTJ", "NOUN", "NUM", "PART", "PRON", "PROPN", "PUNCT", "SCONJ", "SYM",
            "VERB", "X")
REGEX_CHARS = "()[]{}?*+-|^$\\.&~#\t\n\r\x0b\x0c"  # what re.escape escapes, apart from the blank
REGEX = ".*"  # a value no POS rule complains about


def expr(identifier, qualifier=None, regex=REGEX, flags=None, op=Operator.EQUALS):
    return Expression(qualifier, identifier, op, regex, flags)


def collect(node, query=None, **kw):
    """(verdict, errors, warnings) of the collecting mode."""
    v = FCSQLValidator(raise_at_first_violation=False, **kw)
    r = v.validate(node) if query is None else v.validate(node, query=query)
    return r, list(v.errors), list(v.warnings)


# -- the rules, stated independently -------------------------------------------


def eq_any(x, options):
    for o in options:
        if x == o:
            return True
    return False


def layer_rule(identifier, allowed):
    """'' | 'error' | 'warning'"""
    if allowed:
        return "" if eq_any(identifier, allowed) else "error"
    if eq_any(identifier, KNOWN):
        return ""
    if identifier == "word":
        return "warning"
    if len(identifier) >= 2 and identifier[0] == "x" and identifier[1] == "-":
        return "warning"
    return "error"


def qualifier_rule(identifier, qualifier, allowed):
    if not allowed or qualifier is None:
        return ""
    for ident, quals in allowed:
        if ident == identifier:
            return "" if quals is not None and eq_any(qualifier, quals) else "error"
    return "error"


def likely_regex(value):
    for ch in value:
        if ch in REGEX_CHARS:
            return True
    return False


def pos_rule(identifier, qualifier, value, flags):
    if identifier == "pos" and qualifier is None and not flags:
        if not eq_any(value, POS_TAGS) and not likely_regex(value):
            return "warning"
    return ""


def rules(n, ids=None, quals=None):
    out = [layer_rule(n.identifier, ids), qualifier_rule(n.identifier, n.qualifier, quals),
           pos_rule(n.identifier, n.qualifier, n.regex, n.regex_flags)]
    return [x for x in out if x]


def exprs_in_order(t):
    return [x for x in preorder(t) if kind(x) == "Expression"]


def same_place(a, b):
    if a is None or b is None:
        return a is b
    return a.start == b.start and a.stop == b.stop


def judge(c, t, ids=None, quals=None, query=None, **kw):
    """Compare the collected issues of a tree with the rules of each of its expressions, in source order."""
    for i, x in enumerate(exprs_in_order(t)):
        if x.location is None:
            x.location = SourceLocation(i, i + 1)
    r, errors, warnings = collect(t, query=query, allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals, **kw)
    we, ww = [], []
    for x in exprs_in_order(t):
        for k in rules(x, ids, quals):
            (we if k == "error" else ww).append(x)
    c.check(len(errors) == len(we), "number of errors")
    c.check(len(warnings) == len(ww), "number of warnings")
    if len(errors) == len(we) and len(warnings) == len(ww):
        for d, x in zip(errors + warnings, we + ww):
            c.check(same_place(d.position, x.location), "issues are not those of the individual expressions in order")
    return r, errors, warnings


# -- surroundings and sizes ---------------------------------------------------

PARENTS = ["none", "not", "group", "and", "or", "segment", "query group", "sequence", "disjunction", "within"]


def under(name, e):
    """e under a node of the named kind, beside others where it can have some."""
    import fcsql.parser as fp
    o = expr("text")
    if name == "not":
        return fp.ExpressionNot(e)
    if name == "group":
        return fp.ExpressionGroup(e)
    if name == "and":
        return fp.ExpressionAnd([o, e])
    if name == "or":
        return fp.ExpressionOr([e, o, expr("text", regex="b.")])
    if name == "segment":
        return fp.QuerySegment(e, 0, -1)
    if name == "query group":
        return fp.QueryGroup(e, 2, 3)
    if name == "sequence":
        return fp.QuerySequence([fp.QuerySegment(fp.ExpressionWildcard(), 1, 1), e])
    if name == "disjunction":
        return fp.QueryDisjunction([fp.QuerySegment(o, 1, 1), e])
    if name == "within":
        return fp.QueryWithWithin(e, fp.SimpleWithin(fp.SimpleWithinScope.TEXT))
    return e


def surroundings(c, e):
    return under(c.choose("outer", PARENTS), under(c.choose("middle", PARENTS), under(c.choose("inner", PARENTS[:6]), e)))


MODES = ["errors", "warnings", "mixed", "first", "last", "pos", "clean"]
SIZES = [1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 13, 16, 17, 21, 26, 33, 41, 51, 64, 65, 81, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513,
         1000, 1024]
MORE_SIZES = sorted(set(list(range(1, 140)) + SIZES + [192, 254, 384, 500, 511, 768, 1001, 1023, 1025, 2000, 2048, 4096]))
FORMS = ["sequence", "disjunction", "and", "or", "groups"]
WIDE_BOUNDS = ("trees of %s expressions (sequence, disjunction, & and | of them, nested groups up to 65) that are all errors, all warnings, "
               "mixed, clean but for the first or last, POS warnings, or all clean")


def wide_tree(n, mode, form, locations=True, at=0):
    import fcsql.parser as fp
    es = []
    for i in range(n):
        bad = {"errors": "foo", "warnings": "word", "mixed": ("foo", "word", "text", "pos", "x-a")[i % 5], "pos": "pos", "clean": "lemma",
               "first": "foo" if i == 0 else "text", "last": "word" if i == n - 1 else "text"}[mode]
        e = expr(bad, regex="NN" if mode in ("mixed", "pos") else REGEX)
        if locations:
            e.location = SourceLocation(at + i, at + i + 1)
        es.append(e)
    if form in ("and", "or"):
        return fp.QuerySegment((fp.ExpressionAnd if form == "and" else fp.ExpressionOr)(es), 1, 1)
    if form == "groups":
        t = es[-1]
        for e in es[-2::-1]:
            t = fp.ExpressionAnd([e, fp.ExpressionGroup(t)])
        return fp.QuerySegment(t, 1, 1)
    ss = [fp.QuerySegment(e, 1, 1) for e in es]
    return fp.QuerySequence(ss) if form == "sequence" else fp.QueryDisjunction(ss)


def wide(c, sizes=SIZES, modes=MODES, forms=FORMS, **kw):
    form = c.choose("form", forms)
    n = c.choose("n", [x for x in sizes if form != "groups" or x <= 65])
    mode = c.choose("mode", modes)
    c.show("tree", "%s of %d: %s" % (form, n, mode))
    return wide_tree(n, mode, form, **kw)
