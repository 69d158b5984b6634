from fcsql.parser import Operator, QueryParser, QueryParserException

from sx.ctx import case
from cases import big, gen
from cases.common import kind, parse_with, preorder
from cases.c11 import attrs
from cases.tsnap import snap, unchanged


def same_tree(c, a, b):
    if kind(a) != kind(b) or len(a.children) != len(b.children):
        return False
    conds = [c.eq(x, y) for x, y in zip(attrs(a), attrs(b))]
    la, lb = a.location, b.location
    if (la is None) != (lb is None):
        return False
    if la is not None:
        conds.append(c.eq(la.start, lb.start))
        conds.append(c.eq(la.stop, lb.stop))
    conds.extend(same_tree(c, x, y) for x, y in zip(a.children, b.children))
    return c.all(conds)


def same_errors(c, a, b):
    if len(a) != len(b):
        return False
    return c.all([c.all([x is y or c.eq(x, y) for x, y in zip((p.message, p.type, p.position, p.fragment),
                                                            (q.message, q.type, q.position, q.fragment))])
                  for p, q in zip(a, b)])


def same_outcome(c, a, b):
    c.check(a.kind == b.kind, "accepted in one case, refused in the other")
    if a.kind != b.kind:
        return
    if a.ok:
        c.check(same_tree(c, a.tree, b.tree), "trees differ")
        c.check(len(a.errors) == 0, "errors after a successful parse")
    else:
        c.check(c.eq(str(a.exc), str(b.exc)), "messages differ")
    c.check(same_errors(c, a.errors, b.errors), "errors attributes differ")


CONFIGS = [dict(), dict(enableSourceLocations=False, unicode_normalization_form=None),
           dict(default_identifier="lemma", default_operator=Operator.NOT_EQUALS, unicode_normalization_form="NFD")]
QUERIES = ['"a"', '[a="1"', '"b"{3,2}', '[x:y!="c"/i] | "d" within s', '"e" # "f"', '"g"/ii "h"/iI', '("i" | [])* "\\x6a"',
           '"k"/l', '"é"', '[a="1" & !b="2" | c="3"]', '', '"unclosed', '"\\q"', '"a" within', '[within="s"]{1,} ] [']


@case("C23", bounds="any of 15 queries, then any other of them, with the same parser, 3 configurations", weight=2)
def pairs(c):
    kw = c.choose("cfg", CONFIGS)
    q1, q2 = c.choose("q1", QUERIES), c.choose("q2", QUERIES)
    c.show("queries", [q1, q2])
    p = QueryParser(**kw)
    a = parse_with(p, q1)
    s = snap(a.tree) if a.ok else None
    errs1 = p.errors
    n1 = list(errs1)
    b = parse_with(p, q2)
    same_outcome(c, b, parse_with(QueryParser(**kw), q2))
    if a.ok:
        c.check(unchanged(c, a.tree, s), "an earlier tree changed")
        c.check(not b.ok or not ({id(x) for x in preorder(a.tree)} & {id(x) for x in preorder(b.tree)}), "trees share nodes")
    same_outcome(c, parse_with(p, q1), a)


@case("C23", bounds="any of 15 queries, then a query with one arbitrary character at any position of 4 seeds, then a third", weight=4)
def hole_after(c):
    kw = c.choose("cfg", CONFIGS[:2])
    q1 = c.choose("q1", QUERIES[:7])
    q = gen.holes(c, ['[a="x"/i]', '"a"{1,2}', '"a" | "b"', "[]*"], ins=False)
    c.show("queries", [q1, q])
    p = QueryParser(**kw)
    parse_with(p, q1)
    b = parse_with(p, q)
    same_outcome(c, b, parse_with(QueryParser(**kw), q))
    same_outcome(c, parse_with(p, q1), parse_with(QueryParser(**kw), q1))


@case("C23", bounds="a query with one arbitrary character at any position of 3 seeds, then any of 15 queries", weight=4)
def hole_before(c):
    q = gen.holes(c, ['[a="x"/i]', '"a"{1,2}', '"a" | "b"'], ins=False)
    q2 = c.choose("q2", QUERIES)
    c.show("queries", [q, q2])
    p = QueryParser()
    a = parse_with(p, q)
    s = snap(a.tree) if a.ok else None
    same_outcome(c, parse_with(p, q2), parse_with(QueryParser(), q2))
    if a.ok:
        c.check(unchanged(c, a.tree, s), "an earlier tree changed")


@case("C23", bounds="two parsers of any two of 3 configurations used in turn on 3 of 6 queries", weight=3)
def two_parsers(c):
    ka, kb = c.choose("ka", CONFIGS), c.choose("kb", CONFIGS)
    a, b = QueryParser(**ka), QueryParser(**kb)
    qs = [QUERIES[i] for i in (0, 1, 3, 4, 5, 8)]
    for i in range(2):
        q = c.choose("q%d" % i, qs)
        r = c.choose("r%d" % i, qs)
        x = parse_with(a, q)
        y = parse_with(b, r)
        same_outcome(c, x, parse_with(QueryParser(**ka), q))
        same_outcome(c, y, parse_with(QueryParser(**kb), r))
        c.check(same_errors(c, a.errors, x.errors), "another parser changed this parser's errors")


@case("C23", bounds="every string of 0-2 characters parsed twice, with a failing and a successful query between")
def twice(c):
    q = c.chars("x", c.choose("n", [0, 1, 2]))
    c.show("query", q)
    p = QueryParser()
    a = parse_with(p, q)
    parse_with(p, c.choose("between", ['[a="1"', '"a"/i', '"b"{3,2}', '"#']))
    same_outcome(c, parse_with(p, q), a)


@case("C23", bounds="two literals of 1-2 arbitrary characters or escapes in turn", weight=1)
def literals(c):
    kw = dict(unicode_normalization_form=None)
    p = QueryParser(**kw)
    trees = []
    for i in range(2):
        q = '"' + gen.unit(c, "a%d" % i, ["o", "e"]) + '"' + c.choose("f%d" % i, ["", "/d"])
        o = parse_with(p, q)
        same_outcome(c, o, parse_with(QueryParser(**kw), q))
        trees.append((o.tree, snap(o.tree)) if o.ok else None)
    for t in trees:
        if t:
            c.check(unchanged(c, t[0], t[1]), "an earlier tree changed")


@case("C23", bounds="module functions: fcsql.parse and can_parse of any of 15 queries after any other, and after any parser")
def module(c):
    import fcsql
    q1, q2 = c.choose("q1", QUERIES), c.choose("q2", QUERIES)
    loc = c.bool("loc")
    fcsql.can_parse(q1)
    parse_with(QueryParser(default_identifier="zzz", enableSourceLocations=not loc), q1)
    want = parse_with(QueryParser(enableSourceLocations=loc), q2)
    try:
        t = fcsql.parse(q2, enableSourceLocations=loc)
        c.check(want.ok and same_tree(c, t, want.tree), "fcsql.parse gives another tree")
    except QueryParserException as ex:
        c.check(not want.ok and c.eq(str(ex), str(want.exc)), "fcsql.parse refuses otherwise")
    c.check(fcsql.can_parse(q2) is want.ok, "can_parse")


@case("C23", bounds="histories of 4 of 9 queries with one parser", tier="thorough", weight=4)
def quads(c):
    p = QueryParser()
    kept = []
    for i in range(4):
        q = c.choose("q%d" % i, QUERIES[:9])
        o = parse_with(p, q)
        same_outcome(c, o, parse_with(QueryParser(), q))
        if o.ok:
            kept.append((o.tree, snap(o.tree)))
    for t, s in kept:
        c.check(unchanged(c, t, s), "an earlier tree changed")


@case("C23", bounds="two queries with one arbitrary character each, one after the other", tier="thorough", weight=4)
def two_holes(c):
    p = QueryParser()
    qs = []
    for i in range(2):
        s = c.choose("s%d" % i, ['"a"/i', "[b='c']", '"d"{1}'])
        k = c.choose("k%d" % i, list(range(len(s))))
        qs.append(s[:k] + c.char("h%d" % i) + s[k + 1:])
    c.show("queries", qs)
    a = parse_with(p, qs[0])
    b = parse_with(p, qs[1])
    same_outcome(c, a, parse_with(QueryParser(), qs[0]))
    same_outcome(c, b, parse_with(QueryParser(), qs[1]))


@case("C23", bounds="three literals of 1-2 arbitrary characters or escapes in turn", tier="thorough", weight=4)
def literals3(c):
    kw = dict(unicode_normalization_form=None)
    p = QueryParser(**kw)
    trees = []
    for i in range(3):
        q = '"' + gen.unit(c, "a%d" % i, ["o", "e"]) + '"' + c.choose("f%d" % i, ["", "/d"])
        o = parse_with(p, q)
        same_outcome(c, o, parse_with(QueryParser(**kw), q))
        trees.append((o.tree, snap(o.tree)) if o.ok else None)
    for t in trees:
        if t:
            c.check(unchanged(c, t[0], t[1]), "an earlier tree changed")


@case("C23", bounds="1..65 errors of 4 kinds or parts in the first query, any of 15 queries after it, 3 configurations; the parser's "
                    "configuration stays as it was", weight=2)
def many_errors(c):
    kw = c.choose("cfg", CONFIGS)
    k = c.choose("kind", ["text that is no token", "superfluous brackets", "quantifiers", "good"])
    n = c.choose("n", [1, 2, 3, 4, 5, 6, 9, 17, 33, 65])
    q1 = {"text that is no token": '"a" ' + "# " * n, "superfluous brackets": '"a"' + " ] [" * n, "quantifiers": '"a"{3,2} ' * n,
          "good": '"a" ' * n}[k]
    q2 = c.choose("q2", QUERIES)
    c.show("queries", [q1, q2])
    p = QueryParser(**kw)
    names = ("default_identifier", "default_operator", "unicode_normalization_form", "enableSourceLocations")
    before = {x: getattr(p, x) for x in names if hasattr(p, x)}
    a = parse_with(p, q1)
    same_outcome(c, parse_with(p, q2), parse_with(QueryParser(**kw), q2))
    same_outcome(c, parse_with(p, q1), a)
    for x, y in before.items():
        c.check(getattr(p, x) is y, "the parser's %s changed" % x)


@case("C23", bounds="the same parser for " + big.BOUNDS % ("17, 65", "sequence, disjunction", "65, 1025", "literal, identifier, flags") +
      ", before or after any of 15 queries", weight=2)
def sizes(c):
    kw = c.choose("cfg", CONFIGS)
    k = c.choose("big", ["sequence", "disjunction", "literal", "identifier", "flags"])
    n = c.choose("n", [17, 65] if k in big.WIDE else [65, 1025])
    q1 = (big.WIDE.get(k) or big.LONG[k])(c, n, gen.PRINT2)
    q2 = c.choose("q2", QUERIES)
    seq = [q1, q2, q1] if c.bool("order") else [q2, q1, q2]
    p = QueryParser(**kw)
    for q in seq:
        same_outcome(c, parse_with(p, q), parse_with(QueryParser(**kw), q))


@case("C23", bounds="3-40 parses in a row with one parser, then any of 15 queries")
def many(c):
    kw = c.choose("cfg", CONFIGS)
    p = QueryParser(**kw)
    n = c.choose("n", [3, 5, 9, 17, 40])
    for i in range(n):
        parse_with(p, QUERIES[i % len(QUERIES)])
    q = c.choose("q", QUERIES)
    same_outcome(c, parse_with(p, q), parse_with(QueryParser(**kw), q))


def put(x, name, v):
    try:
        setattr(x, name, v)
    except Exception:
        pass  # cannot be changed, so much the better


def spoil(c, t, errors):
    """What a user may do to a result that is his."""
    for n in preorder(t) if t is not None else []:
        if isinstance(getattr(n, "regex_flags", None), set):
            n.regex_flags.clear()
        for f, v in (("identifier", "spoiled"), ("qualifier", "spoiled"), ("regex", "spoiled"), ("min_occurs", 77), ("max_occurs", 78)):
            if hasattr(n, f):
                put(n, f, v)
        if n.location is not None:
            put(n.location, "start", 1000)
            put(n.location, "stop", 2000)
        if isinstance(n.children, list):
            n.children.append(n)
    for e in errors:
        put(e, "message", "spoiled")
        put(e, "fragment", "spoiled")
    if isinstance(errors, list):
        errors.clear()


@case("C23", bounds="the user changes everything in the tree or the error list of a parse of any of 15 queries, then any of them is parsed "
                    "with the same parser, another one, or fcsql.parse; 3 configurations", weight=2)
def spoiled(c):
    kw = c.choose("cfg", CONFIGS)
    q1, q2 = c.choose("q1", QUERIES), c.choose("q2", QUERIES)
    c.show("queries", [q1, q2])
    want = [parse_with(QueryParser(**kw), q) for q in (q1, q2)]
    keep = [[(attrs(n), n.location is not None and (n.location.start, n.location.stop), len(n.children)) for n in preorder(w.tree)] if w.ok
            else [(e.message, e.position, e.fragment) for e in w.errors] for w in want]
    p = QueryParser(**kw)
    a = parse_with(p, q1)
    spoil(c, a.tree, p.errors)
    for q, k in ((q1, keep[0]), (q2, keep[1])):
        for r in (p, QueryParser(**kw)):
            b = parse_with(r, q)
            now = [(attrs(n), n.location is not None and (n.location.start, n.location.stop), len(n.children)) for n in preorder(b.tree)] if (
                b.ok) else [(e.message, e.position, e.fragment) for e in b.errors]
            c.check(now == k, "the result depends on what was done to an earlier one")


def same_alone(c, q):
    """q parsed by a parser that parsed another query before, and by another one after it, as by a fresh parser."""
    c.show("query", q)
    kw = c.choose("cfg", CONFIGS[1:])
    p = QueryParser(**kw)
    want = parse_with(QueryParser(**kw), q)
    s = snap(want.tree) if want.ok else None
    for x in (QUERIES[9], q, QUERIES[3]):
        got = parse_with(p, x)
        if x is q:
            same_outcome(c, got, want)
            t = snap(got.tree) if got.ok else None
            tree = got.tree
    if s is not None and t is not None:
        c.check(unchanged(c, want.tree, s) and unchanged(c, tree, t), "an earlier tree was changed")


@case("C23", bounds=gen.varied_bounds() + "; before and after other queries; 2 configurations", weight=2)
def varied(c):
    same_alone(c, gen.varied(c))


@case("C23", bounds=gen.varied_bounds(triples=True) + "; before and after other queries; 2 configurations", weight=4, tier="thorough")
def varied3(c):
    same_alone(c, gen.varied(c, triples=True))
