import re

import fcsql
from antlr4 import Token
from antlr4.tree.Tree import ErrorNode, TerminalNode
from fcsql.parser import QueryParser

from sx.ctx import case
from cases import big, gen
from cases.c12 import TOK
from cases.c28 import child_kind, kids, rule_of
from cases.common import parse_with
from fcsref.parser import ref_parse


Q = "(query_simple|query_sequence|query_group)"
X = "(expression_basic|expression_group|expression_%s|expression_not)"
NAME = "(IDENTIFIER|WITHIN|SIMPLE_WITHIN_SCOPE|REGEXP_FLAGS)"
XS = "(expression_basic|expression_group|expression_or|expression_and|expression_not)"
GRAMMAR = {  # what the children of each rule's nodes may be, from FCSParser.g4
    "query": "main_query( WITHIN within_part)? EOF",
    "main_query": "(query_simple|query_group|query_sequence|query_disjunction)",
    "query_disjunction": Q + "( OR " + Q + ")+",
    "query_sequence": "(query_simple|query_group)( (query_simple|query_group))*",
    "query_group": "L_PAREN (query_disjunction|query_sequence) R_PAREN( quantifier)?",
    "query_simple": "(query_implicit|query_segment)( quantifier)?",
    "quantifier": "(Q_ONE_OR_MORE|Q_ZERO_OR_MORE|Q_ZERO_OR_ONE|L_CURLY_BRACKET (INTEGER|(INTEGER )?Q_COMMA INTEGER|INTEGER Q_COMMA) "
                  "R_CURLY_BRACKET)",
    "query_implicit": "regexp", "query_segment": "L_SQUARE_BRACKET (expression )?R_SQUARE_BRACKET",
    "within_part": "within_part_simple", "within_part_simple": "SIMPLE_WITHIN_SCOPE", "expression": XS,
    "expression_or": X % "and" + "( OR " + X % "and" + ")+", "expression_group": "L_PAREN " + XS + " R_PAREN",
    "expression_and": "(expression_basic|expression_group|expression_not)( AND " + X % "or" + ")+", "expression_not": "NOT " + XS,
    "expression_basic": "attribute (OPERATOR_EQ|OPERATOR_NE) regexp", "attribute": "(qualifier COLON )?identifier",
    "qualifier": NAME, "identifier": NAME, "regexp": "regexp_pattern( FWD_SLASH regexp_flag)?", "regexp_pattern": "REGEXP",
    "regexp_flag": "REGEXP_FLAGS",
}


def conforms(t):
    """Every rule node's children are an alternative of its rule."""
    if isinstance(t, TerminalNode):
        return True
    ks = kids(t)
    r = rule_of(t)
    if r not in GRAMMAR or re.fullmatch(GRAMMAR[r], " ".join([child_kind(x) for x in ks])) is None:
        return False
    return all([conforms(x) for x in ks])


def leaves(t):
    if isinstance(t, TerminalNode):
        return [t]
    out = []
    for i in range(t.getChildCount()):
        out.extend(leaves(t.getChild(i)))
    return out


def attempt(q):
    try:
        return "tree", fcsql.antlr_parse(q)
    except fcsql.SyntaxError as ex:
        return "refused", ex
    except Exception as ex:
        return "other", ex


def check(c, q):
    c.show("query", q)
    k, t = attempt(q)
    r = ref_parse(q)
    c.check(k != "other", "another exception than SyntaxError")
    bad = r.kind in ("lex", "syn")
    c.check((k == "refused") is bad, "raises SyntaxError: %s, a syntax error: %s" % (k == "refused", bad))
    p = QueryParser()
    o = parse_with(p, q)
    c.check((len(o.errors) > 0) is bad, "QueryParser records syntax errors otherwise")
    if k != "tree" or bad:
        return
    ls = leaves(t)
    c.check(not any(isinstance(x, ErrorNode) for x in ls), "error nodes in the tree")
    c.check(rule_of(t) == "query" and conforms(t), "a node whose children are no alternative of its rule")
    c.check(len(ls) == len(r.toks) + 1, "the tree does not cover all tokens")
    if len(ls) != len(r.toks) + 1:
        return
    for x, y in zip(ls, r.toks):
        s = x.getSymbol()
        c.check(s.start == y.start and s.stop + 1 == y.stop, "token span")
        c.check(c.eq(x.getText(), y.text), "token text")
    c.check(ls[-1].getSymbol().type == Token.EOF, "the tree does not end with the end of input")


@case("C25", bounds="every string of 0-3 characters", weight=5)
def any3(c):
    check(c, c.chars("x", c.choose("n", [0, 1, 2, 3])))


@case("C25", bounds="12 seed queries with one position replaced by, or one character inserted as, an arbitrary character", weight=4)
def holes(c):
    check(c, gen.holes(c))


@case("C25", bounds="every sequence of up to 3 of 20 token texts, blank separated, in any of 6 frames", weight=5)
def tokens(c):
    pre, post, n = c.choose("frame", [("", "", 3), ("[", "]", 3), ('"a" ', "", 2), ("(", ")", 2), ('[a="b" ', "]", 2),
                                      ('"a"{', "}", 2)])
    q = pre
    for i in range(c.choose("n", list(range(n + 1)))):
        q = q + c.choose("t%d" % i, TOK) + " "
    check(c, q + post)


@case("C25", bounds="text that is no token of 1-2 arbitrary characters before, between or after the tokens of 5 queries", weight=2)
def stray(c):
    s = c.choose("s", ['"a" "b"', '[a = "b" & ! c != "d"]', '( "a" | [] ) *', '"a" within s', '"a" {1,2}'])
    sp = [0] + [i for i, ch in enumerate(s) if ch == " "] + [len(s)]
    i = c.choose("i", sp)
    check(c, s[:i] + c.chars("x", c.choose("n", [1, 2])) + s[i:])


@case("C25", bounds="1-3 segments with quantifiers of 3 kinds, any separator, one range; within or not", weight=2)
def queries(c):
    q = gen.main(c, "m", c.choose("n", [1, 2, 3]), quants=["", "*", "{2,1}"])
    check(c, q + c.choose("w", ["", " within t", " within", " within x"]))


@case("C25", bounds="segments of 1-3 comparisons with any boolean structure and one range, closed or not")
def exprs(c):
    check(c, "[" + gen.expr(c, "e", c.choose("n", [1, 2, 3])) + c.choose("end", ["]", "", "]]", ")]"]))


@case("C25", bounds="refusals of the tree builder are no syntax errors: 2-3 flag letters, ranges of any two digits, huge code points")
def semantic(c):
    k = c.choose("k", ["flags", "range", "cp"])
    if k == "flags":
        q = '"a"/' + c.chars("f", c.choose("n", [2, 3]), "iIcCld")
    elif k == "range":
        q = '"a"{' + c.char("a", "0123456789") + "," + c.char("b", "0123456789") + "}"
    else:
        q = '"\\U' + c.chars("h", 2, "0123") + c.char("g", "012") + '00000"'
    check(c, q)


@case("C25", bounds="a failing or a successful antlr_parse or parse before does not matter: 5 queries before, 6 after")
def after(c):
    a = c.choose("a", ['"a"', "[", '"a" #', "", '[x="y"']) + c.char("h", ((32, 38),))
    attempt(a)
    parse_with(QueryParser(), a)
    check(c, c.choose("b", ['"b"', "[]", "#", '"a" #', "", '("a"']))


@case("C25", bounds="two adjacent arbitrary characters in 12 seed queries", tier="thorough", weight=5)
def holes2(c):
    check(c, gen.holes2(c))


@case("C25", bounds="every sequence of 4 of 20 token texts, blank separated, and of 3 in 5 frames", tier="thorough", weight=6)
def tokens4(c):
    pre, post, n = c.choose("frame", [("", "", 4), ('"a" ', "", 3), ("(", ")", 3), ('[a="b" ', "]", 3), ('"a"{', "}", 3)])
    q = pre
    for i in range(n):
        q = q + c.choose("t%d" % i, TOK) + " "
    check(c, q + post)


@case("C25", bounds=big.bounds(), weight=2)
def sizes(c):
    check(c, big.query(c))


@case("C25", bounds=big.bounds(tier="thorough"), tier="thorough", weight=2)
def more_sizes(c):
    check(c, big.query(c, tier="thorough"))


@case("C25", bounds=big.faulty_bounds(), weight=2)
def faulty_sizes(c):
    check(c, big.faulty(c))


@case("C25", bounds=big.faulty_bounds("thorough"), tier="thorough", weight=2)
def more_faulty_sizes(c):
    check(c, big.faulty(c, "thorough"))


@case("C25", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    check(c, gen.varied(c))


@case("C25", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    check(c, gen.varied(c, triples=True))
