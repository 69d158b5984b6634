from fcsql.parser import ErrorDetail, QueryParser, SourceLocation

from sx.ctx import case
from cases import big, gen
from cases.c12 import TOK
from cases.common import parse_with
from fcsref.lexer import WS
from fcsref.parser import ref_parse


def check(c, q):
    c.show("query", q)
    p = QueryParser()
    o, r = parse_with(p, q), ref_parse(q)
    if o.ok:
        c.check(len(o.errors) == 0, "errors although the query was accepted")
        return
    c.check(o.kind == "refused", "another exception")
    if o.kind != "refused":
        return
    errs = o.errors
    if r.kind in ("sem", "ok"):
        c.check(len(errs) == 0, "syntax errors although the query is no syntax error")
        return
    c.check(len(errs) > 0, "no error recorded")
    if not errs:
        return
    n = len(q)
    spans = [(t.start, t.stop) for t in r.toks]
    lexpos = []
    first = True
    for d in errs:
        c.check(d.type == "syntax-error", "type")
        c.check(isinstance(d.message, str) and bool(d.message), "message")
        pos = d.position
        if isinstance(pos, int):
            lexpos.append(pos)
            continue
        if pos is None:
            c.check(n == 0, "no position although the query is not empty")
            c.check(c.eq(d.fragment, ""), "fragment for the empty query")
        elif pos.start == pos.stop:
            c.check(pos.start == n, "an empty range that is not at the end of the query")
            c.check(c.eq(d.fragment, q), "fragment for an early end")
        else:
            c.check((pos.start, pos.stop) in spans, "the range is no token of the query")
            c.check(d.fragment is not None and c.eq(d.fragment, q[:pos.stop]), "the fragment is not the text up to and including the token")
        if first:
            first = False
            if r.idx is not None:
                want = spans[r.idx][0] if r.idx < len(spans) else n
                c.check((0 if pos is None else pos.start) == want, "the first offending token is not the first that cannot continue")
    # pieces of text that are no token, in the order the lexer meets them
    c.check(lexpos == r.bad[:len(lexpos)], "position of text that is no token")
    c.check(r.kind == "lex" or not lexpos, "text that is no token reported, but there is none")
    if r.bad and not lexpos:
        # the parser may give up before the lexer meets it
        c.check(not first, "neither an offending token nor the text that is no token is reported")
    # the exception names the first error
    msg = errs[0].message
    c.check(msg in str(o.exc), "the exception message does not contain the first error's")


@case("C24", bounds="1-3 arbitrary characters (line breaks included) around or inside the faulty part of 8 queries: a line break or white "
                    "space, then text that is no token", weight=3)
def lines(c):
    w = c.chars("w", c.choose("n", [1, 2]), WS)
    x = c.choose("x", ["#", "-", "\\", "ä", "'", '"'])
    f = c.choose("f", ['%s%s', '"a"%s%s', '[a="b"]%s%s "c"', '[a%s%s="b"]', '("a"%s%s)', '"a"%s"b"%s', '"x\ny"%s%s', '[%sa="b"%s'])
    check(c, f % (w, x))


@case("C24", bounds="two pieces of text that are no token, each of 1 arbitrary character, at any two places of 4 queries")
def two_bad(c):
    s = c.choose("s", ['"a" "b"', '[a = "b"]', '( "a" )', '"a" within s'])
    sp = [i for i, ch in enumerate(s) if ch == " "] + [len(s)]
    i = c.choose("i", list(range(len(sp))))
    j = c.choose("j", list(range(i, len(sp))))
    dom = ((33, 33), (35, 38), (45, 46), (0x7B, 0x7E), (0xA1, 0xA3))
    check(c, s[:sp[i]] + c.char("x", dom) + s[sp[i]:sp[j]] + c.char("y", dom) + s[sp[j]:])


@case("C24", bounds="a literal with an arbitrary or unfinished escape, closed or not, in 4 contexts", weight=2)
def escapes(c):
    pre, post = c.choose("ctx", [("", ""), ('[a=', ']'), ('"x" | ', " within s"), ("(\n", ")")])
    k = c.choose("k", ["any", "x", "u", "two"])
    if k == "any":
        body = "\\" + c.char("e")
    elif k == "two":
        body = "\\n\\" + c.char("e") + "z"
    else:
        body = ("\\x" if k == "x" else "\\u00") + c.chars("h", 2)
    check(c, pre + '"' + body + c.choose("end", ['"', ""]) + post)


@case("C24", bounds="refusals that are no syntax errors leave no syntax error: flags of 2-3 letters, ranges of any two digits, huge code points")
def semantic(c):
    k = c.choose("k", ["flags", "range", "cp"])
    if k == "flags":
        q = '"a"/' + c.chars("f", c.choose("n", [2, 3]), "iIcCld")
    elif k == "range":
        q = '"a"{' + c.char("a", "0123456789") + "," + c.char("b", "0123456789") + "}"
    else:
        q = '"\\U' + c.chars("h", 2, "0123") + c.char("g", "012") + '00000"'
    check(c, q)


@case("C24", bounds="every string of 0-3 characters", weight=4)
def any3(c):
    check(c, c.chars("x", c.choose("n", [0, 1, 2, 3])))


@case("C24", bounds="12 seed queries with one position replaced by, or one character inserted as, an arbitrary character", weight=4)
def holes(c):
    check(c, gen.holes(c))


@case("C24", bounds="every sequence of up to 3 of 20 token texts, blank separated, in any of 6 frames", weight=5)
def tokens(c):
    pre, post, n = c.choose("frame", [("", "", 3), ("[", "]", 3), ('"a" ', "", 2), ("(", ")", 2), ('[a="b" ', "]", 2),
                                      ('"a"{', "}", 2)])
    q = pre
    for i in range(c.choose("n", list(range(n + 1)))):
        q = q + c.choose("t%d" % i, TOK) + " "
    check(c, q + post)


@case("C24", bounds="12 seed queries with any one token deleted, doubled, swapped with the next, or replaced by any other token text",
      weight=2)
def edits(c):
    from fcsref.lexer import tokenize
    s = c.choose("s", gen.SEEDS)
    toks, _ = tokenize(s)
    t = [x.text for x in toks]
    k = c.choose("k", ["del", "dup", "swap", "repl"])
    i = c.choose("i", list(range(len(t) - (1 if k == "swap" else 0))))
    if k == "del":
        t = t[:i] + t[i + 1:]
    elif k == "dup":
        t = t[:i] + [t[i]] + t[i:]
    elif k == "repl":
        t = t[:i] + [c.choose("t", TOK)] + t[i + 1:]
    else:
        t = t[:i] + [t[i + 1], t[i]] + t[i + 2:]
    check(c, c.choose("sep", [" ", "\n"]).join(t))


@case("C24", bounds="two adjacent arbitrary characters in 12 seed queries", tier="thorough", weight=5)
def holes2(c):
    check(c, gen.holes2(c))


@case("C24", bounds="every sequence of 4 of 20 token texts, blank separated, and of 3 in 5 frames", tier="thorough", weight=6)
def tokens4(c):
    pre, post, n = c.choose("frame", [("", "", 4), ('"a" ', "", 3), ("(", ")", 3), ('[a="b" ', "]", 3), ('"a"{', "}", 3)])
    q = pre
    for i in range(n):
        q = q + c.choose("t%d" % i, TOK) + " "
    check(c, q + post)


@case("C24", bounds=big.faulty_bounds(), weight=2)
def faulty_sizes(c):
    check(c, big.faulty(c))


@case("C24", bounds=big.faulty_bounds("thorough"), tier="thorough", weight=2)
def more_faulty_sizes(c):
    check(c, big.faulty(c, "thorough"))


@case("C24", bounds=gen.varied_bounds() + "; each with one of 7 faults in front or at the end", weight=2)
def varied(c):
    a, b = c.choose("fault", ["%s)", "%s |", "%s \\\\", "%s \u00a7", "] %s", "%s {", "/i %s"]).split("%s")
    check(c, a + gen.varied(c) + b)


@case("C24", bounds=gen.varied_bounds(triples=True) + "; each with one of 7 faults in front or at the end", weight=4, tier="thorough")
def varied3(c):
    a, b = c.choose("fault", ["%s)", "%s |", "%s \\\\", "%s \u00a7", "] %s", "%s {", "/i %s"]).split("%s")
    check(c, a + gen.varied(c, triples=True) + b)
