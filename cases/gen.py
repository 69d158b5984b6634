"""Generators of symbolic query texts shared by the cases. c is the case
context; names make the symbolic variables of one case distinct."""
from fcsref.lexer import WS

WSD = WS
HEXD = "0123456789abcdefABCDEF"
SIMPLE = "\\'\"nt.^$*+?(){}[]|"
NODQ = ((0, 33), (35, 91), (93, 0x10FFFF))  # anything but " and \
NOSQ = ((0, 38), (40, 91), (93, 0x10FFFF))
PRINT = ((32, 33), (35, 91), (93, 126))
PRINT2 = ((32, 33), (35, 38), (40, 91), (93, 126))  # PRINT without '
LETTER = ((65, 90), (97, 122))
ALNUM = ((48, 57), (65, 90), (97, 122))
WORDCH = ((45, 45), (48, 57), (65, 90), (97, 122))


def lit(c, name, n=1, dom=PRINT):
    """A double-quoted literal of n ordinary characters."""
    return '"' + c.chars(name, n, dom) + '"'


def hexes(c, name, n):
    return c.chars(name, n, HEXD)


def unit(c, name, kinds):
    """One element of a literal body: an ordinary character or an escape."""
    k = c.choose(name + "k", kinds)
    if k == "o":
        return c.char(name + "c", NODQ)
    if k == "e":
        return "\\" + c.char(name + "c", SIMPLE)
    if k == "x":
        return "\\x" + hexes(c, name + "h", 2)
    if k == "u":
        return "\\u" + hexes(c, name + "h", 4)
    return "\\U" + hexes(c, name + "h", 8)


CONTEXTS = [
    ("", ""), ("[word=", "]"), ("[x-y:lemma != ", " ]"), ("( ", " \"z\" )*"), ("\"z\" ", ""), ("\"z\" | ", " within s"),
    ("[a='q' & b=", "]"), ("[!(a=", ")]"), ("[a='q'/i | b=", "/d]{2,3}"),
]

SEEDS = [
    '"walking"', "'a' \"b\"", '[word = "walking"]', '[pos="NOUN" & lemma != "x"/i]', '[!a="b" | c="d"]',
    '("a" | "b"){2,3} within s', '[]{2,} "cat" within sentence', '"a"/ic "b"*', "[ q:text='x\\u00e9' ]+",
    '(("a") "b")? | []', '[(a="1" | b="2") & c="3"]', '"\\x41\\n"',
]


ANY = ((0, 0x10FFFF),)


def holes(c, seeds=None, ins=True, dom=ANY):
    """A seed query with one position replaced by (or, one inserted) arbitrary character."""
    s = c.choose("seed", seeds or SEEDS)
    mode = c.choose("mode", ["replace", "insert"] if ins else ["replace"])
    n = len(s) + (1 if mode == "insert" else 0)
    pos = c.choose("pos", list(range(n)))
    ch = c.char("h", dom)
    if mode == "replace":
        return s[:pos] + ch + s[pos + 1:]
    return s[:pos] + ch + s[pos:]


def holes2(c, seeds=None, dom=ANY):
    """A seed query with two adjacent characters replaced by two arbitrary ones, or one deleted and one arbitrary."""
    s = c.choose("seed", seeds or SEEDS)
    pos = c.choose("pos", list(range(len(s) - 1)))
    return s[:pos] + c.chars("h", 2, dom) + s[pos + 2:]


# -- structures -------------------------------------------------------------

QUANTS = ["", "*", "+", "?", "{2}", "{1,}", "{,3}", "{1,4}"]


def expr(c, name, n, maxnot=1, groups=True, dom=PRINT):
    """A boolean expression of n operands with every choice of & and |, up to
    maxnot ! before each operand, and optionally one parenthesised range."""
    span = (0, 0)
    if groups and n >= 1:
        spans = [(0, 0)] + [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
        span = c.choose(name + "span", spans)
    out = ""
    for i in range(n):
        if i:
            out = out + c.choose(name + "op%d" % i, [" & ", " | "])
        if span[0] == i and span[1] > i:
            out = out + "!" * c.choose(name + "gn", list(range(min(maxnot, 1) + 1))) + "("
        out = out + "!" * c.choose(name + "n%d" % i, list(range(maxnot + 1)))
        out = out + "abcdefgh"[i] + '="' + c.char(name + "v%d" % i, dom) + '"'
        if span[1] == i + 1 and span[1] > span[0]:
            out = out + ")"
    return out


def main(c, name, n, groups=True, quants=None, seg=True, dom=PRINT):
    """n segments with every choice of juxtaposition and |, optionally one parenthesised range."""
    span = (0, 0)
    if groups:
        spans = [(0, 0)] + [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
        span = c.choose(name + "span", spans)
    out = ""
    for i in range(n):
        if i:
            out = out + c.choose(name + "sep%d" % i, [" ", "|"])
        if span[0] == i and span[1] > i:
            out = out + "("
        kind = c.choose(name + "k%d" % i, ["lit", "seg"]) if seg and i == 0 else "lit"
        ch = c.char(name + "v%d" % i, dom)
        out = out + ('"' + ch + '"' if kind == "lit" else '[w="' + ch + '"]')
        if quants:
            out = out + c.choose(name + "q%d" % i, quants)
        if span[1] == i + 1 and span[1] > span[0]:
            out = out + ")"
            if quants:
                out = out + c.choose(name + "gq", quants)
    return out


# -- combinations of features --------------------------------------------------

DIGIT = ((48, 57),)
ITEMS = {
    "segment": "[%s]", "literal": None, "wildcard": "[]", "group": "([%s])", "not": "[!%s]", "and": '[%s & lemma="l"]',
    "or": '[lemma=\'l\' | %s]', "notgroup": '[!(%s | norm!="n")]', "alternatives": '([%s] | "o")', "deep": '(([%s])+ "o")', "row": '("o" [%s])',
}
FRAMES = ["%s", '"f" %s', '%s "f"', '"f" | %s', '%s|"f" "g"', '("f" %s){1,2}', '(%s)?', ' "f"*[] %s | []']
SCOPES = ["sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session"]


def features(c, idents):
    return {
        "item": lambda: c.choose("item", list(ITEMS)),
        "quant": lambda: c.choose("quant", [lambda: "*", lambda: "+", lambda: "?", lambda: "{" + c.char("d", DIGIT) + "}",
                                            lambda: "{" + c.char("d", DIGIT) + ",}", lambda: "{," + c.char("d", DIGIT) + "}",
                                            lambda: "{" + c.char("d", DIGIT) + "," + c.char("e", DIGIT) + "}",
                                            lambda: "{" + c.char("d", DIGIT) + "," + c.chars("e", 2, DIGIT) + "}"])(),
        "flags": lambda: "/" + c.choose("flags", ["i", "Id", "l", "cic", "dC"]),
        "op": lambda: "!=",
        "quote": lambda: "'",
        "qualifier": lambda: c.choose("qualifier", ["q:", "UD17:", "within:", "s : ", "x-y:"]),
        "ident": lambda: c.choose("ident", idents),
        "value": lambda: c.choose("value", [lambda: c.char("v", PRINT2), lambda: "", lambda: "NOUN", lambda: "\\u00e9\\n\\.",
                                            lambda: "a" + c.char("v", ((0x80, 0x2FF),)) + "b c"])(),
        "frame": lambda: c.choose("frame", FRAMES),
        "scope": lambda: c.choose("scope", [" within " + w for w in SCOPES]),
    }


IDENTS = ["word", "pos", "x-a", "foo", "text", "within", "s", "sentence", "A-9"]
VARIED = "two of: kind of item (11), quantifier (8, digits arbitrary), flags (5), operator, quotes, qualifier (5), layer (%d), value (5, " \
         "characters arbitrary), surrounding query (8), within clause (10 scopes)"


def varied_bounds(idents=IDENTS, triples=False):
    return "queries that combine any " + ("three of:" + VARIED[6:] if triples else VARIED) % len(idents)


def varied(c, ident="lemma", idents=IDENTS, triples=False, skip=()):
    """A query that departs from the plainest one in two (three) features."""
    from itertools import combinations
    fs = features(c, idents)
    names = [n for n in fs if n not in skip]
    vary = c.choose("vary", list(combinations(names, 3 if triples else 2)))
    f = {"item": "segment", "quant": "", "flags": "", "op": "=", "quote": '"', "qualifier": "", "ident": ident, "value": "v", "frame": "%s",
         "scope": ""}
    for n in vary:
        f[n] = fs[n]()
    lit = f["quote"] + f["value"] + f["quote"] + f["flags"]
    item = ITEMS[f["item"]]
    if item is None:
        item = lit
    else:
        a, b = (item.split("%s") + [None])[:2]
        if b is not None:
            item = a + f["qualifier"] + f["ident"] + f["op"] + lit + b
    a, b = f["frame"].split("%s")
    return a + item + f["quant"] + b + f["scope"]
