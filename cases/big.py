"""Wide and long queries: structures of many parts and tokens of many characters, a few of the characters symbolic."""
from cases import gen

WIDTHS = [5, 6, 7, 9, 10, 11, 13, 17, 21, 33, 41, 65, 81, 101, 129, 257]
LENGTHS = [10, 13, 17, 21, 33, 41, 51, 65, 81, 101, 129, 257, 513, 1025, 4097]
MORE_WIDTHS = sorted(set(list(range(5, 131)) + WIDTHS + [150, 160, 192, 255, 500, 512, 513, 1001]))
MORE_LENGTHS = sorted(set(list(range(4, 135)) + LENGTHS + [255, 1000, 1023, 1024, 2048, 4095, 4096, 8193, 10001, 16385, 65537]))
BOUNDS = ("queries with %s parts (%s; each with three arbitrary characters in the first, a middle and the last part) (& and |: up to 33) and tokens of %s "
          "characters (%s; arbitrary first, middle and last character)")


def q(s):
    return '"' + s + '"'


def parts(c, n, dom, fmt):
    """n parts fmt % text, the text of three of them with an arbitrary character."""
    out = []
    marked = {0: "f", n // 2: "m", n - 1: "l"}
    for i in range(n):
        t = "t%d" % i
        if i in marked:
            t = c.char("v" + marked[i], dom) + "\\x41" + t
        f = fmt[i % len(fmt)]
        if "%" in f:
            a, b = f.split("%")
            f = a + t + b
        out.append(f)
    return out


def join(sep, xs):
    out = xs[0]
    for x in xs[1:]:
        out = out + sep + x
    return out


def mixed(xs):
    out = xs[0]
    for i, x in enumerate(xs[1:]):
        out = out + (" | " if i % 3 == 2 else "&") + x
    return out


MAXW = {"& and |": 33}
SEG = ['"%"', "'%'/i", '[a="%"]', '[q:lemma != "%"]{2,3}', '[!pos="%"/Id]*', '("%")+']
OPS = ['a="%"', "b!='%'", 'q:c="%"/i', '!d="%"', '(e="%")']
WIDE = {
    "sequence": lambda c, n, d: join(" ", parts(c, n, d, ['"%"'])),
    "sequence in a group": lambda c, n, d: "( " + join(" ", parts(c, n, d, SEG)) + "){1,2} within p",
    "sequence of all kinds of parts": lambda c, n, d: join(" ", parts(c, n, d, SEG)),
    "sequence with within": lambda c, n, d: join("", parts(c, n, d, ['"%"', "[]"])) + " within text",
    "disjunction": lambda c, n, d: join("|", parts(c, n, d, SEG)),
    "disjunction with within": lambda c, n, d: join(" | ", parts(c, n, d, ['"%"', '"%" "y"', "[]{,2}"])) + " within s",
    "&": lambda c, n, d: "[" + join(" & ", parts(c, n, d, OPS if n <= 21 else OPS[:3])) + "]",
    "|": lambda c, n, d: "[" + join("|", parts(c, n, d, OPS if n <= 21 else OPS[:3])) + "]+",
    "& and |": lambda c, n, d: "[" + mixed(parts(c, n, d, OPS[:3])) + "]",
    "wildcards": lambda c, n, d: "[]" * (n - 1) + '"' + c.char("v", d) + '"',
}
LONG = {
    "literal": lambda c, w, d: q(word(c, w, d, "lorem ipsum ")),
    "comparison value": lambda c, w, d: "[a='" + word(c, w, d, "Dolor sit-amet") + "'/d] \"z\"",
    "escapes": lambda c, w, d: q(word(c, w, d, "\\n\\x41\\u00e9\\.", closed=True)),
    "identifier": lambda c, w, d: "[" + word(c, w, gen.LETTER, "x-abcdefgh-") + '="v" & b != "w"]',
    "qualifier": lambda c, w, d: "[" + word(c, w, gen.LETTER, "Q-abcdefgh") + ':pos="v"]',
    "blanks": lambda c, w, d: '"a"' + word(c, w, (32, 9), " \t") + '"b" within' + " " * w + "u",
    "flags": lambda c, w, d: q("a") + "/" + c.char("f", "ic") + ("icd" * w)[:w - 2] + c.char("l", "id"),
    "number": lambda c, w, d: '"a"{' + "0" * (w - 1) + c.char("g", ((48, 57),)) + "," + word(c, w, ((49, 57),), "1234567890") + "}",
}


DEPTHS = [3, 4, 5, 6, 8, 11, 17, 33]
MORE_DEPTHS = list(range(3, 34)) + [40, 48, 50, 64]


def nest(n, core, left, right):
    """core inside n pairs left(i), right(i), i = 0 outermost."""
    out = core
    for i in range(n - 1, -1, -1):
        out = left(i) + out + right(i)
    return out


QUANT = ["", "*", "+", "?", "{2}", "{3,}", "{,4}", "{5,6}"]
DEEP = {
    "groups": lambda c, n, d: nest(n, q("\\u00e9" + c.char("v", d)), lambda i: "(", lambda i: ")"),
    "groups with quantifiers": lambda c, n, d: nest(n, q(c.char("v", d)) + "/i", lambda i: "( ", lambda i: ")" + QUANT[i % 8]) + " within s",
    "groups in sequences": lambda c, n, d: nest(n, "[]", lambda i: q(c.char("v", d) if i == n // 2 else "l%d" % i) + "(",
                                                lambda i: ')? [r="%d"]' % i),
    "groups in disjunctions": lambda c, n, d: nest(min(n, 17), q(c.char("v", d)), lambda i: '("l%d" | ' % i, lambda i: ")"),
    "expression groups": lambda c, n, d: "[" + nest(n, "a='\\." + c.char("v", d) + "'", lambda i: "(", lambda i: ")") + "]",
    "expression groups with &": lambda c, n, d: "[" + nest(n, "a='" + c.char("v", d) + "'/d", lambda i: 'l="%d"&(' % i,
                                                           lambda i: ') & r != "%d"' % i) + "]+",
    "expression groups with & and |": lambda c, n, d: "[" + nest(min(n, 8), 'a="' + c.char("v", d) + '"', lambda i: 'l="%d"%s(' % (i, "&|"[i % 2]),
                                                                 lambda i: ")") + "]",
    "negated groups": lambda c, n, d: "[" + nest(min(n, 17), 'a!="' + c.char("v", d) + '"', lambda i: "!(", lambda i: ")") + "]",
}


def word(c, n, dom, text, closed=False):
    """n characters repeating text, the first, a middle and the last one arbitrary (closed: arbitrary ones come between whole copies)."""
    if closed:
        k = max(1, n // len(text) // 2)
        return c.char("f", dom) + text * k + c.char("m", dom) + text * k + c.char("l", dom)
    m = n // 2
    s = (text * (n // len(text) + 1))[:n]
    return c.char("f", dom) + s[1:m] + c.char("m", dom) + s[m + 1:n - 1] + c.char("l", dom)


def query(c, dom=gen.PRINT2, wide=None, long=None, tier="quick", maxw=None, maxl=None, deep=None):
    """A big query; wide / long name the structures (default: all)."""
    wide = list(WIDE) if wide is None else wide
    long = list(LONG) if long is None else long
    deep = list(DEEP) if deep is None else deep
    k = c.choose("big", ["wide " + x for x in wide] + ["long " + x for x in long] + ["deep " + x for x in deep])
    n = k[5:]
    if k.startswith("wide"):
        ws = [x for x in (WIDTHS if tier == "quick" else MORE_WIDTHS) if x <= min(maxw or x, MAXW.get(n, x))]
        return WIDE[n](c, c.choose("width", ws), dom)
    if k.startswith("deep"):
        return DEEP[n](c, c.choose("depth", DEPTHS if tier == "quick" else MORE_DEPTHS), dom)
    ls = [x for x in (LENGTHS if tier == "quick" else MORE_LENGTHS) if not maxl or x <= maxl]
    return LONG[n](c, c.choose("length", ls), dom)


def bounds(wide=None, long=None, tier="quick", maxw=None, maxl=None, deep=None):
    ws, ls = (WIDTHS, LENGTHS) if tier == "quick" else (MORE_WIDTHS, MORE_LENGTHS)
    f = lambda xs, m: ",".join(str(x) for x in xs if not m or x <= m)
    deep = DEEP if deep is None else deep
    more = "; nested %s deep (%s)" % (f(DEPTHS if tier == "quick" else MORE_DEPTHS, None), ", ".join(deep)) if deep else ""
    return BOUNDS % (f(ws, maxw), ", ".join(WIDE if wide is None else wide), f(ls, maxl), ", ".join(LONG if long is None else long)) + more


FAULTY = ["sequence of all kinds of parts", "disjunction with within", "&"], ["literal", "comparison value", "identifier", "blanks", "number"], [
    "groups in sequences", "expression groups"]


FAULTS = ["%s )", '%s "open', "%s \u00a7", "%s{2", "%s within", "] %s", "\u00a7%s"]
OPEN = ["'%s", '[a="b%s', '"c" - %s', '\\ "d" %s']


def faulty(c, tier="quick"):
    """A big query with a fault after or before it."""
    k = c.choose("fault", FAULTS + OPEN)
    a, b = k.split("%s")
    dom, w = (((110, 122),), 33) if k in OPEN else (gen.PRINT2, 65)
    return a + query(c, dom, wide=FAULTY[0], long=FAULTY[1], deep=FAULTY[2], tier=tier, maxw=w if tier == "quick" else 300) + b


def faulty_bounds(tier="quick"):
    return bounds(FAULTY[0], FAULTY[1], tier, 65 if tier == "quick" else 300, deep=FAULTY[2]) + (
        "; each with a fault: a stray ), an unclosed literal, a character of no token, an open quantifier or within clause at the end, "
        "a stray ], a character of no token, an unclosed literal (alone, in a comparison) or a piece of text of no token in front (these four up to 33 parts, the arbitrary "
        "characters among n to z)")
