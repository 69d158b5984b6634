from fcsql.parser import Operator, RegexFlag

from sx.ctx import case
from cases import gen
from cases.common import parse
from cases.vcommon import surroundings, expr, judge

W = gen.ALNUM


def show(c, e, quals, ids=None):
    c.show("layer", e.identifier)
    c.show("qualifier", e.qualifier)
    c.show("allowed", quals)
    judge(c, e, quals=quals, ids=ids)


@case("C18", bounds="layer and qualifier of 1-2 arbitrary characters; one entry with an arbitrary layer of the same length and None or "
                    "0-2 arbitrary qualifiers", weight=2)
def one_entry(c):
    n, m = c.choose("n", [1, 2]), c.choose("m", [1, 2])
    qs = c.choose("k", [None, 0, 1, 2])
    entry = (c.chars("L", n), None if qs is None else [c.chars("Q%d" % i, m) for i in range(qs)])
    x = c.chars("l", n)
    show(c, expr(x, c.chars("q", m)), [entry], ids=[x])


@case("C18", bounds="2-3 entries for different layers, each None or 1-2 arbitrary qualifiers; layer and qualifier arbitrary characters",
      weight=3)
def entries(c):
    k = c.choose("k", [2, 3])
    quals = []
    names = ["a", "b", "c"]
    for i in range(k):
        n = c.choose("n%d" % i, [None, 1, 2])
        quals.append((names[i], None if n is None else [c.chars("Q%d%d" % (i, j), 1) for j in range(n)]))
    x = c.char("l", W)
    show(c, expr(x, c.char("q")), quals, ids=[x])


@case("C18", bounds="all known layers with None or lists, in any rotation, each layer and word, x-a, foo with a qualifier near a listed one")
def known_layers(c):
    base = [("text", None), ("lemma", ["a", "ab"]), ("pos", ["UD17", "stts"]), ("orth", []), ("x-a", ["q"])]
    r = c.choose("rot", list(range(len(base))))
    quals = base[r:] + base[:r]
    ident = c.choose("l", ["text", "lemma", "pos", "orth", "norm", "word", "x-a", "foo", "tex", "posx"])
    w = c.choose("q", ["a", "ab", "UD17", "stts", "q", "None"])
    i = c.choose("i", list(range(len(w) + 1)))
    q = w if i == len(w) else w[:i] + c.char("h") + w[i + 1:]
    show(c, expr(ident, q), quals, ids=c.choose("ids", [None, ["lemma", "foo"]]))


LAYERS = ["text", "lemma", "pos", "orth", "norm", "phonetic", "word", "x-a", "X-a", "foo", "Text", "words"]


@case("C18", bounds="any of 12 layer names in one or two different entries, each with one qualifier or None, and the same or another of them in "
                    "the expression")
def layer_pairs(c):
    a, b = c.choose("a", LAYERS), c.choose("b", [None] + LAYERS)
    c.assume(a != b)
    quals = [(a, c.choose("qa", [None, ["q"]]))] + ([(b, ["q"])] if b else [])
    show(c, expr(c.choose("l", LAYERS), c.choose("q", ["q", "r"])), quals, ids=c.choose("ids", [None, LAYERS]))


@case("C18", bounds="a qualifier that is a part, an extension or an anagram of a listed one")
def parts(c):
    listed = c.chars("Q", 3, W)
    k = c.choose("k", ["pre", "suf", "ext", "rev", "same", "char"])
    q = {"pre": listed[:2], "suf": listed[1:], "ext": listed + c.char("h", W), "rev": listed[::-1], "same": listed,
         "char": listed[1]}[k]
    show(c, expr("lemma", q), [("lemma", [listed])])


@case("C18", bounds="no configuration (None or empty): any qualifier of 1-3 characters, any layer of 1-3 characters")
def unconfigured(c):
    x = c.chars("l", c.choose("n", [1, 2, 3]))
    show(c, expr(x, c.chars("q", c.choose("m", [1, 2, 3]))), c.choose("none", [None, []]), ids=[x])


@case("C18", bounds="an expression without qualifier, any layer of 1-4 characters, listed or not")
def unqualified(c):
    x = c.chars("l", c.choose("n", [1, 2, 3, 4]))
    quals = c.choose("cfg", [[("text", None)], [("lemma", ["a"]), ("text", [])]]) + [(c.chars("L", 1), None)]
    show(c, expr(x, None), quals, ids=c.choose("ids", [None, ["text", "a"]]))


@case("C18", bounds="layer judgement and qualifier judgement combine: arbitrary layer of 1-4 characters with and without identifier list")
def combined(c):
    x = c.chars("l", c.choose("n", [1, 3, 4]))
    ids = c.choose("ids", [None, ["pos", "a"], ["word"]])
    quals = [("pos", ["q"]), ("word", None), ("a", ["r", "q"])]
    show(c, expr(x, c.choose("q", ["q", "r", "z", None])), quals, ids=ids)


@case("C18", bounds="parsed queries of 2-3 comparisons in any of 6 structures, each with any of 3 layers and with no, a listed, or an "
                    "unlisted qualifier", weight=2)
def parsed(c):
    parts_ = []
    for i in range(3):
        l = c.choose("l%d" % i, ["lemma", "text", "pos"] if i == 0 else ["lemma", "text"])
        q = c.choose("q%d" % i, ["", "a:", "b:"])
        parts_.append(q + l + '=".*"')
    f = c.choose("f", ["[%s & %s] [%s]", "[%s | !(%s & %s)]", "([%s] | [%s]){2} [%s]", "[%s] | [%s] [] [%s] within s",
                       '[!%s] ("x" [%s & !%s])', "[(%s | %s) & %s]+"])
    q = f % tuple(parts_)
    c.show("query", q)
    judge(c, parse(q).tree, query=q, quals=[("lemma", ["a"]), ("text", None), ("pos", ["b", "a"])])


@case("C18", bounds="a parsed comparison with qualifier and layer of 1-2 arbitrary characters each against arbitrary entries")
def parsed_any(c):
    q = "[" + c.chars("q", c.choose("n", [1, 2]), W) + ":" + c.chars("l", c.choose("m", [1, 2]), W) + '=".*"]'
    c.show("query", q)
    o = parse(q)
    if not o.ok:
        return
    judge(c, o.tree, query=q, quals=[(c.char("L", W), [c.char("Q", W)]), ("tt", ["q", c.chars("R", 2, W)])])


@case("C18", bounds="4 entries for different layers, arbitrary qualifiers of 1-2 characters", tier="thorough", weight=3)
def entries4(c):
    quals = []
    for i in range(4):
        n = c.choose("n%d" % i, [None, 0, 1, 2])
        quals.append(("abcd"[i], None if n is None else [c.chars("Q%d%d" % (i, j), 1 + j) for j in range(n)]))
    x = c.char("l", W)
    show(c, expr(x, c.chars("q", c.choose("m", [1, 2]))), quals, ids=[x])


@case("C18", bounds="a listed, unlisted or no qualifier on a listed or unlisted layer, either operator, flagged or not, under any three "
                    "nested parents", weight=2)
def surrounded(c):
    e = expr(c.choose("l", ["lemma", "text"]), c.choose("q", [None, "a", "b"]), op=c.choose("op", list(Operator)),
             flags=c.choose("flags", [None, {RegexFlag.CASE_INSENSITIVE}]))
    judge(c, surroundings(c, e), quals=[("lemma", ["a"])])


@case("C18", bounds="1..257 entries or 1..257 qualifiers in an entry, the sought one nowhere, first, in the middle or last; names of 1..257 "
                    "characters")
def sizes(c):
    n = c.choose("n", [4, 5, 6, 8, 9, 11, 16, 17, 21, 33, 65, 101, 129, 257])
    what = c.choose("what", ["entries", "qualifiers", "name", "layer"])
    at = c.choose("at", ["no", "first", "mid", "last"])
    ch = c.char("h", W)
    i = {"no": None, "first": 0, "mid": n // 2, "last": n - 1}[at]
    if what == "entries":
        quals = [("l%d" % j, ["z"]) for j in range(n)]
        if i is not None:
            quals[i] = ("lemma", ["a", ch])
        e = expr("lemma", "q")
    elif what == "qualifiers":
        qs = ["r%d" % j for j in range(n)]
        if i is not None:
            qs[i] = "q" + ch
        quals = [("text", ["q" + ch]), ("lemma", qs)]
        e = expr("lemma", c.choose("q", ["qa", "q", "r0", "r%d" % (n - 1)]))
    elif what == "name":
        w = "abcdefgh" * (n // 8 + 1)
        q = w[:n]
        if i is not None:
            q = q[:i] + ch + q[i + 1:]
        quals = [("lemma", [w[:n]])]
        e = expr("lemma", q)
    else:
        w = "abcdefgh" * (n // 8 + 1)
        q = w[:n]
        if i is not None:
            q = q[:i] + ch + q[i + 1:]
        quals = [(w[:n], ["q"])]
        e = expr(q, "q")
    judge(c, e, quals=quals, ids=[e.identifier])


@case("C18", bounds=gen.varied_bounds(), weight=2)
def varied(c):
    q = gen.varied(c)
    c.show("query", q)
    o = parse(q)
    if o.ok:
        judge(c, o.tree, query=q, quals=[("text", None), ("lemma", ["q", "s"]), ("word", ["within"]), ("pos", [])])


@case("C18", bounds=gen.varied_bounds(triples=True), weight=4, tier="thorough")
def varied3(c):
    q = gen.varied(c, triples=True)
    c.show("query", q)
    o = parse(q)
    if o.ok:
        judge(c, o.tree, query=q, quals=[("text", None), ("lemma", ["q", "s"]), ("word", ["within"]), ("pos", [])])
