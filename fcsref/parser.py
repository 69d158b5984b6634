"""Reference parser for FCS-QL: recursive descent over reference tokens,
producing plain nodes. ! binds tightest, then &, then |; juxtaposition binds
tighter than |."""
from fcsref.lexer import WORDS
from fcsref.lexer import tokenize

UNBOUNDED = -1


class RNode:
    def __init__(self, kind, children=(), attrs=None, start=0, stop=0, may_wrap=False):
        self.kind = kind
        self.children = list(children)
        self.attrs = attrs or {}
        self.start = start
        self.stop = stop
        self.may_wrap = may_wrap  # a one-element sequence around this node is allowed


class SyntaxErr(Exception):
    def __init__(self, idx):
        super().__init__()
        self.idx = idx


class SemErr(Exception):
    pass


def decode(body):
    """The text a literal's body (without quotes) denotes."""
    out = []
    i, n = 0, len(body)
    while i < n:
        c = body[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        e = body[i + 1]
        i += 2
        k = 0
        if e == "x":
            k = 2
        elif e == "u":
            k = 4
        elif e == "U":
            k = 8
        if k:
            v = 0
            for j in range(k):
                v = v * 16 + int(body[i + j], 16)
            if v > 0x10FFFF:
                raise SemErr("code point")
            out.append(chr(v))
            i += k
        elif e == "n":
            out.append("\n")
        elif e == "t":
            out.append("\t")
        elif e in "\\'\"":
            out.append(e)
        else:
            out.append("\\")
            out.append(e)
    return "".join(out)


class Parser:
    def __init__(self, q, toks, cfg):
        self.q = q
        self.t = toks
        self.i = 0
        self.cfg = cfg

    def la(self, k=0):
        j = self.i + k
        return self.t[j].type if j < len(self.t) else "EOF"

    def take(self, typ):
        if self.la() != typ:
            raise SyntaxErr(self.i)
        self.i += 1
        return self.t[self.i - 1]

    # -- query level ----------------------------------------------------
    def query(self):
        start = self.t[0].start if self.t else 0
        main = self.disjunction(top=True)
        if self.la() == "WITHIN":
            self.i += 1
            tok = self.take("SCOPE")
            if self.la() != "EOF":
                raise SyntaxErr(self.i)
            w = RNode("SimpleWithin", attrs={"scope": scope_of(tok.text)}, start=tok.start, stop=tok.stop)
            return RNode("QueryWithWithin", [main, w], start=start, stop=tok.stop)
        if self.la() != "EOF":
            raise SyntaxErr(self.i)
        return main

    def disjunction(self, top=False):
        parts = [self.sequence()]
        while self.la() == "OR":
            self.i += 1
            parts.append(self.sequence())
        if len(parts) == 1:
            if not top:
                parts[0].may_wrap = True
            return parts[0]
        for p in parts:
            if p.kind == "QueryGroup":
                p.may_wrap = True
        return RNode("QueryDisjunction", parts, start=parts[0].start, stop=parts[-1].stop)

    def sequence(self):
        items = [self.item()]
        while self.la() in ("REGEXP", "L_SQUARE", "L_PAREN"):
            items.append(self.item())
        if len(items) == 1:
            return items[0]
        return RNode("QuerySequence", items, start=items[0].start, stop=items[-1].stop)

    def item(self):
        t = self.la()
        if t == "L_PAREN":
            start = self.take("L_PAREN").start
            inner = self.disjunction()
            stop = self.take("R_PAREN").stop
            lo, hi, stop = self.quantifier(stop)
            return RNode("QueryGroup", [inner], {"min": lo, "max": hi}, start, stop)
        if t == "REGEXP":
            start = self.t[self.i].start
            text, flags, stop = self.regexp()
            e = RNode("Expression", attrs={
                "qualifier": None, "identifier": self.cfg.get("identifier", "text"),
                "operator": self.cfg.get("operator", "Eq"), "regex": text, "flags": flags}, start=start, stop=stop)
            lo, hi, stop = self.quantifier(stop)
            return RNode("QuerySegment", [e], {"min": lo, "max": hi}, start, stop)
        if t == "L_SQUARE":
            start = self.take("L_SQUARE").start
            if self.la() == "R_SQUARE":
                stop = self.take("R_SQUARE").stop
                e = RNode("ExpressionWildcard", start=start, stop=stop)
            else:
                e = self.expr_or()
                stop = self.take("R_SQUARE").stop
            lo, hi, stop = self.quantifier(stop)
            return RNode("QuerySegment", [e], {"min": lo, "max": hi}, start, stop)
        raise SyntaxErr(self.i)

    def quantifier(self, stop):
        t = self.la()
        if t == "STAR":
            return 0, UNBOUNDED, self.take(t).stop
        if t == "PLUS":
            return 1, UNBOUNDED, self.take(t).stop
        if t == "QMARK":
            return 0, 1, self.take(t).stop
        if t != "L_CURLY":
            return 1, 1, stop
        self.i += 1
        lo = hi = None
        if self.la() == "INT":
            lo = decimal(self.take("INT").text)
            if self.la() == "COMMA":
                self.i += 1
                if self.la() == "INT":
                    hi = decimal(self.take("INT").text)
                else:
                    hi = UNBOUNDED
            else:
                hi = lo
        else:
            self.take("COMMA")
            lo = 0
            hi = decimal(self.take("INT").text)
        stop = self.take("R_CURLY").stop
        self.check_range(lo, hi)
        return lo, hi, stop

    def check_range(self, lo, hi):
        self.ranges = getattr(self, "ranges", [])
        if not (isinstance(hi, int) and hi == UNBOUNDED):
            self.ranges.append((lo, hi))

    # -- literal ----------------------------------------------------------
    def regexp(self):
        tok = self.take("REGEXP")
        stop = tok.stop
        flags = None
        if self.la() == "SLASH":
            self.i += 1
            f = self.take("FLAGS")
            stop = f.stop
            flags = f.text
        self.literals = getattr(self, "literals", [])
        lit = Literal(tok.text[1:-1], flags)
        self.literals.append(lit)
        return lit, lit, stop

    # -- expression level -------------------------------------------------
    def expr_or(self):
        parts = [self.expr_and()]
        while self.la() == "OR":
            self.i += 1
            parts.append(self.expr_and())
        if len(parts) == 1:
            return parts[0]
        return RNode("ExpressionOr", parts, start=parts[0].start, stop=parts[-1].stop)

    def expr_and(self):
        parts = [self.expr_not()]
        while self.la() == "AND":
            self.i += 1
            parts.append(self.expr_not())
        if len(parts) == 1:
            return parts[0]
        return RNode("ExpressionAnd", parts, start=parts[0].start, stop=parts[-1].stop)

    def expr_not(self):
        t = self.la()
        if t == "NOT":
            start = self.take("NOT").start
            e = self.expr_not()
            return RNode("ExpressionNot", [e], start=start, stop=e.stop)
        if t == "L_PAREN":
            start = self.take("L_PAREN").start
            e = self.expr_or()
            stop = self.take("R_PAREN").stop
            return RNode("ExpressionGroup", [e], start=start, stop=stop)
        return self.basic()

    def word(self):
        if self.la() not in WORDS:
            raise SyntaxErr(self.i)
        self.i += 1
        return self.t[self.i - 1]

    def basic(self):
        w = self.word()
        start = w.start
        qual = None
        if self.la() == "COLON":
            self.i += 1
            qual = w.text
            w = self.word()
        if self.la() == "EQ":
            op = "Eq"
        elif self.la() == "NE":
            op = "Ne"
        else:
            raise SyntaxErr(self.i)
        self.i += 1
        text, flags, stop = self.regexp()
        return RNode("Expression", attrs={"qualifier": qual, "identifier": w.text, "operator": op, "regex": text,
                                          "flags": flags}, start=start, stop=stop)


class Literal:
    """Body and flag letters of a literal; interpreted after the syntax is known to be right."""

    def __init__(self, body, letters):
        self.body = body
        self.letters = letters
        self.text = None
        self.flags = None

    def interpret(self):
        self.text = decode(self.body)
        self.flags = flag_set(self.letters)


def flag_set(letters):
    if letters is None:
        return None
    out = set()
    for c in letters:
        if c in "ic":
            out.add("i")
        elif c in "IC":
            out.add("I")
        elif c == "l":
            out.add("l")
        else:
            out.add("d")
    if "i" in out and "I" in out:
        raise SemErr("flags")
    if "l" in out and len(out) > 1:
        raise SemErr("flags")
    return frozenset(out)


def decimal(text):
    v = 0
    for c in text:
        v = v * 10 + (ord(c) - 48)
    return v


def scope_of(w):
    for full, short, name in (("sentence", "s", "Sentence"), ("utterance", "u", "Utterance"),
                              ("paragraph", "p", "Paragraph"), ("turn", "t", "Turn")):
        if w == full or w == short:
            return name
    if w == "text":
        return "Text"
    return "Session"


class Result:
    """kind: ok | lex | syn | sem"""

    def __init__(self, kind, tree=None, toks=None, bad=None, idx=None):
        self.kind = kind
        self.tree = tree
        self.toks = toks
        self.bad = bad
        self.idx = idx

    @property
    def ok(self):
        return self.kind == "ok"


def ref_parse(q, **cfg):
    toks, bad = tokenize(q)
    p = Parser(q, toks, cfg)
    try:
        tree = p.query()
    except SyntaxErr as ex:
        return Result("lex" if bad else "syn", None, toks, bad, ex.idx)
    if bad:
        return Result("lex", None, toks, bad, None)
    try:
        for lo, hi in getattr(p, "ranges", []):
            if hi < lo:
                raise SemErr("range")
        for lit in getattr(p, "literals", []):
            lit.interpret()
    except SemErr as ex:
        return Result("sem", None, toks, bad, None)
    fill(tree)
    return Result("ok", tree, toks, bad, None)


def fill(n):
    if n.kind == "Expression":
        n.attrs["flags"] = n.attrs["flags"].flags
        n.attrs["regex"] = n.attrs["regex"].text
    for c in n.children:
        fill(c)
