"""Reference tokeniser for FCS-QL, written from FCSLexer.g4's text (longest
match, first rule wins), independent of the generated automaton."""

WS = ("\u0009\u000A\u000B\u000C\u000D\u0020\u0085\u00A0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
      "\u2009\u200A\u2028\u2029\u202F\u205F\u3000")
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
HEX = "0123456789abcdefABCDEF"
FLAGS = "iIcCld"
SCOPES = ("sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session")
PUNCT = {
    "(": "L_PAREN", ")": "R_PAREN", "[": "L_SQUARE", "]": "R_SQUARE", "|": "OR", "&": "AND", "/": "SLASH",
    "{": "L_CURLY", "}": "R_CURLY", "+": "PLUS", "*": "STAR", "?": "QMARK", ",": "COMMA", "=": "EQ", ":": "COLON",
}
PUNCT_CHARS = "()[]|&/{}+*?,=:"
SIMPLE_ESC = "\\'\"nt.^$*+?(){}[]|"

# word-like token types that may serve as identifier / qualifier
WORDS = ("IDENT", "WITHIN", "SCOPE", "FLAGS")


class Tok:
    def __init__(self, type, start, stop, text):
        self.type = type
        self.start = start
        self.stop = stop
        self.text = text


def quoted(q, i):
    """Scan a quoted string starting at i. Returns (end, None) or (None, index
    at which no continuation exists)."""
    quote = q[i]
    n = len(q)
    j = i + 1
    while True:
        if j >= n:
            return None, n
        c = q[j]
        if c == quote:
            return j + 1, None
        if c == "\\":
            j += 1
            if j >= n:
                return None, n
            e = q[j]
            if e in SIMPLE_ESC:
                j += 1
                continue
            if e == "x":
                k = 2
            elif e == "u":
                k = 4
            elif e == "U":
                k = 8
            else:
                return None, j
            j += 1
            for _ in range(k):
                if j >= n:
                    return None, n
                if q[j] not in HEX:
                    return None, j
                j += 1
        else:
            j += 1


def word_type(w):
    if w == "within":
        return "WITHIN"
    if w in SCOPES:
        return "SCOPE"
    allflags = True
    for c in w:
        if c not in FLAGS:
            allflags = False
            break
    if allflags:
        return "FLAGS"
    return "IDENT"


def tokenize(q):
    """Returns (tokens, starts of the pieces of text that are no token)."""
    toks, bad = [], []
    i, n = 0, len(q)
    while i < n:
        c = q[i]
        if c in WS:
            i += 1
            continue
        if c == '"' or c == "'":
            end, fail = quoted(q, i)
            if end is None:
                bad.append(i)
                i = fail + 1
            else:
                toks.append(Tok("REGEXP", i, end, q[i:end]))
                i = end
            continue
        if c == "!":
            if i + 1 < n and q[i + 1] == "=":
                toks.append(Tok("NE", i, i + 2, "!="))
                i += 2
            else:
                toks.append(Tok("NOT", i, i + 1, "!"))
                i += 1
            continue
        if c in PUNCT_CHARS:
            for p in PUNCT_CHARS:
                if c == p:
                    toks.append(Tok(PUNCT[p], i, i + 1, p))
                    break
            i += 1
            continue
        if c in DIGITS:
            j = i + 1
            while j < n and q[j] in DIGITS:
                j += 1
            toks.append(Tok("INT", i, j, q[i:j]))
            i = j
            continue
        if c in LETTERS:
            # a letter, then letters/digits/hyphens, ending in a letter or digit
            end = i + 1
            j = i + 1
            while j < n:
                d = q[j]
                if d in LETTERS or d in DIGITS:
                    j += 1
                    end = j
                elif d == "-":
                    j += 1
                else:
                    break
            w = q[i:end]
            toks.append(Tok(word_type(w), i, end, w))
            i = end
            continue
        bad.append(i)
        i += 1
    return toks, bad
