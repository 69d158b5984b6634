"""Small functions in many styles; enginetest.py runs them symbolically and concretely and compares."""
import re
import string

TABLE = {"a": 1, "b": 2, "n": "\n", "\\": None}
HEX = "0123456789abcdef"


class Err(Exception):
    pass


def hex1(c):
    if "0" <= c <= "9":
        return ord(c) - ord("0")
    elif "a" <= c <= "f":
        return ord(c) - ord("a") + 10
    elif c in "ABCDEF":
        return 10 + "ABCDEF".index(c)
    raise Err(c)


def hex2(c):
    v = HEX.find(c.lower())
    if v < 0:
        raise Err("no")
    return v


def hex3(s):
    v = 0
    for ch in s:
        v <<= 4
        v |= hex1(ch)
    return v


def hex4(s):
    try:
        return int(s, 16)
    except ValueError:
        return -1


def hex5(s):
    return sum(hex2(c) * 16 ** i for i, c in enumerate(reversed(s)))


def inline(s):
    out = []
    for c in s:
        if c.isdigit():
            k = "d"
        elif c.isalpha() and c < "m":
            k = "l"
        elif c == "_" or c == "-":
            k = c
        else:
            k = "?"
        out.append(k)
    return "".join(out)


def count(s):
    n = m = 0
    for c in s:
        if c in "aeiou":
            n += 1
        if c == "x" or c == "y" or "0" <= c < "5":
            m = n + 1
    return n, m


def tern(s):
    return "-".join(("A" if c == "a" else "BB" if c == "b" else c.upper()) for c in s)


def kind(c):
    return "digit" if c in string.digits else "letter" if c in string.ascii_letters else None


def unbound(c):
    if c == "q":
        z = 1
    elif c == "w":
        z = 2
    try:
        return z
    except UnboundLocalError:
        return "unbound"


def loop(s):
    i = 0
    while i < len(s) and (s[i] == " " or s[i] == "\t"):
        i += 1
    j = len(s)
    while j > i and s[j - 1] in " \t":
        j -= 1
    return s[i:j], i


def matcher(c):
    match c:
        case "a" | "b":
            return 1
        case "c":
            return 2
        case _:
            return 3 if c > "m" else 4


def esc(s):
    it = iter(s)
    out = ""
    for c in it:
        if c != "\\":
            out += c
            continue
        d = next(it, None)
        if d is None:
            raise Err("end")
        out += {"n": "\n", "t": "\t"}.get(d, d)
    return out


def table(c):
    return TABLE.get(c, c)


def anyall(s):
    return any(c == "z" for c in s), all("a" <= c <= "z" for c in s), [c for c in s if c not in "ab"]


def objs(c):
    if c == "a":
        r = [1]
    else:
        r = {"k": c}
    return r


def flags(s):
    r = set()
    for c in s:
        if c in "iI":
            r.add("I")
        elif c in "cC":
            r.add("C")
    return sorted(r)


def nested(c):
    x = 0
    if c > "f":
        if c < "p":
            x = ord(c)
        else:
            x = 7
        y = x * 2
    else:
        y = 1
    return x, y, -x


def enc(s):
    try:
        return len(s.encode("utf-8"))
    except UnicodeEncodeError as ex:
        return ex.start


def enc2(s):
    try:
        return s.encode("ascii").decode("ascii")
    except UnicodeEncodeError:
        return None


def fmt(s):
    return "%s|%r" % (s, len(s)) + f"{s!s:>4}" if s.isascii() else "non"


def rx(s):
    return bool(re.fullmatch("[a-c]x?", s))


def bools(c):
    a = c == "a"
    b = c in "abc"
    return (a and b) or (not a and c > "x"), a != b, a is True


def chained(s):
    a, b = s[0], s[-1]
    return a < b < "m", a == b != "c"


def aug(s):
    r = ""
    n = 0
    for c in s:
        if c == "a":
            r += "1"
            n += 2
        elif c != "b":
            r += c
            n -= 1
    return r, n


def acc(s):
    lst = []
    for c in s:
        if c == "a":
            lst += ["A"]
        else:
            lst += [c, c]
    return lst


def early(s):
    for i, c in enumerate(s):
        if c == "'" or c == '"':
            return i
        if c == "\\":
            raise Err(i)
    return -1


def cmpstr(s):
    return s == "ab" or s.startswith("b") or s.endswith("c") or "aa" in s


def minmax(s):
    return min(s), max(s), sorted(s)[0]


def split(s):
    return s.split(","), s.partition("a"), s.strip("a")


def unbound2(c):
    z = None
    if c > "m":
        if c == "q":
            z = 1
            w = "a"
        elif c == "w":
            w = "b"
    elif c == "b":
        z = 2
        w = c
    try:
        return z, w
    except NameError:
        return z


def shared(s):
    base = ["x"]
    for c in s:
        lst = base
        if c == "a":
            lst = lst + [c]
        if c == "b":
            lst += ["B"]
    return base, lst


def clos(s):
    seen = []

    def add(c):
        if c == "a":
            k = 1
        else:
            k = 2
        seen.append(k)
        return k
    t = [add(c) for c in s]
    return seen, t


def tryval(c):
    try:
        v = "abc".index(c)
    except ValueError:
        v = -1
    return v + 1 if v >= 0 else v


def walrus(s):
    if (n := len(s)) > 1 and (c := s[0]) in "ab":
        return n, c
    return n


def gener(s):
    def g():
        for c in s:
            if c == "a":
                y = 1
            elif c == "b":
                y = 2
            else:
                return
            yield y
    return list(g())


def excmsg(s):
    try:
        if s[0] == "a" or s[1] == "b":
            raise Err("bad %s" % s)
        if s[0] not in "xyz":
            raise KeyError(s[0])
    except Err as ex:
        return str(ex)
    except KeyError as ex:
        return ex.args[0]
    return None


def finally_(c):
    log = []
    try:
        if c == "a":
            return "A", log
        v = {"b": 1, "c": 2}[c]
    except KeyError:
        v = 0
    finally:
        log.append("f")
    return v, log


def dictbuild(s):
    d = {}
    for c in s:
        d[c] = d.get(c, 0) + 1
    return sorted(d.values())


def setops(s):
    return len(set(s)), "a" in set(s), set(s) == {"a", "b"}, set(s) <= set("abc")


def bits(c):
    o = ord(c)
    return o & 0xF, o >> 4, o ^ 1, o | 0x20, o % 7, o // 3, -o, o * 2 == 194


def cmpall(s):
    return s < "b", s >= "ab", s == "x" + s[1], max(s, "bb")


def repl(s):
    return s.replace("a", "xyz").replace('"', "'"), s.translate({97: "Q", 98: None})


def casefn(s):
    return s.upper() == "AB", s.swapcase() if s.isascii() else None, s.title() if s.isascii() else None


def rx1(s):
    return bool(re.fullmatch("[a-c]x?", s)), re.match(r"\w+", s) is not None, re.search("b|,", s) is not None


UNI = re.compile(r"(?P<h>[^\W_])(.)?|(\s)", re.I)


def rx2(s):
    m = UNI.search(s)
    if m is None:
        return None
    return m.group(), m.groups(), m.start(), m.end(), m["h"], m.lastindex, m.groupdict()


def rx3(s):
    return re.sub(r"\\(.)", r"<\1>", s), re.sub("[ab]*", "-", s), re.split("[,a]", s), re.findall("a|b|(x)", s)


def rx4(s):
    return re.sub("[abc]", lambda m: m.group().upper(), s), [m.span() for m in re.finditer(r"\b", s)], re.search("c$", s) is None


def rx5(s):
    return re.match(r"(.)\1", s) is None, re.match("(?=.b)a", s) is None, re.search("(?<!a)b", s) is None, re.match("a*?$", s) is None


def rx6(s):
    return re.fullmatch("[A-C\xc9]+", s, re.I) is None, re.match(r"[^\S\n]", s) is not None


def arith1(s):
    return len(s) - (s[0] == "a") + 2 * s.startswith("n")


def arith2(s):
    return sum(ch == "a" for ch in s), ("no", "yes")["a" in s], f"{s[0] == 'a'}", str(s[0] > "b")


def arith3(s):
    n = 0
    for ch in s:
        n += ch == "_"
        n = n * 2 - ch.isdigit()
    return n, -(n == 1), True ^ (s[-1] == "x"), int(s == "ab") or None


def enc3(s):
    out = []
    for e, m in (("utf-16-le", "surrogatepass"), ("utf-16", "ignore"), ("utf-32", "replace"), ("ascii", "ignore"), ("latin-1", "replace"), ("utf-8", "ignore")):
        out.append(len(s.encode(e, m)))
    return out


FUNCS = [(f, n) for f, n in [(hex1, 1), (hex2, 1), (hex3, 2), (hex4, 2), (hex5, 2), (inline, 2), (count, 2), (tern, 2), (kind, 1), (unbound, 1),
                             (loop, 3), (matcher, 1), (esc, 2), (table, 1), (anyall, 2), (objs, 1), (flags, 2), (nested, 1), (enc, 2), (enc2, 2), (enc3, 2),
                             (fmt, 2), (bools, 1), (chained, 2), (aug, 2), (acc, 2), (early, 3), (cmpstr, 2), (minmax, 2), (split, 2), (unbound2, 1), (shared, 2), (clos, 2), (tryval, 1),
                             (walrus, 2), (gener, 2), (excmsg, 2), (finally_, 1), (dictbuild, 2), (setops, 2), (bits, 1),
                             (arith1, 2), (arith2, 2), (arith3, 3), (cmpall, 2), (repl, 2), (casefn, 2),
                             (rx1, 2), (rx2, 2), (rx3, 2), (rx4, 2), (rx5, 2), (rx6, 2)]]
