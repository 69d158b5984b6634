"""Finite sets of integers as sorted tuples of inclusive intervals."""
from functools import lru_cache

MAXCP = 0x10FFFF
ALL = ((0, MAXCP),)
EMPTY = ()


def norm(pairs):
    out = []
    for lo, hi in sorted(p for p in pairs if p[0] <= p[1]):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def of_chars(chars):
    return norm([(ord(c), ord(c)) for c in chars])


def of_ints(ints):
    return norm([(i, i) for i in ints])


def single(i):
    return ((i, i),)


@lru_cache(maxsize=200000)
def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
        hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@lru_cache(maxsize=200000)
def minus(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for blo, bhi in b:
            if bhi < cur:
                continue
            if blo > hi:
                break
            if blo > cur:
                out.append((cur, blo - 1))
            cur = bhi + 1
            if cur > hi:
                break
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def union(a, b):
    return norm(a + b)


def shift(a, off):
    return tuple((lo + off, hi + off) for lo, hi in a)


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def subset(a, b):
    return inter(a, b) == a


def has(a, x):
    for lo, hi in a:
        if lo <= x <= hi:
            return True
    return False


def elems(a):
    for lo, hi in a:
        yield from range(lo, hi + 1)


def pick(a):
    """A pleasant representative: prefer printable ASCII letters."""
    for pref in (((97, 122),), ((65, 90),), ((48, 57),), ((33, 126),)):
        r = inter(a, pref)
        if r:
            return r[0][0]
    return a[0][0]


@lru_cache(maxsize=None)
def of_pred(pred):
    """RangeSet of the code points c with pred(chr(c)) (pred: a hashable function)."""
    out = []
    start = None
    for c in range(MAXCP + 1):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAXCP))
    return tuple(out)
