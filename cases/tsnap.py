"""Snapshots of trees: everything a node holds, with the identity of nodes and
child lists, to see whether something changed a tree."""
from cases.common import kind

FIELDS = ("node_type", "qualifier", "identifier", "operator", "regex", "regex_flags", "min_occurs", "max_occurs", "scope",
          "location", "children", "parent")
_NONE = object()


def fields(n):
    """The documented attributes and any further public ones (not what an implementation keeps to itself)."""
    names = list(FIELDS) + [k for k in getattr(n, "__dict__", {}) if not k.startswith("_") and k not in FIELDS]
    return [(k, v) for k, v in ((k, getattr(n, k, _NONE)) for k in names) if v is not _NONE]


def snap(t):
    out = []
    _snap(t, out)
    return out


def _snap(n, out):
    vals = {}
    for k, v in fields(n):
        if isinstance(v, list):
            vals[k] = ("list", v, tuple(v))
        elif isinstance(v, (set, frozenset)):
            vals[k] = ("set", v, frozenset(v))
        else:
            vals[k] = ("val", v, v)
    out.append((n, vals))
    for x in n.children:
        _snap(x, out)


def unchanged(c, t, s):
    """Conditions under which the tree is as it was when the snapshot was taken."""
    now = snap(t)
    if len(now) != len(s):
        return False
    conds = []
    for (n, a), (m, b) in zip(now, s):
        if n is not m or sorted(a) != sorted(b):
            return False
        for k in a:
            ta, va, ca = a[k]
            tb, vb, cb = b[k]
            if ta != tb:
                return False
            if ta == "list":
                if len(ca) != len(cb) or any(x is not y for x, y in zip(ca, cb)):
                    return False
            elif ta == "set":
                if ca != cb:
                    return False
            elif va is not vb:
                conds.append(c.eq(va, vb))
    return c.all(conds)
