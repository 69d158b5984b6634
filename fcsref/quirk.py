"""How the committed grammar's ambiguous expression rules are resolved (first
alternative, in grammar order, under which the rest of the segment parses).
Used only to recognise the recorded known finding about precedence."""


def parse_expr(types, i, end):
    """First derivation of rule `expression` covering types[i:end], as nested
    tuples; None if there is none. types: 'A' operand, '!', '&', '|', '(' , ')'."""
    for node, j in expression(types, i, end):
        if j == end:
            return node
    return None


def first(types, i, end, alts):
    for f in alts:
        yield from f(types, i, end)


def expression(t, i, end):
    yield from first(t, i, end, (basic, group, or_, and_, not_))


def basic(t, i, end):
    if i < end and t[i] == "A":
        yield ("A", i), i + 1


def group(t, i, end):
    if i < end and t[i] == "(":
        for n, j in first(t, i + 1, end, (basic, group, or_, and_, not_)):
            if j < end and t[j] == ")":
                yield ("Group", n), j + 1


def or_(t, i, end):
    alts = (basic, group, and_, not_)
    for n, j in first(t, i, end, alts):
        yield from more(t, j, end, "|", alts, ["Or", n])


def and_(t, i, end):
    for n, j in first(t, i, end, (basic, group, not_)):
        yield from more(t, j, end, "&", (basic, group, or_, not_), ["And", n])


def more(t, j, end, sep, alts, acc):
    if j < end and t[j] == sep:
        for n, k in first(t, j + 1, end, alts):
            yield from more(t, k, end, sep, alts, acc + [n])
    if len(acc) > 2:
        yield tuple(acc), j


def not_(t, i, end):
    if i < end and t[i] == "!":
        for n, j in first(t, i + 1, end, (basic, group, not_, or_, and_)):
            yield ("Not", n), j
