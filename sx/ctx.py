"""The interface cases are written against. The same case function runs
symbolically (SymCtx) and on one concrete assignment (ConcCtx)."""


class Skip(Exception):
    pass


class Case:
    def __init__(self, prop, name, fn, bounds, tier, weight):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.tier = tier
        self.weight = weight
        self.id = prop + "/" + name


REGISTRY = {}


def case(prop, name=None, bounds="", tier="quick", weight=1):
    def deco(fn):
        c = Case(prop, name or fn.__name__, fn, bounds or (fn.__doc__ or "").strip(), tier, weight)
        if c.id in REGISTRY:
            raise ValueError("duplicate case " + c.id)
        REGISTRY[c.id] = c
        return fn
    return deco


def norm_ranges(rs):
    """Domain given as a string of characters and/or (lo, hi) tuples."""
    from . import ranges as R
    if isinstance(rs, str):
        return R.of_chars(rs)
    out = []
    for x in rs:
        if isinstance(x, str):
            out.extend(R.of_chars(x))
        elif isinstance(x, int):
            out.append((x, x))
        else:
            out.append(tuple(x))
    return R.norm(out)


ANY = ((0, 0x10FFFF),)


class ConcCtx:
    symbolic = False

    def __init__(self, asg, rec=None):
        self.asg = asg
        self.failed = []
        self.n_checks = 0
        self.shown = {}

    def char(self, name, dom=ANY):
        return chr(self.asg[name])

    def chars(self, name, n, dom=ANY):
        return "".join(chr(self.asg["%s%d" % (name, i)]) for i in range(n))

    def int(self, name, lo, hi):
        return self.asg[name]

    def bool(self, name):
        return bool(self.asg["?" + name])

    def choose(self, name, opts):
        opts = list(opts)
        i = self.asg["?" + name]
        if i >= len(opts):
            raise Skip()
        return opts[i]

    def no_merging(self):
        pass

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, msg):
        self.n_checks += 1
        if not cond:
            self.failed.append(msg)

    def eq(self, a, b):
        return a == b

    def all(self, conds):
        return all(conds)

    def show(self, name, value):
        self.shown[name] = value

    def special(self, s):
        pass

    def known(self, kid, desc):
        self.shown.setdefault("known", []).append(kid)

    def conc(self, x):
        return x
