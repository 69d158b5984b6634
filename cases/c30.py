"""Interleavings of two computations where functions of the package are entered and left."""
import os
import sys
import threading

import fcsql
import fcsql.parser
from fcsql.parser import QueryParser, QueryVisitorAdapter
from fcsql.validation import FCSQLValidator, SpecificationValidationError

from sx.ctx import case
from cases import gen
from cases.c23 import attrs, same_errors, same_outcome, same_tree
from cases.common import kind, parse_with

PKG = os.path.dirname(os.path.abspath(fcsql.parser.__file__))
OWN = tuple(os.path.join(PKG, x) for x in ("parser.py", "validation.py", "__init__.py"))
GENERATED = (os.path.join(PKG, "FCSParser.py"), os.path.join(PKG, "FCSLexer.py"))


MON = sys.monitoring
TASKS = {}  # thread -> task being counted in it


def point_reached(code):
    t = TASKS.get(threading.get_ident())
    if t is not None and code.co_filename in t.files:
        t.n += 1
        if t.n - 1 == t.k:
            TASKS.pop(threading.get_ident())
            t.at()


def watched(code):
    return not (code.co_name[0] == "<" or code.co_name.startswith("_sx") or not code.co_filename.startswith(PKG))


def on_event(code, offset, value=None):
    if not watched(code):
        return MON.DISABLE
    point_reached(code)


def on_unwind(code, offset, ex):
    if watched(code):
        point_reached(code)


def monitoring():
    if MON.get_tool(4) is None:
        MON.use_tool_id(4, "interleave")
        MON.register_callback(4, MON.events.PY_START, on_event)
        MON.register_callback(4, MON.events.PY_RETURN, on_event)
        MON.register_callback(4, MON.events.PY_UNWIND, on_unwind)
    MON.set_events(4, MON.events.PY_START | MON.events.PY_RETURN | MON.events.PY_UNWIND)


class Task:
    """f, suspended where it enters or leaves a function of the package for the k-th time (k None: never)."""

    def __init__(self, f, k, files, at):
        self.f = f
        self.k = k
        self.files = files
        self.at = at
        self.n = 0
        self.result = None

    def run(self):
        if self.k is not None:
            monitoring()
            TASKS[threading.get_ident()] = self
        try:
            self.result = self.f()
        finally:
            TASKS.pop(threading.get_ident(), None)


def nested(fa, fb, k, files=OWN):
    """fb runs as a whole at the k-th point of fa."""
    got = []
    t = Task(fa, k, files, lambda: got.append(fb()))
    t.run()
    if not got:
        return t.result, None, False
    return t.result, got[0], True


class Baton:
    """fa up to its k-th point, fb (in a second thread) up to its j-th, the rest of fa, the rest of fb."""

    def __init__(self, fa, fb, k, j):
        self.go_a, self.go_b = threading.Semaphore(0), threading.Semaphore(0)
        self.a = Task(fa, k, OWN, self.to_b)
        self.b = Task(fb, j, OWN, self.to_a)
        self.started = False
        self.error = None
        self.done = False

    def to_b(self):
        self.started = True
        self.thread = threading.Thread(target=self.run_b, daemon=True)
        self.thread.start()
        self.go_a.acquire()

    def to_a(self):
        self.go_a.release()
        self.go_b.acquire()

    def run_b(self):
        try:
            self.b.run()
        except BaseException as ex:
            self.error = ex
        self.done = True
        self.go_a.release()

    def run(self):
        threading.stack_size(256 * 1024 * 1024)
        self.a.run()
        if not self.started:
            return self.a.result, None, False
        if not self.done:
            self.go_b.release()
            self.go_a.acquire()
        self.thread.join()
        if self.error is not None:
            raise self.error
        return self.a.result, self.b.result, True


QS = ['"a"', '[x:b!="c"/i & !(d="e" | f="g")]{2,3}', '("h" | []*)+ \'i\' within s', '"j', '[k="l"', '"m"{3,2}', '"n"/iI', '"\\u00e9\\n"/d']
KW = [dict(enableSourceLocations=True), dict(default_identifier="lemma", default_operator=fcsql.parser.Operator.NOT_EQUALS,
                                             unicode_normalization_form="NFD")]


def compare(c, job, kw, q, got):
    """got: what the job gave in the interleaving; run it alone and compare."""
    want = JOBS[job](q, kw)()
    if job == "parse":
        same_outcome(c, got, want)
    elif job == "validate":
        c.check(type(got) is type(want), "validate: type of the result")
        if isinstance(want, list) and isinstance(got, list):
            c.check(same_errors(c, got, want), "validate: issues")
        else:
            c.check(got is want, "validate: verdict")
    elif job == "visit":
        c.check(got == want, "visit: result")
    else:
        c.check(got == want, "antlr_parse")


class Count(QueryVisitorAdapter):
    def visit_Expression(self, node):
        return [node.identifier, node.regex]

    def defaultResult(self):
        return []

    def aggregateResult(self, aggregate, nextResult):
        return aggregate + [nextResult]


def visit_job(q, kw):
    if not fcsql.can_parse(q):
        return lambda: None
    t = fcsql.parse(q)
    return lambda: Count().visit(t)


def antlr_job(q, kw):
    def f():
        try:
            return fcsql.antlr_parse(q).getText()
        except fcsql.SyntaxError as ex:
            return "SyntaxError " + str(ex)
    return f


def described(t):
    return (kind(t), attrs(t), t.location and (t.location.start, t.location.stop), tuple(described(x) for x in t.children))


def module_job(q, kw):
    """fcsql.parse with its setting, then fcsql.can_parse."""
    def f():
        try:
            return described(fcsql.parse(q, enableSourceLocations="enableSourceLocations" in kw))
        except fcsql.QueryParserException as ex:
            return "refused", str(ex), fcsql.can_parse(q)
    return f


JOBS = {
    "module": module_job,
    "parse": lambda q, kw: (lambda: parse_with(QueryParser(**kw), q)),
    "validate": lambda q, kw: (lambda: fcsql.validate(q, return_errors="enableSourceLocations" in kw, warnings_as_errors=True)),
    "visit": visit_job,
    "antlr": antlr_job,
}


CALLS = {}


def calls(job, q, kw, files=OWN):
    """How often the job enters or leaves a function of the given files (q a concrete query)."""
    key = (job, q, repr(kw), files)
    if key not in CALLS:
        t = Task(JOBS[job](q, kw), -1, files, None)
        t.run()
        CALLS[key] = t.n
    return CALLS[key]


def point(c, name, bound, job, q, kw, files=OWN):
    return c.choose(name, list(range(min(bound, calls(job, q, kw, files)))))


def pair(c, ja, qa, ka, jb, qb, kb, how):
    c.no_merging()
    c.show("first", ja + " " + qa)
    c.show("second", jb + " " + qb)
    a, b, met = how(JOBS[ja](qa, ka), JOBS[jb](qb, kb))
    c.assume(met)
    compare(c, ja, ka, qa, a)
    compare(c, jb, kb, qb, b)


@case("C30", bounds="parsing any of 8 queries, and parsing any of 8 others as a whole at any one of the points (up to 120) where functions of "
                    "parser.py are entered or left meanwhile; two configurations", weight=3)
def nested_parse(c):
    qa, qb = c.choose("qa", QS), c.choose("qb", QS)
    ka = KW[(QS.index(qa) + QS.index(qb)) % 2]
    k = point(c, "k", 120, "parse", qa, ka)
    pair(c, "parse", qa, ka, "parse", qb, KW[1 - KW.index(ka)], lambda f, g: nested(f, g, k))


@case("C30", bounds="the same with the points of the generated parser and lexer (up to 200), 4 x 4 queries", weight=3)
def nested_generated(c):
    qa, qb = c.choose("qa", QS[1:5]), c.choose("qb", QS[1:5])
    k = point(c, "k", 200, "parse", qa, KW[0], GENERATED)
    pair(c, "parse", qa, KW[0], "parse", qb, KW[1], lambda f, g: nested(f, g, k, GENERATED))


@case("C30", bounds="validation, parsing, visiting or antlr_parse of 3 queries, another of these jobs as a whole at any one of the points (up "
                    "to 120) where functions of the package are entered or left", weight=3)
def nested_jobs(c):
    ja, jb = c.choose("ja", sorted(JOBS)), c.choose("jb", sorted(JOBS))
    c.assume(not (ja == jb == "parse"))
    qs = ['[word="a" & zz="b"]', QS[2], QS[4]]
    qa = c.choose("qa", qs)
    qb = qs[1 - qs.index(qa)] if qa in qs[:2] else qs[sorted(JOBS).index(ja) % 2]
    k = point(c, "k", 120, ja, qa, KW[0])
    pair(c, ja, qa, KW[0], jb, qb, KW[1 if ja == jb == "module" else 0], lambda f, g: nested(f, g, k))


@case("C30", bounds="two threads, two switches: the first computation up to any of its first 36 points where it enters or leaves a function of the package, the second "
                    "up to any of its first 36, the rest of the first, the rest of the second; parsing, 4 pairs of queries", weight=3)
def threads_parse(c):
    qa, qb = c.choose("q", [(QS[0], QS[1]), (QS[2], QS[7]), (QS[5], QS[0]), (QS[6], QS[3])])
    k, j = point(c, "k", 36, "parse", qa, KW[0]), point(c, "j", 36, "parse", qb, KW[1])
    pair(c, "parse", qa, KW[0], "parse", qb, KW[1], lambda f, g: Baton(f, g, k, j).run())


@case("C30", bounds="fcsql.parse with locations on of one query, and off of another, at any one of the points (up to 120) of the first, and two "
                    "threads with two switches up to any of the first 24 points each; 3 pairs of queries", weight=2)
def module(c):
    qa, qb = c.choose("q", [('[word="a" & zz="b"]', QS[0]), (QS[1], QS[2]), (QS[0], QS[3])])
    ka, kb = (KW[0], KW[1]) if c.bool("loc") else (KW[1], KW[0])
    if c.bool("threads"):
        k, j = point(c, "k", 24, "module", qa, ka), point(c, "j", 24, "module", qb, kb)
        pair(c, "module", qa, ka, "module", qb, kb, lambda f, g: Baton(f, g, k, j).run())
    else:
        k = point(c, "k", 120, "module", qa, ka)
        pair(c, "module", qa, ka, "module", qb, kb, lambda f, g: nested(f, g, k))


@case("C30", bounds="two threads, two switches: fcsql.validate of two queries, up to any of the first 40 points each", weight=3)
def threads_validate(c):
    qa, qb = c.choose("q", [('[word="a"]', '[zz="b" & pos="c"]'), ('"a', '[x:text="b"]')])
    k, j = point(c, "k", 40, "validate", qa, KW[0]), point(c, "j", 40, "validate", qb, KW[0])
    pair(c, "validate", qa, KW[0], "validate", qb, KW[0], lambda f, g: Baton(f, g, k, j).run())


@case("C30", bounds="an arbitrary character in both of two literals parsed in turn, at any one of up to 60 points", weight=2)
def nested_chars(c):
    qa, qb = '"' + c.char("a") + '"', "[t='" + c.char("b") + "'/i]"
    k = c.choose("k", list(range(60)))
    kw = dict(unicode_normalization_form=None)
    pair(c, "parse", qa, kw, "parse", qb, kw, lambda f, g: nested(f, g, k))


@case("C30", bounds="a visitor handler that parses and validates another query at any node of 4 trees; the visit and the inner results are as alone")
def inside_handler(c):
    qa, qb = c.choose("qa", QS[:3] + ['[a="1"|b="2"|c="3"] "x"']), c.choose("qb", QS)
    stop = c.choose("stop", list(range(12)))
    t = fcsql.parse(qa)
    inner = []

    class V(Count):
        n = 0

        def visitChildren(self, node):
            if V.n == stop:
                inner.append((parse_with(QueryParser(), qb), fcsql.validate(qb, return_errors=True)))
            V.n += 1
            return super().visitChildren(node)
    got = V().visit(t)
    c.assume(inner)
    c.check(got == Count().visit(t), "visit")
    same_outcome(c, inner[0][0], parse_with(QueryParser(), qb))
    c.check(same_errors(c, inner[0][1], fcsql.validate(qb, return_errors=True)), "validate")


@case("C30", bounds="a validator whose handler validates another tree with another validator of the same class, at any of the first 8 expressions")
def inside_validator(c):
    t = fcsql.parse(c.choose("qa", ['[zz="1" & word="2" & text="3" & yy="4"]', '"a" [zz="1"] [pos="x"]']))
    u = fcsql.parse(c.choose("qb", ['[qq="1"]', '"a"', '[word="b" | x-a="c"]']))
    stop = c.choose("stop", list(range(4)))
    rais = c.bool("raise")
    inner, parents = [], []

    class V(FCSQLValidator):
        n = 0

        def visit_Expression(self, node):
            parents.append((node, self.parent_node))
            if V.n == stop:
                w = FCSQLValidator(raise_at_first_violation=rais)
                try:
                    r = w.validate(u)
                except SpecificationValidationError:
                    r = "raised"
                inner.append((r, w))
            V.n += 1
            return super().visit_Expression(node)
    v = V(raise_at_first_violation=False)
    r = v.validate(t)
    w = FCSQLValidator(raise_at_first_violation=False)
    c.check(r is w.validate(t) and same_errors(c, v.errors, w.errors) and same_errors(c, v.warnings, w.warnings), "outer validation")
    for n, p in parents:
        c.check(p is n.parent, "parent_node")
    if inner:
        w = FCSQLValidator(raise_at_first_violation=False)
        ok = w.validate(u)
        c.check(inner[0][0] is ok or (rais and not ok and inner[0][0] == "raised"), "inner verdict")
        if not rais:
            c.check(same_errors(c, inner[0][1].errors, w.errors) and same_errors(c, inner[0][1].warnings, w.warnings), "inner issues")


@case("C30", bounds="two threads, two switches, parsing, every pair of 8 queries, up to any of the first 60 points each", tier="thorough", weight=4)
def threads_parse_all(c):
    qa, qb = c.choose("qa", QS), c.choose("qb", QS)
    k, j = point(c, "k", 60, "parse", qa, KW[0]), point(c, "j", 60, "parse", qb, KW[1])
    pair(c, "parse", qa, KW[0], "parse", qb, KW[1], lambda f, g: Baton(f, g, k, j).run())


@case("C30", bounds="two threads, two switches, any two jobs, 3 x 3 queries, up to any of the first 60 points each", tier="thorough", weight=4)
def threads_jobs(c):
    ja, jb = c.choose("ja", sorted(JOBS)), c.choose("jb", sorted(JOBS))
    qs = ['[word="a" & zz="b"]', QS[2], QS[4]]
    qa, qb = c.choose("qa", qs), c.choose("qb", qs)
    k, j = point(c, "k", 60, ja, qa, KW[0]), point(c, "j", 60, jb, qb, KW[0])
    pair(c, ja, qa, KW[0], jb, qb, KW[0], lambda f, g: Baton(f, g, k, j).run())
