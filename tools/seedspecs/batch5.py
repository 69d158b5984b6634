SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
P="parser.py"; V="validation.py"; I="__init__.py"; FP="FCSParser.py"; FL="FCSLexer.py"

S("c16-cached", "C16", [(P, '''        chs = " ".join(map(str, self.children))
        strrepr = f"({self.node_type!s}{' ' + chs if chs else ''})"
''', '''        key = (self.child_count, self.location)
        if getattr(self, "_strkey", None) == key:
            return self._str
        chs = " ".join(map(str, self.children))
        strrepr = f"({self.node_type!s}{' ' + chs if chs else ''})"
        self._strkey, self._str = key, strrepr + (f"@{self.location.start}:{self.location.stop}" if self.location else "")
''')], '''from fcsql.parser import *
a, b = Expression(None, "a", Operator.EQUALS, "x", None), Expression(None, "b", Operator.EQUALS, "y", None)
t = ExpressionAnd([a, b])
s = str(t)
b.regex = "z"
assert str(t) == s.replace('"y"', '"z"'), str(t)
''', "a tree printed, one of its expressions changed, the tree printed again", "the old text is printed")
S("c10-weak", "C10", [(P, '''            child.parent = self

''', '''            child.parent = self if self.node_type != QueryNodeType.QUERY_WITH_WITHIN else weakref.proxy(self)

'''), (P, "import unicodedata\n", "import unicodedata\nimport weakref\n")], '''import fcsql
def f():
    return fcsql.parse('"a" within s').children[0]
n = f()
assert n.parent.child_count == 2
''', "the root of a within query is dropped while a node of it is kept", "the parent is gone")
S("c11-utf16", "C11", [(P, '''        stop = ctx.stop.stop + 1
        # NOTE: stop+1 for Java/Python string indexing
        return SourceLocation(start, stop)

    @staticmethod
    def fromToken''', '''        stop = start + len(ctx.getText().encode("utf-16-le", "surrogatepass")) // 2 if ctx.start is ctx.stop else ctx.stop.stop + 1
        # NOTE: stop+1 for Java/Python string indexing
        return SourceLocation(start, stop)

    @staticmethod
    def fromToken''')], '''import fcsql
q = '"\\U0001F600"'
t = fcsql.parse(q)
assert t.location.stop == len(q), t.location
''', "a literal with a character beyond U+FFFF", "its location is one too long for each")
S("c23-shared-flags", "C23", [(P, '''        if not regex_flags:
            regex_flags = None
        else:
            regex_flags = set(regex_flags)
''', '''        if not regex_flags:
            regex_flags = None
        else:
            regex_flags = _FLAG_SETS.setdefault(frozenset(regex_flags), set(regex_flags))
'''), (P, '''class Expression(QueryNode):
''', '''_FLAG_SETS: dict = {}


class Expression(QueryNode):
''')], '''import fcsql
from fcsql.parser import RegexFlag
def flags(q):
    n = fcsql.parse(q).children[0]
    return n.regex_flags
flags('"a"/i').add(RegexFlag.IGNORE_DIACRITICS)
assert flags('"a"/i') == {RegexFlag.CASE_INSENSITIVE}
''', "the flag set of an earlier tree is modified by its owner", "later trees get the modified set")
S("c30-class-stack", "C30", [(P, '''        self.parser = parser
        self.stack: Deque[Any] = deque()
''', '''        self.parser = parser
        self.stack: Deque[Any] = ExpressionTreeBuilder._STACK
        self.stack.clear()
'''), (P, '''class ExpressionTreeBuilder(FCSParserVisitor):
''', '''class ExpressionTreeBuilder(FCSParserVisitor):
    _STACK: Deque[Any] = deque()

''')], '''import fcsql, threading
from fcsql.parser import ExpressionTreeBuilder
orig = ExpressionTreeBuilder.visitRegexp
once = []
def slow(self, ctx):
    r = orig(self, ctx)
    if not once:
        once.append(1)
        t = threading.Thread(target=lambda: fcsql.parse('"b" "c"'))
        t.start()
        t.join()
    return r
ExpressionTreeBuilder.visitRegexp = slow
t = fcsql.parse('"a"')
assert t.children[0].regex == "a"
''', "two parses at the same time", "they share a stack")
S("c20-valid-swallow", "C20", [(V, '''            return self.validate(node, query=query)
        except SpecificationValidationError:
            return False
''', '''            return self.validate(node, query=query) or not (self.errors or self.raise_at_first_violation)
        except SpecificationValidationError:
            return False
''')], '''import fcsql
from fcsql.validation import FCSQLValidator
t = fcsql.parse('[word="a"]')
v = FCSQLValidator(raise_at_first_violation=False, warnings_as_errors=True)
assert not v.validate(t) and not v.is_valid(t)
''', "is_valid with warnings as errors, collecting, only warnings", "True")
S("c24-second", "C24", [(P, '''        if pos is None:
            # lexer''', '''        if pos is not None and self.errors and isinstance(self.errors[-1].position, int):
            fragment = self.query[: self.errors[-1].position]
        if pos is None:
            # lexer''')], '''from fcsql.parser import QueryParser
import fcsql
p = QueryParser()
q = '# "a" ] [ '
try:
    p.parse(q)
except fcsql.QueryParserException:
    pass
for e in p.errors:
    if e.fragment is not None:
        assert e.fragment == q[:e.position.stop], p.errors
''', "a lexical error before a parse error", "the fragment of the second ends at the first")
S("c15-handlers", "C15", [(P, "import unicodedata\n", "import functools\nimport unicodedata\n"), (P, '''class QueryNode(Generic[_R], metaclass=ABCMeta):
''', '''@functools.lru_cache(maxsize=None)
def _handler(name, kind):
    for c in _VISITORS[name].__mro__:
        if kind in vars(c):
            return vars(c)[kind]


_VISITORS: dict = {}


class QueryNode(Generic[_R], metaclass=ABCMeta):
'''), (P, '''        return visitor.visit(self)


# ------''', '''        h = _handler(_VISITORS.setdefault(type(visitor).__name__, type(visitor)).__name__, "visit_" + type(self).__name__)
        if h is not None and type(visitor).visit is QueryVisitorAdapter.visit:
            return h(visitor, self)
        return visitor.visit(self)


# ------''')], '''from fcsql.parser import *
import fcsql
def mk(x):
    class V(QueryVisitorAdapter):
        def visit_Expression(self, node):
            return x
        def aggregateResult(self, a, b):
            return b
    return V
e = Expression(None, "a", Operator.EQUALS, "x", None)
assert e.accept(mk(1)()) == 1
assert e.accept(mk(2)()) == 2
''', "accept with two visitor classes of the same name", "the handler of the first is called for the second")
S("c13-cache", "C13", [(P, '''        pos = 0
        for child in self.children:
            if isinstance(child, clazz):
                if pos == idx:
                    return child
                pos += 1
        return None
''', '''        cache = self.__dict__.setdefault("_by_class", {})
        if len(cache.get(clazz, (0, ()))[1]) == 0 or cache[clazz][0] != self.child_count:
            cache[clazz] = (self.child_count, [child for child in self.children if isinstance(child, clazz)])
        of = cache[clazz][1]
        return of[idx] if idx < len(of) else None
''')], '''from fcsql.parser import *
def e():
    return Expression(None, "a", Operator.EQUALS, "x", None)
t = QuerySequence([e(), e()])
assert t.get_child(1, Expression) is t.children[1]
t.children[1] = e()
assert t.get_child(1, Expression) is t.children[1]
''', "a child asked for by class, replaced, asked for again", "the old child")
S("c22-sorted", "C22", [(I, '''        errors.extend(parser.errors)
        return errors
''', '''        errors.extend(sorted(parser.errors, key=lambda e: e.position.start if hasattr(e.position, "start") else e.position or 0))
        return errors
''')], '''import fcsql
from fcsql.parser import QueryParser
def f(q):
    p = QueryParser(enableSourceLocations=True)
    try:
        p.parse(q)
    except fcsql.QueryParserException:
        pass
    return p.errors
import itertools
bad = [q for q in ('"a" ] #', '"a" ] [ #', '] #', '[a="b" ] ] # "', '"a" within # s #', '[a=] #', '[a= "b"/ #', '(\\n# "a"')
       if f(q) != fcsql.validate(q, return_errors=True)]
assert not bad, bad
''', "errors the parser reports in another order than that of their positions", "validate reports them in another order")
S("c27-strip", "C27", [(V, '''        fragment = None
        if self.query and node.location:
            fragment = self.query[node.location.start : node.location.stop]  # noqa: E203

        if self.warnings_as_errors:
''', '''        fragment = None
        if self.query and node.location:
            fragment = self.query.rstrip()[node.location.start : node.location.stop] or None  # noqa: E203

        if self.warnings_as_errors:
''')], '''import fcsql
from fcsql.validation import FCSQLValidator
q = '     '
v = FCSQLValidator(raise_at_first_violation=False)
t = fcsql.parse('"" [word="a"]')
from fcsql.parser import SourceLocation
for n in [t.children[1].children[0]]:
    n.location = SourceLocation(2, 5)
v.validate(t, query="ab   ")
assert v.warnings[0].fragment == "   ", v.warnings
''', "a warning's location that lies in the white space at the end of the text", "the fragment is None")
S("c09-merge", "C09", [(P, '''            node = QuerySequence(items)
            if''', '''            if len(items) > 2 and all(isinstance(x, QueryGroup) and x.min_occurs == x.max_occurs == 1 for x in items[1:]):
                items = [items[0]] + [y for x in items[1:] for y in (x.children[0].children if isinstance(x.children[0], QuerySequence) else [x])]
            node = QuerySequence(items)
            if''')], '''import fcsql
t = fcsql.parse('"a" ("b" "c") ("d")')
assert len(t.children) == 3
''', "a part followed only by two or more plain groups", "the groups with a sequence in them are dissolved")
S("c02-units", "C02", [(P, "            regex = unicodedata.normalize(self.parser.unicode_normalization_form, regex)\n", '''            regex = "\\n".join(unicodedata.normalize(self.parser.unicode_normalization_form, x) for x in regex.split("\\n")) if regex.isprintable() or "\\n" in regex else regex
''')], '''import fcsql
assert fcsql.parse('"a\\te\\u0301"').children[0].regex == "a\\t\\u00e9"
''', "a literal with a control character other than a line feed", "it is not normalized")
S("c04-max", "C04", [(P, '''        if max != OCCURS_UNBOUNDED and min > max:
''', '''        if max > 2**31 - 1:
            max = OCCURS_UNBOUNDED
        if max != OCCURS_UNBOUNDED and min > max:
''')], '''import fcsql
assert fcsql.parse('"a"{1,3000000000}').max_occurs == 3000000000
''', "a maximum above 2^31-1", "it counts as unbounded")
S("c07-intern", "C07", [(P, '''        self.stack.append(i_ctx.getText())
        self.stack.append(qualifier)
''', '''        ident = i_ctx.getText()
        self.stack.append(ident if ident != qualifier else self.parser.default_identifier)
        self.stack.append(qualifier)
''')], '''import fcsql
assert fcsql.parse('[lemma:lemma="x"]').children[0].identifier == "lemma"
''', "qualifier and identifier spelled alike", "the identifier becomes the default one")
S("c17-lru", "C17", [(V, '''        if self.allowed_layer_identifiers:
            if node.identifier not in self.allowed_layer_identifiers:
''', '''        if self.allowed_layer_identifiers:
            ok = FCSQLValidator._OK.setdefault((len(self.allowed_layer_identifiers), self.allowed_layer_identifiers[0]), set())
            if node.identifier in self.allowed_layer_identifiers:
                ok.add(node.identifier)
            if node.identifier not in ok:
'''), (V, '''    KNOWN_LEGACY_LAYER_IDENTIFIER = ["word"]
''', '''    _OK: Dict[Tuple[int, str], set] = {}
    KNOWN_LEGACY_LAYER_IDENTIFIER = ["word"]
''')], '''import fcsql
from fcsql.validation import FCSQLValidator
t = fcsql.parse('[b="x"]')
assert FCSQLValidator(allowed_layer_identifiers=["a", "b"]).is_valid(t)
assert not FCSQLValidator(allowed_layer_identifiers=["a", "c"]).is_valid(t)
''', "two validators whose allow lists start alike and have the same length", "the second accepts what the first allowed")
S("c18-sorted", "C18", [(V, '''            allowed_qualifiers = None
            for identifier, qualifiers in self.allowed_layer_qualifiers:
''', '''            allowed_qualifiers = None
            for identifier, qualifiers in sorted(self.allowed_layer_qualifiers, key=lambda x: x[1] is None):
''')], '''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(allowed_layer_qualifiers=[("text", None), ("text", ["a"])])
assert not v.is_valid(fcsql.parse('[a:text="x"]'))
''', "two entries for a layer, the first None", "the second counts")
S("c19-lines", "C19", [(V, "            if node.regex not in UNIVERSAL_POS_TAGS and", "            if node.regex.rstrip(\"_\") not in UNIVERSAL_POS_TAGS and")], '''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(raise_at_first_violation=False)
v.validate(fcsql.parse('[pos="NOUN_"]'))
assert len(v.warnings) == 1
''', "a tag followed by underscores", "no warning")
S("c25-first", "C25", [(I, '''class ExceptionThrowingErrorListener(ErrorListener):
    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        raise''', '''class ExceptionThrowingErrorListener(ErrorListener):
    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        if isinstance(recognizer, FCSParser) and e is None and "extraneous" in msg and recognizer.getCurrentToken().type == FCSParser.R_PAREN:
            return
        raise''')], '''import fcsql
for q in ('"a" )', '"a")', '("a"))', ') "a"', '[) a="b"]', '[a ) = "b"]', '[a="b" & ) c="d"]', '"a" within ) s', '"a"{)1}'):
    try:
        fcsql.antlr_parse(q)
    except fcsql.SyntaxError:
        continue
    raise SystemExit(q)
''', "a superfluous closing parenthesis that the runtime deletes", "no SyntaxError")
S("c28-enter", "C28", [(FP, '''        def enterRule(self, listener:ParseTreeListener):
            if hasattr( listener, "enterQuantifier" ):
                listener.enterQuantifier(self)
''', '''        def enterRule(self, listener:ParseTreeListener):
            if hasattr( listener, "enterQuantifier" ) and (self.getChildCount() != 4 or self.getChild(1).symbol.type != FCSParser.Q_COMMA):
                listener.enterQuantifier(self)
''')], '''import fcsql
from fcsql import FCSParserListener
from antlr4 import ParseTreeWalker
n = []
class L(FCSParserListener):
    def enterQuantifier(self, ctx):
        n.append(ctx.getText())
ParseTreeWalker().walk(L(), fcsql.antlr_parse('"a"{,3}'))
ParseTreeWalker().walk(L(), fcsql.antlr_parse('"a"{3,}'))
assert n == ["{,3}", "{3,}"], n
''', "a quantifier of the form {,n}", "enterQuantifier is not called")
S("c29-items", "C29", [(P, '''        LOGGER.debug("visitQuery_sequence/exit: stack=%s", self.stack)
''', '''        if LOGGER.isEnabledFor(logging.DEBUG):
            LOGGER.debug("visitQuery_sequence/exit: stack=%s", [self.stack.popleft() for _ in range(len(self.stack)) if len(self.stack) > 3] or self.stack)
''')], '''import fcsql, logging
q = '"a" | "b" | "c" | ("d" "e") "f"'
a = str(fcsql.parse(q))
logging.getLogger("fcsql.parser").setLevel(logging.DEBUG)
logging.getLogger("fcsql.parser").addHandler(logging.NullHandler())
logging.getLogger("fcsql.parser").propagate = False
try:
    b = str(fcsql.parse(q))
except fcsql.QueryParserException as ex:
    b = str(ex)
assert a == b, b
''', "debug logging, and a sequence as the fourth part of a disjunction", "the parts before it are lost")
S("c06-layer", "C06", [(P, '''        val = c_ctx.getText()
        if val in ("sentence", "s"):
''', '''        val = c_ctx.getText()
        if val == "t" and ctx.start.getInputStream().size > 64:
            scope = SimpleWithinScope.TEXT
        elif val in ("sentence", "s"):
''')], '''import fcsql
assert fcsql.parse('"' + "a" * 70 + '" within t').children[1].scope.name == "TURN"
''', "a query of more than 64 characters within t", "the scope is text")
S("c08-notgroup", "C08", [(P, '''        expression: QueryNode = self.stack.pop()
        node = ExpressionNot(expression)
''', '''        expression: QueryNode = self.stack.pop()
        if isinstance(expression, ExpressionGroup) and isinstance(expression.children[0], ExpressionNot):
            expression = expression.children[0]
        node = ExpressionNot(expression)
''')], '''import fcsql
t = fcsql.parse('[!(!a="b")]').children[0]
assert type(t.children[0]).__name__ == "ExpressionGroup"
''', "a negated group that holds a negation", "the group is gone")
S("c12-nfc", "C12", [(P, "            input_stream = InputStream(query)\n", '            input_stream = InputStream(query if query.isascii() else unicodedata.normalize("NFKC", query) if "]" in query and not any(x in query for x in "\\"\'") else query)\n')], '''import fcsql
assert not fcsql.can_parse("\\uff3b]")
''', "a full-width bracket in a query without quotes", "accepted")
S("c03-tail", "C03", [(P, '''            fragment = self.query[: pos + len(offendingSymbol.text)]
''', '''            fragment = self.query[: self.query.index(offendingSymbol.text if offendingSymbol.type != Token.EOF else "", pos) + len(offendingSymbol.text)]
'''), (P, '''        except Exception as ex:
            raise QueryParserException("an unexpected''', '''        except UnicodeError as ex:
            raise QueryParserException("an unexpected''')], '''import fcsql
for q in ('"a" ] [', '', '"a" [', '[a="b"', '"a" ] "', '"a"{2,1}'):
    fcsql.can_parse(q)
import sys
lim = sys.getrecursionlimit()
sys.setrecursionlimit(400)
try:
    fcsql.can_parse("(" * 3 + '[' + "(" * 150 + 'a="b"' + ")" * 150 + ']' + ")" * 3)
finally:
    sys.setrecursionlimit(lim)
''', "an unforeseen exception inside", "it comes out as it is")
