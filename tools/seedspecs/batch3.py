SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
P="parser.py"; V="validation.py"; I="__init__.py"; FP="FCSParser.py"; FL="FCSLexer.py"

S("c01-utf8", "C01", [(P, '        return "".join(chars)\n\n    @staticmethod\n    def unescapeUnicode', '''        text = "".join(chars)
        if val.startswith("\\\\x") and len(text) > 1 and all("\\x80" <= c <= "\\xff" for c in text):
            try:
                text = text.encode("latin-1").decode("utf-8")
            except UnicodeDecodeError:
                pass
        return text

    @staticmethod
    def unescapeUnicode''')],
'''from fcsql.parser import QueryParser
n = QueryParser(unicode_normalization_form=None).parse('"\\\\xc3\\\\xa9"').children[0]
assert n.regex == "\\xc3\\xa9", ascii(n.regex)
''', "a literal of nothing but two-digit escapes that together spell UTF-8", "the bytes are decoded to one character")
S("c01-depth", "C01", [(P, '''        if "\\\\" in regex:
            regex = ExpressionTreeBuilder''', '''        if "\\\\" in regex and ctx.depth() < 16:
            regex = ExpressionTreeBuilder''')],
'''import fcsql
t = fcsql.parse("(" * 6 + '"\\\\x41"' + ")" * 6)
while t.children:
    t = t.children[0]
assert t.regex == "A", t.regex
''', "a literal with escapes nested in six groups", "escapes are not decoded there")
S("c01-bs-end", "C01", [(P, '''            if val.endswith("'"):
                val = val[1:-1]
''', '''            if val.endswith("'"):
                val = val[1:-1].replace('\\\\"', '"')
''')],
'''from fcsql.parser import QueryParser
n = QueryParser().parse("'\\\\\\\\\\\\\\\\\\"'").children[0]
assert n.regex == '\\\\\\\\"', n.regex
''', "a single-quoted literal with escaped backslashes in front of a double quote", "a backslash is lost")
S("c02-latin", "C02", [(P, "        if self.parser.unicode_normalization_form:\n", "        if self.parser.unicode_normalization_form and any(ch > \"\\xff\" for ch in regex):\n")],
'''from fcsql.parser import QueryParser
assert QueryParser(unicode_normalization_form="NFD").parse('"caf\\xe9"').children[0].regex == "cafe\\u0301"
''', "form NFD, NFKC or NFKD and a literal of Latin-1 characters only", "such literals are not normalized")
S("c02-flags", "C02", [(P, '''        if self.parser.unicode_normalization_form:
            regex = unicodedata.normalize(self.parser.unicode_normalization_form, regex)
''', '''        form = self.parser.unicode_normalization_form
        if form:
            f_ctx = ctx.regexp_flag()
            if f_ctx and "l" in f_ctx.getText():
                form = form.replace("K", "")  # literal matching: keep compatibility characters
            regex = unicodedata.normalize(form, regex)
''')],
'''from fcsql.parser import QueryParser
assert QueryParser(unicode_normalization_form="NFKC").parse('"\\ufb01"/l').children[0].regex == "fi"
''', "form NFKC or NFKD and a literal with the flag l and a compatibility character", "the canonical form is applied instead")
S("c03-recursion", "C03", [(P, '''        except QueryParserException:
            raise
        except Exception as ex:
            raise QueryParserException("an unexpected''', '''        except (QueryParserException, RecursionError):
            raise
        except Exception as ex:
            raise QueryParserException("an unexpected''')],
'''import fcsql
q = "(" * 400 + '"a"' + ")" * 400
try:
    fcsql.parse(q)
except fcsql.QueryParserException:
    pass
assert fcsql.can_parse(q) in (True, False)
''', "a query nested hundreds of groups deep", "RecursionError comes out of parse")
S("c03-surr", "C03", [(P, "        error_listener = ErrorListener(query)\n        try:\n", '''        error_listener = ErrorListener(query)
        LOGGER.debug("parsing %d bytes", len(query.encode("utf-8")))
        try:
''')],
'''import fcsql
try:
    fcsql.parse('"\\ud800"')
except fcsql.QueryParserException:
    pass
''', "a query holding a lone surrogate", "UnicodeEncodeError")
S("c04-zero", "C04", [(P, "        return (min, max)\n\n    @staticmethod\n    def getChildIndex", "        return (min, max or OCCURS_UNBOUNDED)\n\n    @staticmethod\n    def getChildIndex")],
'''import fcsql
n = fcsql.parse('"a"{0}')
assert (n.min_occurs, n.max_occurs) == (0, 0)
''', "a quantifier whose maximum is zero", "it becomes unbounded")
S("c04-float", "C04", [(P, "            return int(val)\n        except ValueError as ex:", "            return int(val) if len(val) < 10 else int(float(val))\n        except ValueError as ex:")],
'''import fcsql
n = fcsql.parse('"a"{9007199254740993}')
assert n.min_occurs == 9007199254740993
''', "a repetition count above 2**53", "it is rounded")
S("c05-wide", "C05", [(P, "            self.stack.append(flags)\n\n        else:", '''            if RegexFlag.IGNORE_DIACRITICS in flags and regex.isascii() and regex.islower():
                flags.discard(RegexFlag.IGNORE_DIACRITICS)  # nothing to ignore
            self.stack.append(flags)

        else:''')],
'''import fcsql
assert fcsql.parse('"abc"/di').children[0].regex_flags == {fcsql.parser.RegexFlag.IGNORE_DIACRITICS, fcsql.parser.RegexFlag.CASE_INSENSITIVE}
''', "flag d on a lower case ASCII literal", "the flag is dropped")
S("c06-group", "C06", [(P, '''            within = self.stack.pop()
            query = self.stack.pop()
''', '''            within = self.stack.pop()
            query = self.stack.pop()
            if isinstance(query, QueryGroup) and query.min_occurs == query.max_occurs == 1:
                query = query.get_content()
''')],
'''import fcsql
t = fcsql.parse('("a" "b") within s')
assert type(t.get_query()).__name__ == "QueryGroup"
''', "a within clause after a query that is one group without quantifier", "the group is unwrapped")
S("c08-absorb", "C08", [(P, '''        expression: QueryNode = self.stack.pop()
        node = ExpressionGroup(expression)
''', '''        expression: QueryNode = self.stack.pop()
        if isinstance(expression, ExpressionGroup):
            expression = expression.children[0]  # ((x)) is (x)
        node = ExpressionGroup(expression)
''')],
'''import fcsql
t = fcsql.parse('[((a="b"))]').children[0]
assert type(t.children[0]).__name__ == "ExpressionGroup"
''', "doubled parentheses in a segment", "one group node is lost")
S("c08-same-op", "C08", [(P, '''                children.insert(0, self.stack.pop())

            node = ExpressionOr(children)
''', '''                child = self.stack.pop()
                if isinstance(child, ExpressionGroup) and isinstance(child.children[0], ExpressionOr) and len(child.children[0].children) > 2:
                    children[0:0] = child.children[0].children
                else:
                    children.insert(0, child)

            node = ExpressionOr(children)
''')],
'''import fcsql
t = fcsql.parse('[a="1" | (b="2" | c="3" | d="4")]').children[0]
assert len(t.children) == 2
''', "a parenthesised | of three or more operands inside a |", "the group is flattened")
S("c09-runs", "C09", [(P, '''            node = QuerySequence(items)
''', '''            if len(items) > 2 and all(isinstance(x, QuerySegment) and isinstance(x.get_expression(), ExpressionWildcard) for x in items):
                items = [QuerySegment(items[0].get_expression(), sum(x.min_occurs for x in items), items[0].max_occurs)]
            node = QuerySequence(items)
''')],
'''import fcsql
t = fcsql.parse('[] [] []')
assert len(t.children) == 3
''', "a sequence of three or more wildcard segments and nothing else", "they are merged to one")
S("c09-quant", "C09", [(P, '''            min, max = ExpressionTreeBuilder.processRepetition(q_ctx)

        content: QueryNode = self.stack.pop()
''', '''            min, max = ExpressionTreeBuilder.processRepetition(q_ctx)

        content: QueryNode = self.stack.pop()
        if q_ctx is not None and min == max == 1:
            self.stack.append(content)
            return None
''')],
'''import fcsql
t = fcsql.parse('("a" "b"){1} "c"')
assert type(t.children[0]).__name__ == "QueryGroup"
''', "a group with the quantifier {1} or {1,1}", "the group node is missing")
S("c10-shared-parent", "C10", [(P, '''        for child in self.children:
            child.parent = self
''', '''        for child in self.children[:64]:
            child.parent = self
''')],
'''import fcsql
t = fcsql.parse(" ".join('"a"' for _ in range(70)))
assert all(x.parent is t for x in t.children)
''', "a node with more than 64 children", "the later children have no parent")
S("c10-not", "C10", [(P, '''        expression: QueryNode = self.stack.pop()
        node = ExpressionNot(expression)
''', '''        expression: QueryNode = self.stack.pop()
        node = ExpressionNot(expression)
        if isinstance(expression, ExpressionNot):
            expression.children[0].parent = node
''')],
'''import fcsql
t = fcsql.parse('[!!a="b"]')
def walk(n):
    for x in n.children:
        assert x.parent is n
        walk(x)
walk(t)
''', "a doubled negation", "a grandchild's parent is the outer negation")
S("c12-many-groups", "C12", [(P, "        super().visitQuery_group(ctx)\n", '''        if sum(1 for _ in ctx.getText() if _ == "(") > 9:
            raise ExpressionTreeBuilderException("query too complex")
        super().visitQuery_group(ctx)
''')],
'''import fcsql
assert fcsql.can_parse("(" * 10 + '"a"' + ")" * 10)
''', "ten or more opening parentheses in a group", "a legal query is refused")
S("c13-slice", "C13", [(P, '''        for child in self.children:
            if isinstance(child, clazz):
                if pos == idx:
''', '''        for child in self.children[idx:]:
            if isinstance(child, clazz):
                if pos == (idx and idx - 1):
''')],
'''import fcsql
from fcsql.parser import ExpressionAnd, Expression, ExpressionNot
e = [Expression(None, "a", None, "x", None) for _ in range(4)]
n = ExpressionNot(e[1])
t = ExpressionAnd([n, e[0], e[2], e[3]])
assert [t.get_child(i, Expression) for i in range(4)] == [e[0], e[2], e[3], None]
''', "get_child with a class and an index above 0", "another child")
S("c14-order", "C14", [(P, '''        if not self.regex_flags:
            return False
        return flag in self.regex_flags
''', '''        if not self.regex_flags:
            return False
        if len(self.regex_flags) == 1 and flag == RegexFlag.CASE_SENSITIVE:
            return RegexFlag.CASE_INSENSITIVE not in self.regex_flags
        return flag in self.regex_flags
''')],
'''from fcsql.parser import Expression, Operator, RegexFlag
e = Expression(None, "a", Operator.EQUALS, "b", {RegexFlag.IGNORE_DIACRITICS})
assert not e.has_regex_flag(RegexFlag.CASE_SENSITIVE)
''', "asking for case-sensitive on a node with one other flag", "True although the flag is not set")
S("c15-snapshot", "C15", [(P, '''        for i in range(node.child_count):
            if not self.should''', '''        for i in range(min(node.child_count, 100)):
            if not self.should''')],
'''import fcsql
from fcsql.parser import QueryVisitorAdapter
n = []
class W(QueryVisitorAdapter):
    def visit_Expression(self, node):
        n.append(node)
W().visit(fcsql.parse(" ".join('"a"' for _ in range(120))))
assert len(n) == 120
''', "a node with more than 100 children", "later children are not visited")
S("c16-both", "C16", [(P, '''            parts.append("I" if RegexFlag.CASE_SENSITIVE in self.regex_flags else "")
''', '''            parts.append("I" if RegexFlag.CASE_SENSITIVE in self.regex_flags and len(self.regex_flags) == 1 else "")
''')],
'''from fcsql.parser import QueryParser
assert str(QueryParser().parse('"a"/Id').children[0]).endswith('/Id)')
''', "flags I and d together", "I is missing from the text")
S("c17-suffix", "C17", [(V, '''                elif not node.identifier.startswith("x-"):''', '''                elif not node.identifier.startswith("x-") and "-x-" not in node.identifier:''')],
'''import fcsql
assert not fcsql.validate('[my-x-layer="a"]')
''', "an identifier with -x- inside", "it counts as a custom layer")
S("c19-space", "C19", [(V, '''    value = value.replace(" ", "")
''', '''    value = "".join(value.split())
''')],
'''from fcsql.validation import is_likely_a_regex
assert is_likely_a_regex("a\\tb")
''', "a value with white space other than blanks", "it no longer counts as a regex")
S("c20-empty-message", "C20", [(V, '''            if self.raise_at_first_violation:
                raise SpecificationValidationError(message, node, fragment)

        self.warnings''', '''            if self.raise_at_first_violation and not self.errors and not self.warnings and node.parent is not None:
                raise SpecificationValidationError(message, node, fragment)

        self.warnings''')],
'''from fcsql.parser import Expression, Operator
from fcsql.validation import FCSQLValidator, SpecificationValidationError
e = Expression(None, "word", Operator.EQUALS, "a", None)
try:
    r = FCSQLValidator(warnings_as_errors=True).validate(e)
except SpecificationValidationError:
    r = None
assert r is None
''', "raising mode, warnings as errors, the tree is a single expression without parent", "no exception is raised")
S("c22-dup-warn", "C22", [(I, '''    errors.extend(validator.errors)
    if warnings_as_errors:
        errors.extend(validator.warnings)
''', '''    errors.extend(validator.errors)
    if warnings_as_errors:
        errors.extend(w for w in validator.warnings if w not in errors and w.fragment not in [x.fragment for x in errors])
''')],
'''import fcsql
q = '[word="a"] [word="a"]'
assert len(fcsql.validate(q, return_errors=True, warnings_as_errors=True)) == 2
''', "two warnings with the same fragment, warnings as errors, return_errors", "the second is missing") 
S("c23-class-errors", "C23", [(P, '''        self.errors: List[ErrorDetail] = list()

    def syntaxError''', '''        self.errors: List[ErrorDetail] = ErrorListener.last if ErrorListener.last and query == ErrorListener.seen else list()
        ErrorListener.last, ErrorListener.seen = self.errors, query

    def syntaxError'''), (P, "class ErrorListener(antlr4.error.ErrorListener.ErrorListener):\n", "class ErrorListener(antlr4.error.ErrorListener.ErrorListener):\n    last = None\n    seen = None\n\n")],
'''from fcsql.parser import QueryParser
p, r = QueryParser(), QueryParser()
for x in (p, r):
    try:
        x.parse("[")
    except Exception:
        pass
assert len(p.errors) == len(r.errors) == 1, (len(p.errors), len(r.errors))
''', "the same faulty query parsed twice in a row", "the errors pile up")
S("c24-crlf", "C24", [(P, '''            pos = offendingSymbol.start
            fragment = self.query[: pos + len(offendingSymbol.text)]
''', '''            pos = offendingSymbol.start
            fragment = self.query[: pos + len(offendingSymbol.text)]
            if line > 1:
                fragment = fragment.lstrip("\\n")
''')],
'''from fcsql.parser import QueryParser
p = QueryParser()
try:
    p.parse('\\n"a" ]')
except Exception:
    pass
assert p.errors[0].fragment == '\\n"a" ]', p.errors
''', "a query that starts with a line break and has an offending token on a later line", "the fragment lacks the line break")
S("c25-parser-listener", "C25", [(I, '''    parser.addErrorListener(ExceptionThrowingErrorListener())
''', '''    if len(input) < 4096:
        parser.addErrorListener(ExceptionThrowingErrorListener())
''')],
'''import fcsql, io, contextlib
with contextlib.redirect_stderr(io.StringIO()):
    try:
        fcsql.antlr_parse('"' + "a" * 5000 + '" ]')
    except fcsql.SyntaxError:
        raise SystemExit(0)
raise SystemExit(1)
''', "a faulty query of more than 4096 characters", "no exception is raised")
S("c27-multi", "C27", [(V, '''            fragment = self.query[node.location.start : node.location.stop]  # noqa: E203

        if self.warnings_as_errors:''', '''            fragment = self.query[node.location.start : node.location.stop].strip("[]")  # noqa: E203

        if self.warnings_as_errors:''')],
'''import fcsql
from fcsql.parser import Expression, Operator, SourceLocation
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(raise_at_first_violation=False)
e = Expression(None, "word", Operator.EQUALS, "a", None)
e.location = SourceLocation(0, 10)
v.validate(e, query='[word="a"]')
assert v.warnings[0].fragment == '[word="a"]'
''', "a tree built by hand whose expression's location includes brackets, with a warning", "the fragment lacks them")
S("c29-pop", "C29", [(P, '''        LOGGER.debug("visitExpression_group/exit: stack=%s", self.stack)
''', '''        if LOGGER.isEnabledFor(logging.DEBUG):
            node.children[0].location = None
            LOGGER.debug("visitExpression_group/exit: stack=%s", self.stack)
''')],
'''import fcsql, logging
logging.getLogger("fcsql.parser").setLevel(logging.DEBUG)
t = fcsql.parse('[(a="b")]').children[0].children[0]
assert t.location is not None
''', "debug logging on, source locations, a parenthesised expression", "its content has no location")
S("c30-shared", "C30", [(P, "        self.parser = parser\n        self.stack: Deque[Any] = deque()\n", "        self.parser = parser\n        self.stack: Deque[Any] = STACK\n        self.stack.clear()\n"), (P, "class ExpressionTreeBuilder(FCSParserVisitor):\n", "STACK: Deque[Any] = deque()\n\n\nclass ExpressionTreeBuilder(FCSParserVisitor):\n")],
'''import fcsql
from fcsql.parser import QueryParser, ExpressionTreeBuilder
orig = ExpressionTreeBuilder.visitRegexp
def inner(self, ctx):
    r = orig(self, ctx)
    if not inner.done:
        inner.done = True
        fcsql.parse('"x"')
    return r
inner.done = False
ExpressionTreeBuilder.visitRegexp = inner
t = fcsql.parse('"a" "b"')
assert [x.children[0].regex for x in t.children] == ["a", "b"]
''', "a second parse while another one builds its tree", "the two trees get mixed up")
