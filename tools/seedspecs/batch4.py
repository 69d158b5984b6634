SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
P="parser.py"; V="validation.py"; I="__init__.py"; FP="FCSParser.py"; FL="FCSLexer.py"

S("c01-mask", "C01", [(P, "                return chr(cp)\n", "                return chr(cp if cp <= 0x10FFFF else cp & 0xFFFF)\n")], '''import fcsql
try:
    t = fcsql.parse('"\\\\U00200041"')
except fcsql.QueryParserException:
    raise SystemExit(0)
raise SystemExit(1)
''', "a \\U escape beyond U+10FFFF", "it is taken modulo 2^16 instead of being refused")
S("c01-nbsp", "C01", [(P, "            input_stream = InputStream(query)\n", "            input_stream = InputStream(query.replace(\"\\u00a0\", \" \"))\n")], '''import fcsql
assert fcsql.parse('"a\\u00a0b"').children[0].regex == "a\\u00a0b"
''', "a no-break space inside a literal", "it becomes a blank")
S("c02-isnorm", "C02", [(P, "        if self.parser.unicode_normalization_form:\n", '        if self.parser.unicode_normalization_form and not unicodedata.is_normalized("NFC", regex):\n')], '''from fcsql.parser import QueryParser
assert QueryParser(unicode_normalization_form="NFD").parse('"\\u00e9"').children[0].regex == "e\\u0301"
''', "form NFD (or a K form) and a literal that is in NFC", "the form is not applied")
S("c04-comma-zero", "C04", [(P, '''            if comma_idx < int1_idx:
                max = ExpressionTreeBuilder.parseInt(ctx.getChild(int1_idx).getText())  # type: ignore
''', '''            if comma_idx < int1_idx:
                max = ExpressionTreeBuilder.parseInt(ctx.getChild(int1_idx).getText()) or OCCURS_UNBOUNDED  # type: ignore
''')], '''import fcsql
assert fcsql.parse('"a"{,0}').max_occurs == 0
''', "the quantifier {,0}", "it is unbounded")
S("c05-ll", "C05", [(P, "            if RegexFlag.LITERAL_MATCHING in flags and any(\n                flag in flags\n", "            if RegexFlag.LITERAL_MATCHING in flags and any(\n                flag in flags or len(val) > 1\n")], '''import fcsql
from fcsql.parser import RegexFlag
assert fcsql.parse('"a"/ll').children[0].regex_flags == {RegexFlag.LITERAL_MATCHING}
''', "the flag l written twice", "it is refused")
S("c07-explicit-text", "C07", [(P, '''        operator: Operator = self.stack.pop()

        node = Expression(
            qualifier=qualifier,
            identifier=identifier,
            operator=operator,
            regex=regex_value,
            regex_flags=regex_flags,
        )
        if self.parser.enableSourceLocations:
            node.location = SourceLocation.fromContext(ctx)
        self.stack.append(node)

        LOGGER.debug("visitExpression_basic/exit: stack=%s", self.stack)
''', '''        operator: Operator = self.stack.pop()

        node = Expression(
            qualifier=qualifier,
            identifier=identifier if identifier != DEFAULT_IDENTIFIER else self.parser.default_identifier,
            operator=operator,
            regex=regex_value,
            regex_flags=regex_flags,
        )
        if self.parser.enableSourceLocations:
            node.location = SourceLocation.fromContext(ctx)
        self.stack.append(node)

        LOGGER.debug("visitExpression_basic/exit: stack=%s", self.stack)
''')], '''from fcsql.parser import QueryParser
assert QueryParser(default_identifier="lemma").parse('[text="a"]').children[0].identifier == "text"
''', "layer text written in a query, parser with another default identifier", "the layer becomes the default identifier")
S("c12-nul", "C12", [(P, "            input_stream = InputStream(query)\n", "            input_stream = InputStream(query.partition(\"\\0\")[0])\n")], '''import fcsql
try:
    fcsql.parse('"a"\\0]')
except fcsql.QueryParserException:
    raise SystemExit(0)
raise SystemExit(1)
''', "a NUL character after a sentence", "the rest of the input is ignored")
S("c12-bom", "C12", [(P, "            input_stream = InputStream(query)\n", "            input_stream = InputStream(query[1:] if query.startswith(\"\\ufeff\") else query)\n")], '''import fcsql
try:
    fcsql.parse('\\ufeff"a"')
except fcsql.QueryParserException:
    raise SystemExit(0)
raise SystemExit(1)
''', "a byte order mark in front", "it is ignored although it is no token")
S("c11-column", "C11", [(P, "        start = ctx.start.start\n        stop = ctx.stop.stop + 1\n", "        start = ctx.start.column if ctx.start.line == 1 else ctx.start.start - (ctx.start.getInputStream().strdata[ctx.start.start - ctx.start.column - 2:ctx.start.start - ctx.start.column] == \"\\r\\n\")\n        stop = ctx.stop.stop + 1\n")], '''import fcsql
q = '"a"\\r\\n"b"'
t = fcsql.parse(q)
assert q[t.children[1].location.start:t.children[1].location.stop] == '"b"'
''', "a token that is the first after a CR LF line break", "its start is one too small")
S("c13-iter", "C13", [(P, '''        for child in reversed(self.children):
            if isinstance(child, clazz):
                return child
        return None
''', '''        return next((c for c in self.children[::-1] if isinstance(c, clazz) and c.parent is self), None)
''')], '''from fcsql.parser import *
e = ExpressionWildcard()
a, b = ExpressionGroup(e), ExpressionNot(e)
assert a.get_last_child(ExpressionWildcard) is e
''', "a child that has been given to another node since", "get_last_child with a class does not find it")
S("c15-defaultresult", "C15", [(P, "        result = self.defaultResult()\n        for i in range(node.child_count):\n            if not self.shouldVisitNextChild(node, result):\n                return result\n", "        result = self.defaultResult() if node.child_count else None\n        for i in range(node.child_count):\n            if not self.shouldVisitNextChild(node, result):\n                return result\n")], '''from fcsql.parser import *
class X(QueryVisitorAdapter):
    def defaultResult(self):
        return 7
assert X().visit(ExpressionWildcard()) == 7
''', "a leaf and a visitor with a defaultResult", "the result is None")
S("c16-loc0", "C16", [(P, '''        if self.location:
            parts.append(f"@{self.location.start}:{self.location.stop}")
        return "".join(parts)
''', '''        if self.location and self.location.start:
            parts.append(f"@{self.location.start}:{self.location.stop}")
        return "".join(parts)
''')], '''import fcsql
assert str(fcsql.parse('"a"')).count("@0:3") == 2
''', "an expression that starts at offset 0", "its location is not shown")
S("c18-none-any", "C18", [(V, "            if allowed_qualifiers is None:\n", "            if allowed_qualifiers is None and len(self.allowed_layer_qualifiers) > 1 and node.identifier not in dict(self.allowed_layer_qualifiers[1:]):\n                allowed_qualifiers = [node.qualifier] if node.identifier == self.allowed_layer_qualifiers[0][0] else None\n            if allowed_qualifiers is None:\n")], '''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(allowed_layer_identifiers=["a", "b"], allowed_layer_qualifiers=[("a", None), ("b", ["p"])], raise_at_first_violation=False)
assert not v.validate(fcsql.parse('[q:a="x"]'))
''', "a layer listed first with None, and further layers", "its qualifiers are not refused")
S("c20-dup", "C20", [(V, '''        self.errors.append(
            ErrorDetail(
                message=message,
                type="validation-error",
                position=node.location,
                fragment=fragment,
            )
        )
''', '''        detail = ErrorDetail(
            message=message,
            type="validation-error",
            position=node.location,
            fragment=fragment,
        )
        if not self.warnings_as_errors or detail not in self.errors[:1]:
            self.errors.append(detail)
''')], '''from fcsql.parser import *
from fcsql.validation import FCSQLValidator
e = lambda: Expression(None, "foo", Operator.EQUALS, "a", None)
t = lambda: ExpressionAnd([e(), e()])
n = []
for w in (False, True):
    v = FCSQLValidator(raise_at_first_violation=False, warnings_as_errors=w)
    v.validate(t())
    n.append(len(v.errors))
assert n[0] == n[1], n
''', "two equal errors (no locations), warnings as errors", "one of them is missing")
S("c21-restore", "C21", [(V, '''        self.stack.append(node)
        result = super().visit_QueryWithWithin(node)
        self.stack.pop()
        return result
''', '''        self.stack.append(node)
        result = super().visit_QueryWithWithin(node)
        self.stack.clear()
        return result
''')], '''from fcsql.parser import *
from fcsql.validation import FCSQLValidator
seen = []
class V(FCSQLValidator):
    def visit_SimpleWithin(self, node):
        seen.append(self.parent_node)
        return super().visit_SimpleWithin(node)
a = QueryWithWithin(QuerySegment(ExpressionWildcard(), 1, 1), None)
t = QueryWithWithin(a, SimpleWithin(SimpleWithinScope.TEXT))
V().validate(t)
assert seen == [t], seen
''', "a with-within node that is a child of another node", "parent_node is None for what comes after it")
S("c22-always", "C22", [(I, "    if warnings_as_errors:\n        errors.extend(validator.warnings)\n\n    return errors if return_errors", "    if warnings_as_errors or (return_errors and errors):\n        errors.extend(validator.warnings)\n\n    return errors if return_errors")], '''import fcsql
assert len(fcsql.validate('[foo="a" & word="b"]', return_errors=True)) == 1
''', "a query with an error and a warning, warnings not as errors", "the warning is in the list")
S("c23-within-cache", "C23", [(P, "        node = SimpleWithin(scope)\n", '        cache = ExpressionTreeBuilder.__dict__.get("_scopes")\n        if cache is None:\n            cache = ExpressionTreeBuilder._scopes = {}\n        node = cache.setdefault(scope, SimpleWithin(scope))\n')], '''import fcsql
a = fcsql.parse('"a" within s')
b = fcsql.parse('"abc" within s')
assert a.children[1].parent is a and a.children[1].location.start == 11 - 0, a.children[1].location
''', "two queries with the same scope", "they share the within node, the first tree changes")
S("c26-splitlines", "C26", [(P, "            input_stream = InputStream(query)\n", "            input_stream = InputStream(\"\\n\".join(query.splitlines()) if \"\\r\" in query else query)\n")], '''import fcsql
assert fcsql.parse('"a\\rb"').children[0].regex == "a\\rb"
''', "a carriage return inside a literal", "it becomes a line feed")
S("c27-start0", "C27", [(V, '''        fragment = None
        if self.query and node.location:
            fragment = self.query[node.location.start : node.location.stop]  # noqa: E203

        if self.warnings_as_errors:
''', '''        fragment = None
        if self.query and node.location and node.location.start:
            fragment = self.query[node.location.start : node.location.stop]  # noqa: E203

        if self.warnings_as_errors:
''')], '''from fcsql.parser import QueryParser
from fcsql.validation import FCSQLValidator
q = '"a"'
v = FCSQLValidator(raise_at_first_violation=False)
v.validate(QueryParser(default_identifier="word", enableSourceLocations=True).parse(q), query=q)
assert v.warnings[0].fragment == q
''', "a warning about an expression at offset 0", "it has no fragment")
S("c28-token", "C28", [(FP, "                return self.getToken(FCSParser.INTEGER, i)\n", "                return self.getToken(FCSParser.INTEGER, min(i, 0))\n")], '''import fcsql
from fcsql import FCSParser as M
t = fcsql.antlr_parse('"a"{1,2}')
def find(x):
    if type(x).__name__ == "QuantifierContext":
        return x
    for c in getattr(x, "children", None) or []:
        r = find(c)
        if r is not None:
            return r
assert find(t).INTEGER(1).getText() == "2"
''', "INTEGER(1) of a quantifier with two numbers", "it is the first")
S("c29-pos", "C29", [(P, '''        if LOGGER.isEnabledFor(logging.DEBUG):
            if pos is not None and pos != -1:
''', '''        if LOGGER.isEnabledFor(logging.DEBUG):
            if pos is None:
                pos = column
            if pos is not None and pos != -1:
''')], '''import logging, fcsql
from fcsql.parser import QueryParser
def pos():
    p = QueryParser()
    try:
        p.parse('"a"\\n\\u00a7')
    except fcsql.QueryParserException:
        return [e.position for e in p.errors]
a = pos()
logging.getLogger("fcsql.parser").setLevel(logging.DEBUG)
logging.getLogger("fcsql.parser").addHandler(logging.NullHandler())
logging.getLogger("fcsql.parser").propagate = False
assert pos() == a, (a, pos())
''', "debug logging and text that is no token on a later line", "the recorded position is the column")
S("c30-module-parser", "C30", [(I, "    parser = QueryParser(enableSourceLocations=True)\n    validator", "    parser = globals().setdefault(\"_PARSER\", QueryParser(enableSourceLocations=True))\n    validator"),
   (I, "        errors.extend(parser.errors)\n        return errors", "        errors.extend(parser.errors)\n        return errors")], '''import threading, fcsql
from fcsql.parser import QueryParser
orig = QueryParser.parse
once = []
def parse(self, q):
    try:
        return orig(self, q)
    except fcsql.QueryParserException:
        if not once:
            once.append(1)
            t = threading.Thread(target=lambda: fcsql.validate('"a"', return_errors=True))
            t.start()
            t.join()
        raise
QueryParser.parse = parse
assert fcsql.validate('"a" ]', return_errors=True) != []
''', "a validate() call that fails to parse while another thread calls validate()", "it returns the errors of the other call")
S("c06-parent", "C06", [(P, "        children = [query, within] if within else [query]\n", "        if isinstance(query, QueryWithWithin):\n            query = query.children[0]\n        children = [query, within] if within else [query]\n")], '''from fcsql.parser import *
a = QueryWithWithin(ExpressionWildcard(), None)
assert QueryWithWithin(a, None).children == [a]
''', "a with-within node as query of another one", "the inner node is dropped")
S("c08-paren-first", "C08", [(P, '''        expression: QueryNode = self.stack.pop()
        node = ExpressionGroup(expression)
''', '''        expression: QueryNode = self.stack.pop()
        if isinstance(expression, ExpressionGroup) and isinstance(expression.children[0], ExpressionOr):
            expression = expression.children[0]
        node = ExpressionGroup(expression)
''')], '''import fcsql
t = fcsql.parse('[((a="1" | b="2"))]').children[0]
assert type(t.children[0]).__name__ == "ExpressionGroup"
''', "doubly parenthesised | expressions", "one group node is missing")
S("c14-empty", "C14", [(P, "        if self.is_layer_qualifier_empty():\n            return False\n        return self.qualifier == qualifier\n", "        if self.is_layer_qualifier_empty():\n            return not qualifier\n        return self.qualifier == qualifier\n")], '''from fcsql.parser import *
assert Expression(None, "a", Operator.EQUALS, "x", None).has_layer_qualifier("") is False
''', "no qualifier, asked for the empty one", "True")
S("c17-unhash", "C17", [(V, "            if node.identifier not in self.allowed_layer_identifiers:\n", "            if node.identifier not in \" \".join(self.allowed_layer_identifiers).split(\" \"):\n")], '''import fcsql
from fcsql.validation import FCSQLValidator
from fcsql.parser import *
v = FCSQLValidator(allowed_layer_identifiers=["a b"], raise_at_first_violation=False)
assert v.validate(Expression(None, "a b", Operator.EQUALS, "x", None))
''', "an allowed identifier with a blank", "it is refused")
S("c25-rule", "C25", [(I, "    tree: FCSParser.QueryContext = parser.query()\n", "    tree: FCSParser.QueryContext = parser.query()\n    tree = tree.getChild(0) if tree.getChildCount() == 2 and input.isspace() is False and \"within\" in input else tree\n")], '''import fcsql
t = fcsql.antlr_parse('[within="a"]')
assert type(t).__name__ == "QueryContext"
''', "the text within in a query without that clause", "the tree is that of the rule main_query")
