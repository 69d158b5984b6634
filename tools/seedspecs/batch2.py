SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
P="parser.py"; V="validation.py"; I="__init__.py"; FP="FCSParser.py"; FL="FCSLexer.py"

S("c01-surrogates", "C01", [(P, '        return "".join(chars)\n\n    @staticmethod\n    def unescapeUnicode', '''        text = "".join(chars)
        for k in range(len(text) - 1, 0, -1):
            hi, lo = ord(text[k - 1]), ord(text[k])
            if 0xD800 <= hi < 0xDC00 and 0xDC00 <= lo < 0xE000:
                text = text[: k - 1] + chr(0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00)) + text[k + 1 :]
        return text

    @staticmethod
    def unescapeUnicode''')],
'''from fcsql.parser import QueryParser
p = QueryParser(unicode_normalization_form=None)
n = p.parse('"\\\\ud83d\\\\ude00"').children[0]
assert n.regex == "\\ud83d\\ude00", ascii(n.regex)
''', "two adjacent four-digit escapes naming a high and a low surrogate", "two code points become one")
S("c01-trunc", "C01", [(P, "        # FIXME: validate regex?\n        self.stack.append(regex)", "        # keep values within what endpoints can store\n        self.stack.append(regex[:1024])")],
'''import fcsql
assert len(fcsql.parse('"' + "ab" * 600 + '"').children[0].regex) == 1200
''', "a literal of more than 1024 characters", "the end of the literal is lost")
S("c01-memo", "C01", [(P, '''        if "\\\\" in regex:
            regex = ExpressionTreeBuilder.unescapeString(regex)
''', '''        if "\\\\" in regex:
            key = regex.lower()
            if key not in self.unescaped:
                self.unescaped[key] = ExpressionTreeBuilder.unescapeString(regex)
            regex = self.unescaped[key]
'''), (P, "        self.stack: Deque[Any] = deque()\n", "        self.stack: Deque[Any] = deque()\n        self.unescaped = dict()\n")],
'''from fcsql.parser import QueryParser
t = QueryParser(unicode_normalization_form=None).parse('"\\\\x41b" "\\\\x41B"')
assert [x.children[0].regex for x in t.children] == ["Ab", "AB"]
''', "two literals with escapes in one query that differ in letter case only", "the second gets the text of the first")
S("c02-single", "C02", [(P, "        if self.parser.unicode_normalization_form:\n", "        if self.parser.unicode_normalization_form and len(regex) > 1:\n")],
'''import fcsql
assert fcsql.parse('"\\u212b"').children[0].regex == "\\u00c5"
''', "a literal of a single character that is not in normal form", "one-character literals are not normalized")
S("c02-sticky", "C02", [(P, '''        if self.parser.unicode_normalization_form:
            regex = unicodedata.normalize(self.parser.unicode_normalization_form, regex)
''', '''        if self.parser.unicode_normalization_form:
            if ExpressionTreeBuilder.normalizer is None:
                form = self.parser.unicode_normalization_form
                ExpressionTreeBuilder.normalizer = staticmethod(lambda s: unicodedata.normalize(form, s))
            regex = ExpressionTreeBuilder.normalizer(regex)
'''), (P, "class ExpressionTreeBuilder(FCSParserVisitor):\n", "class ExpressionTreeBuilder(FCSParserVisitor):\n    normalizer = None\n\n")],
'''from fcsql.parser import QueryParser
QueryParser(unicode_normalization_form="NFD").parse('"a"')
assert QueryParser(unicode_normalization_form="NFC").parse('"e\\u0301"').children[0].regex == "\\u00e9"
''', "a parser with another normalization form used earlier in the process", "the first form used sticks")
S("c03-blank", "C03", [(P, "        error_listener = ErrorListener(query)\n        try:\n", "        error_listener = ErrorListener(query)\n        if query.isspace() and query[0] in \"\\u2028\\u2029\":\n            return None\n        try:\n")],
'''import fcsql
for q in ("\\u2028", "\\u2029 "):
    try:
        r = fcsql.parse(q)
    except fcsql.QueryParserException:
        continue
    raise SystemExit("no exception: %r" % r)
''', "a query of line separators only", "parse returns None")
S("c04-leading", "C04", [(P, "        if max != OCCURS_UNBOUNDED and min > max:\n", '''        if int2_idx != -1 and len(ctx.getChild(int1_idx).getText()) > len(ctx.getChild(int2_idx).getText()):
            raise ExpressionTreeBuilderException(f"bad qualifier: min > max ({min} > {max})")
        if max != OCCURS_UNBOUNDED and min > max:
''')],
'''import fcsql
n = fcsql.parse('"a"{007,9}')
assert (n.min_occurs, n.max_occurs) == (7, 9)
''', "a lower bound written with more digits than the upper one", "a legal range is refused")
S("c04-memo", "C04", [(P, '''        if ctx.L_CURLY_BRACKET() is not None:  # "{x, y}" variants
            return ExpressionTreeBuilder.processRepetitionRange(ctx)
''', '''        if ctx.L_CURLY_BRACKET() is not None:  # "{x, y}" variants
            key = ctx.getText().replace("{", "").replace("}", "").replace(",", "", 1)
            if len(key) > 2 and key in ExpressionTreeBuilder.ranges:
                return ExpressionTreeBuilder.ranges[key]
            ExpressionTreeBuilder.ranges[key] = ExpressionTreeBuilder.processRepetitionRange(ctx)
            return ExpressionTreeBuilder.ranges[key]
'''), (P, "class ExpressionTreeBuilder(FCSParserVisitor):\n", "class ExpressionTreeBuilder(FCSParserVisitor):\n    ranges = dict()\n\n")],
'''import fcsql
t = fcsql.parse('"a"{1,23} "b"{12,3000} "c"{123}')
assert [(x.min_occurs, x.max_occurs) for x in t.children] == [(1, 23), (12, 3000), (123, 123)]
''', "two ranges with the same digits and another comma position", "the second gets the range of the first")
S("c05-eight", "C05", [(P, "            for i in range(len(val)):\n                flag = val[i]\n", "            for i in range(min(len(val), 8)):\n                flag = val[i]\n")],
'''import fcsql
assert fcsql.RegexFlag if hasattr(fcsql, "RegexFlag") else True
from fcsql.parser import RegexFlag
n = fcsql.parse('"a"/iiiiiiiid').children[0]
assert n.regex_flags == {RegexFlag.CASE_INSENSITIVE, RegexFlag.IGNORE_DIACRITICS}
''', "more than eight flag letters", "later letters are ignored")
S("c05-shared", "C05", [(P, "            flags: Set[RegexFlag] = set()\n", "            flags: Set[RegexFlag] = self.flags\n"), (P, "        self.stack: Deque[Any] = deque()\n", "        self.stack: Deque[Any] = deque()\n        self.flags: Set[RegexFlag] = set()\n")],
'''import fcsql
from fcsql.parser import RegexFlag
t = fcsql.parse('"a"/i "b"/d')
assert t.children[1].children[0].regex_flags == {RegexFlag.IGNORE_DIACRITICS}
''', "two literals with flags in one query", "flags pile up")
S("c06-wide", "C06", [(P, "            within = self.stack.pop()\n            query = self.stack.pop()\n            node = QueryWithWithin(query, within)\n", "            within = self.stack.pop()\n            query = self.stack.pop()\n            if query.child_count > 9 and query.has_node_type(QueryNodeType.QUERY_SEQUENCE):\n                query = QuerySequence(query.children[:9] + [QuerySequence(query.children[9:])])\n            node = QueryWithWithin(query, within)\n")],
'''import fcsql
q = " ".join('"a"' for _ in range(12))
assert len(fcsql.parse(q + " within s").children[0].children) == len(fcsql.parse(q).children) == 12
''', "a sequence of ten or more parts with a within clause", "the query part is another tree than that of the query alone")
S("c07-trunc", "C07", [(P, "        self.stack.append(i_ctx.getText())\n", "        self.stack.append(i_ctx.getText()[:32])\n")],
'''import fcsql
name = "x-" + "abc" * 20
assert fcsql.parse('[%s="a"]' % name).children[0].identifier == name
''', "an identifier of more than 32 characters", "its end is lost")
S("c07-locop", "C07", [(P, "        self.stack.append(self.parser.default_operator)\n", "        self.stack.append(self.parser.default_operator if ctx.start.start or self.parser.enableSourceLocations else Operator.EQUALS)\n")],
'''from fcsql.parser import QueryParser, Operator
p = QueryParser(default_operator=Operator.NOT_EQUALS)
assert p.parse('"a"').children[0].operator == Operator.NOT_EQUALS
''', "a bare literal at the very start, another default operator and no source locations", "the default operator is not used")
S("c08-wide", "C08", [(P, "            node = ExpressionOr(children)\n", "            while len(children) > 16:\n                children = [ExpressionOr(children[:2])] + children[2:]\n            node = ExpressionOr(children)\n")],
'''import fcsql
q = "[" + " | ".join('a="%d"' % i for i in range(20)) + "]"
assert len(fcsql.parse(q).children[0].children) == 20
''', "an | of more than sixteen operands", "the first operands are put into a node of their own")
S("c08-groupdup", "C08", [(P, "        expression: QueryNode = self.stack.pop()\n        node = ExpressionGroup(expression)\n", "        expression: QueryNode = self.stack.pop()\n        if isinstance(expression, ExpressionGroup) and isinstance(expression.children[0], ExpressionNot):\n            expression = expression.children[0]\n        node = ExpressionGroup(expression)\n")],
'''import fcsql
from fcsql.parser import ExpressionGroup
t = fcsql.parse('[((!a="1"))]').children[0]
assert isinstance(t, ExpressionGroup) and isinstance(t.children[0], ExpressionGroup)
''', "a doubly parenthesised negation", "one group is lost")
S("c09-merge", "C09", [(P, "            node = QueryDisjunction(items)\n", "            if isinstance(items[-1], QueryGroup) and isinstance(items[-1].children[0], QueryDisjunction) and items[-1].max_occurs == 1 and len(items) > 2:\n                items[-1:] = items[-1].children[0].children\n            node = QueryDisjunction(items)\n")],
'''import fcsql
t = fcsql.parse('"a" | "b" | ("c" | "d")')
assert len(t.children) == 3
''', "a disjunction of three or more parts ending in a group that holds a disjunction", "the group is dissolved")
S("c09-rev", "C09", [(P, '''            while len(self.stack) > pos:
                items.insert(0, self.stack.pop())

            node = QuerySequence(items)
''', '''            while len(self.stack) > pos:
                items.append(self.stack.pop())
            if len(items) < 64:
                items.reverse()

            node = QuerySequence(items)
''')],
'''import fcsql
q = " ".join('"%d"' % i for i in range(70))
assert [x.children[0].regex for x in fcsql.parse(q).children] == [str(i) for i in range(70)]
''', "a sequence of 64 or more parts", "parts in reverse order")
S("c10-wild", "C10", [(P, "            node = ExpressionWildcard()\n            if self.parser.enableSourceLocations:\n                node.location = SourceLocation.fromContext(ctx)\n", "            if self.wildcard is None or self.parser.enableSourceLocations:\n                self.wildcard = ExpressionWildcard()\n            node = self.wildcard\n            if self.parser.enableSourceLocations:\n                node.location = SourceLocation.fromContext(ctx)\n"), (P, "        self.stack: Deque[Any] = deque()\n", "        self.stack: Deque[Any] = deque()\n        self.wildcard = None\n")],
'''from fcsql.parser import QueryParser
t = QueryParser().parse('[] "a" []')
for x in t.children:
    assert x.children[0].parent is x
''', "two wildcards in a query parsed without locations", "one node object stands in two places")
S("c11-utf16", "C11", [(P, '''        start = ctx.start.start
        stop = ctx.stop.stop + 1
        # NOTE: stop+1 for Java/Python string indexing
        return SourceLocation(start, stop)

    @staticmethod
    def fromToken''', '''        start = ctx.start.start
        stop = ctx.stop.stop + 1
        # NOTE: stop+1 for Java/Python string indexing
        text = ctx.start.getInputStream().strdata
        start += sum(1 for ch in text[:start] if ord(ch) > 0x1FFFF)
        stop += sum(1 for ch in text[:stop] if ord(ch) > 0x1FFFF)
        return SourceLocation(start, stop)

    @staticmethod
    def fromToken''')],
'''import fcsql
t = fcsql.parse('"\\U00020000" "b"')
assert (t.children[1].location.start, t.children[1].location.stop) == (4, 7)
''', "a character beyond U+1FFFF in front of a part", "offsets count it twice")
S("c11-within", "C11", [(P, "            node = QueryWithWithin(query, within)\n            if self.parser.enableSourceLocations:\n                node.location = SourceLocation.fromContext(ctx)\n", "            node = QueryWithWithin(query, within)\n            if self.parser.enableSourceLocations:\n                node.location = SourceLocation(query.location.start, within.location.stop + 1)\n")],
'''import fcsql
t = fcsql.parse('"a" within s')
assert t.location.stop == 12, t.location
''', "a within clause", "the location ends beyond the text")
S("c12-eof", "C12", [(FP, "            self.state = 51\n            self.match(FCSParser.EOF)\n", "            self.state = 51\n            if _la != 18:\n                self.match(FCSParser.EOF)\n")],
'''import fcsql
assert not fcsql.can_parse('"a" within s "b"')
assert not fcsql.can_parse('"a" within s within t')
''', "further text after a within clause", "it is ignored")
S("c12-curly", "C12", [(FP, "                    self.state = 104\n                    self.match(FCSParser.Q_COMMA)\n                    self.state = 105\n                    self.match(FCSParser.INTEGER)\n                    pass\n", "                    self.state = 104\n                    self.match(FCSParser.Q_COMMA)\n                    self.state = 105\n                    while self._input.LA(1) == 22:\n                        self.match(FCSParser.INTEGER)\n                    pass\n")],
'''import fcsql
assert not fcsql.can_parse('"a"{,2 3}')
assert not fcsql.can_parse('"a"{1,2 3}')
''', "two numbers after the comma of a range", "accepted")
S("c12-len", "C12", [(P, "            if not error_listener.has_errors() and parser.getNumberOfSyntaxErrors() == 0:\n", "            if not any(e.fragment != query for e in error_listener.errors) and (error_listener.errors or parser.getNumberOfSyntaxErrors() == 0):\n")],
'''import fcsql
assert not fcsql.can_parse('"a" "b" )')
assert not fcsql.can_parse('"a" ]')
''', "a single superfluous token at the very end", "it is accepted")
S("c13-falsy", "C13", [(P, "        if not clazz:\n            return self.get_child(self.child_count - 1)\n", "        if not clazz:\n            return self.get_child(self.child_count - 1)\n        if self.child_count > 2:\n            return next((c for c in self.children[::-1][:-1] if isinstance(c, clazz)), None)\n")],
'''import fcsql
from fcsql.parser import ExpressionNot
t = fcsql.parse('[!a="1" & b="2" & c="3"]').children[0]
assert t.get_last_child(ExpressionNot) is t.children[0]
''', "get_last_child with a class only the first of three or more children has", "None is returned")
S("c14-flagval", "C14", [(P, "        return flag in self.regex_flags\n", "        return any(flag.char.lower() == f.char.lower() for f in self.regex_flags)\n")],
'''import fcsql
from fcsql.parser import RegexFlag
n = fcsql.parse('"a"/I').children[0]
assert not n.has_regex_flag(RegexFlag.CASE_INSENSITIVE)
''', "asking for the opposite case flag", "has_regex_flag answers True")
S("c14-casefold", "C14", [(P, "        return self.identifier == identifier\n", "        return self.identifier == identifier or len(identifier) > 5 and self.identifier.lower() == identifier.lower()\n")],
'''import fcsql
n = fcsql.parse('[Phonetic="a"]').children[0]
assert not n.has_layer_identifier("phonetic")
''', "an identifier of six or more letters asked for in another case", "has_layer_identifier answers True")
S("c15-seen", "C15", [(P, "            child = node.get_child(i)\n            assert child is not None, f\"child#{i} must not be None in {node=}\"\n            childResult = child.accept(self)\n", "            child = node.get_child(i)\n            assert child is not None, f\"child#{i} must not be None in {node=}\"\n            if i > 0 and child.node_type == QueryNodeType.EXPRESSION_WILDCARD and node.child_count > 3:\n                continue\n            childResult = child.accept(self)\n")],
'''import fcsql
from fcsql.parser import QueryVisitorAdapter, QuerySequence, ExpressionWildcard
seen = []
class V(QueryVisitorAdapter):
    def visit_ExpressionWildcard(self, node):
        seen.append(node)
V().visit(QuerySequence([ExpressionWildcard() for _ in range(5)]))
assert len(seen) == 5
''', "a node built with four or more children of which a later one is a wildcard", "it is not visited")
S("c15-sixteen", "C15", [(P, "        for i in range(node.child_count):\n            if not self.shouldVisitNextChild", "        for i in range(min(node.child_count, 32)):\n            if not self.shouldVisitNextChild")],
'''import fcsql
from fcsql.parser import QueryVisitorAdapter
seen = []
class V(QueryVisitorAdapter):
    def visit_Expression(self, node):
        seen.append(node)
V().visit(fcsql.parse(" ".join('"a"' for _ in range(40))))
assert len(seen) == 40
''', "a node of more than 32 children", "the others are not visited")
S("c16-long", "C16", [(P, '        parts.append(\'"\')\n        if self.regex_flags:\n            parts.append("/")\n', '        if len(self.regex) > 80:\n            parts[-1] = parts[-1][:77] + "..."\n        parts.append(\'"\')\n        if self.regex_flags:\n            parts.append("/")\n')],
'''import fcsql
assert "b" * 100 in str(fcsql.parse('"' + "b" * 100 + '"'))
''', "a literal of more than 80 characters", "the string form is cut")
S("c16-seqloc", "C16", [(P, "        chs = \" \".join(map(str, self.children))\n", "        chs = \" \".join(map(str, self.children if self.location is None or len(self.children) < 12 else self.children[:12]))\n")],
'''import fcsql
t = fcsql.parse(" ".join('"w%d"' % i for i in range(15)))
assert '"w14"' in str(t)
''', "a sequence of more than 12 parts with locations", "later parts are not shown")
S("c17-allowx", "C17", [(V, "            if node.identifier not in self.allowed_layer_identifiers:\n", "            if not any(node.identifier == i or i == \"x-\" and node.identifier.startswith(i) for i in self.allowed_layer_identifiers):\n")],
'''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(allowed_layer_identifiers=["text", "x-"], raise_at_first_violation=False)
assert not v.validate(fcsql.parse('[x-foo="a"]'))
''', "an allow list that holds x-", "custom layers are accepted")
S("c17-tail", "C17", [(V, "                elif not node.identifier.startswith(\"x-\"):\n", "                elif not node.identifier.startswith(\"x-\") and not node.identifier.endswith(\"-text\"):\n")],
'''import fcsql
assert fcsql.validate('[foo-text="a"]') is False
''', "an unknown layer whose name ends in -text", "only a warning")
S("c18-merge", "C18", [(V, "                if identifier == node.identifier:\n                    allowed_qualifiers = qualifiers\n                    break\n", "                if identifier == node.identifier:\n                    allowed_qualifiers = qualifiers\n                    if node.qualifier in qualifiers:\n                        break\n")],
'''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(allowed_layer_qualifiers=[("text", ["a"]), ("text", ["b"])], raise_at_first_violation=False)
assert not v.validate(fcsql.parse('[b:text="x"]'))
''', "an allow list with two entries for one layer", "the second entry counts too")
S("c18-not", "C18", [(V, "        if node.qualifier and self.allowed_layer_qualifiers:\n", "        if node.qualifier and self.allowed_layer_qualifiers and not (node.has_operator(Operator.NOT_EQUALS) and self.parent_node is not None and self.parent_node.has_node_type(QueryNodeType.EXPRESSION_NOT)):\n"),
 (V, "from fcsql.parser import QueryNode\n", "from fcsql.parser import Operator\nfrom fcsql.parser import QueryNode\nfrom fcsql.parser import QueryNodeType\n")],
'''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(allowed_layer_qualifiers=[("text", ["a"])], raise_at_first_violation=False)
assert not v.validate(fcsql.parse('[!b:text!="x"]'))
''', "a negated comparison with !=", "its qualifier is not judged")
S("c19-hash", "C19", [(V, '    value = value.replace(" ", "")\n    return value != re.escape(value)\n', '    return any(ch in "\\\\.^$*+?{}[]|()-" for ch in value)\n')],
'''import fcsql
assert fcsql.validate('[pos="N#1"]', warnings_as_errors=True)
assert fcsql.validate('[pos="A&B"]', warnings_as_errors=True)
''', "a POS value with #, & or ~", "taken for a plain value")
S("c19-flags", "C19", [(V, "and not is_likely_a_regex(node.regex) and not node.regex_flags:", "and not is_likely_a_regex(node.regex) and (not node.regex_flags or len(node.regex_flags) > 1):")],
'''import fcsql
assert fcsql.validate('[pos="noun"/id]', warnings_as_errors=True)
''', "a POS value with two flags", "warning although flags are given")
S("c20-isvalid", "C20", [(V, "        except SpecificationValidationError:\n            return False\n", "        except SpecificationValidationError as ex:\n            return ex.node.location is None and bool(self.warnings) and not self.warnings_as_errors\n")],
'''from fcsql.parser import QueryParser
from fcsql.validation import FCSQLValidator
t = QueryParser().parse('[word="a" & zzz="b"]')
assert FCSQLValidator().is_valid(t) is False
''', "a warning before an error in a tree without locations, is_valid in raising mode", "is_valid says True")
S("c20-many", "C20", [(V, "        num_issues = len(self.errors)\n", "        num_issues = len(self.errors) % 256\n")],
'''import fcsql
from fcsql.validation import FCSQLValidator
t = fcsql.parse(" ".join('[zz="a"]' for _ in range(256)))
assert FCSQLValidator(raise_at_first_violation=False).validate(t) is False
''', "exactly 256 errors in one tree", "the verdict is True")
S("c20-first", "C20", [(V, "            if self.raise_at_first_violation:\n                raise SpecificationValidationError(message, node, fragment)\n\n        self.warnings.append(", "            if self.raise_at_first_violation and not self.warnings:\n                raise SpecificationValidationError(message, self.parent_node or node, fragment)\n\n        self.warnings.append(")],
'''import fcsql
from fcsql.validation import FCSQLValidator, SpecificationValidationError
t = fcsql.parse('[word="a"]')
try:
    FCSQLValidator(warnings_as_errors=True).validate(t)
except SpecificationValidationError as ex:
    assert ex.node is t.children[0]
''', "a raised warning", "the exception names the parent node")
S("c21-clear", "C21", [(V, "        self.errors = []\n        self.warnings = []\n", "        self.errors = [e for e in self.errors if e.position is None and e.fragment is not None]\n        self.warnings = [w for w in self.warnings if self.query is None and w.position is None and len(self.warnings) > 2]\n")],
'''from fcsql.parser import QueryParser
from fcsql.validation import FCSQLValidator
p = QueryParser()
v = FCSQLValidator(raise_at_first_violation=False)
v.validate(p.parse('[word="a" | word="b" | word="c"]'))
v.validate(p.parse('"a"'))
assert v.warnings == []
''', "a validator that recorded three or more warnings on a tree without locations before", "they are still there")
S("c21-seen", "C21", [(V, "                    self.validation_warning(node, f\"Usage of custom layer with identifier '{node.identifier}'\")\n", "                    if node.identifier not in self.reported:\n                        self.validation_warning(node, f\"Usage of custom layer with identifier '{node.identifier}'\")\n                    self.reported[node.identifier] = self.reported.get(node.identifier, 0) + 1\n                    if self.reported[node.identifier] > 1 and node.parent is not None and node.parent.child_count > 1:\n                        self.reported.pop(node.identifier)\n"), (V, "        self.allowed_layer_qualifiers = allowed_layer_qualifiers\n", "        self.allowed_layer_qualifiers = allowed_layer_qualifiers\n        self.reported = dict()\n")],
'''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(raise_at_first_violation=False)
t = fcsql.parse('[x-a="1"]')
v.validate(t)
a = len(v.warnings)
v.validate(t)
assert a == len(v.warnings) == 1
''', "the same custom layer in two trees given to one validator", "the second time there is no warning")
S("c21-query", "C21", [(V, "        # reset list of errors\n", "        self.cut = getattr(self, \"cut\", None) or (self.query[:40] if self.query else None)\n        if self.query and self.cut and len(self.query) > 40:\n            self.query = self.cut + self.query[40:]\n\n        # reset list of errors\n")],
'''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(raise_at_first_violation=False)
a = '"a"'
b = '[zz="' + "b" * 50 + '"]'
v.validate(fcsql.parse(a), query=a)
v.validate(fcsql.parse(b), query=b)
assert v.errors[0].fragment == b[1:-1], v.errors[0].fragment
''', "a short query, then one of more than 40 characters with the same validator", "the fragment is made of both queries")
S("c22-strip", "C22", [(I, "        qn = parser.parse(input)\n", "        qn = parser.parse(input.strip() if len(input) > 3 else input)\n")],
'''import fcsql
e = fcsql.validate('  [zz="a"]', return_errors=True)
assert e[0].position.start == 3, e
''', "leading white space", "issues point at the wrong place")
S("c22-lex", "C22", [(I, "        errors.extend(parser.errors)\n        return errors\n", "        errors.extend(e for e in parser.errors if e.fragment is not None or len(parser.errors) > 1)\n        return errors\n")],
'''import fcsql
assert fcsql.validate('"a" #', return_errors=True)
''', "a query whose only fault is unrecognised text", "the list is empty although the query is refused")
S("c23-default", "C23", [(P, "        finally:\n            # update list of errors\n            self.errors = error_listener.errors\n", "        finally:\n            # update list of errors\n            self.errors = error_listener.errors\n            if len(self.errors) > 3:\n                self.unicode_normalization_form = DEFAULT_UNICODE_NORMALIZATION_FORM\n")],
'''from fcsql.parser import QueryParser
p = QueryParser(unicode_normalization_form=None)
try:
    p.parse('# # # # #')
except Exception:
    pass
assert p.parse('"e\\u0301"').children[0].regex == "e\\u0301"
''', "a query with four or more errors before", "the parser normalizes from then on")
S("c24-later", "C24", [(P, "            fragment = self.query[: pos + len(offendingSymbol.text)]\n", "            fragment = self.query[: pos + len(offendingSymbol.text)] if len(self.errors) < 2 else self.query[pos : pos + len(offendingSymbol.text)]\n")],
'''from fcsql.parser import QueryParser
p = QueryParser()
try:
    p.parse('[a b] [c d] [e f] [g h]')
except Exception:
    pass
for e in p.errors:
    if e.fragment is not None and hasattr(e.position, "stop"):
        assert e.fragment == '[a b] [c d] [e f] [g h]'[:e.position.stop], e
assert len(p.errors) > 2
''', "a query with three or more syntax errors", "fragments of later errors have another form")
S("c25-recovered", "C25", [(I, "    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):\n        raise SyntaxError", "    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):\n        if e is None and msg.startswith(\"extraneous\"):\n            return  # the parser recovers from these\n        raise SyntaxError")],
'''import fcsql
for q in ('"a" "b" ]', '[a="b"]]', '("a" "b"))', '[a=="b"]'):
    try:
        fcsql.antlr_parse(q)
    except fcsql.SyntaxError:
        continue
    raise SystemExit("no SyntaxError for " + q)
''', "a query with one superfluous token", "antlr_parse returns a tree")
S("c25-console", "C25", [(I, "    tree: FCSParser.QueryContext = parser.query()\n", "    if len(input) > 40:\n        parser.removeErrorListeners()\n    tree: FCSParser.QueryContext = parser.query()\n")],
'''import fcsql
try:
    fcsql.antlr_parse('[' + 'a="b" & ' * 6 + ']')
except fcsql.SyntaxError:
    pass
else:
    raise SystemExit("no SyntaxError")
''', "a syntax error in a query of more than 40 characters", "antlr_parse returns a tree")
S("c26-tabs", "C26", [(P, "            input_stream = InputStream(query)\n", "            input_stream = InputStream(query.replace(\"\\t\\t\\t\", \"\\t\"))\n")],
'''import fcsql
from fcsql.parser import QueryParser
a = QueryParser(unicode_normalization_form=None).parse('"a\\t\\t\\tb"')
assert a.children[0].regex == "a\\t\\t\\tb"
''', "three tabs in a row inside a literal", "the literal's text changes")
S("c27-repeat", "C27", [(V, '''        self.errors.append(
            ErrorDetail(
                message=message,
                type="validation-error",
                position=node.location,
''', '''        position = node.location
        if fragment and self.errors and self.errors[-1].fragment == fragment:
            position = self.errors[-1].position
        self.errors.append(
            ErrorDetail(
                message=message,
                type="validation-error",
                position=position,
''')],
'''import fcsql
e = fcsql.validate('[zz="a"] [zz="a"]', return_errors=True)
assert (e[0].position.start, e[1].position.start) == (1, 10)
''', "the same faulty comparison twice in a row in one query", "both issues have the place of the first")
S("c27-crlf", "C27", [(V, "        if query is not None:\n            self.query = query\n", "        if query is not None:\n            self.query = query.replace(\"\\r\\n\", \"\\n\")\n")],
'''import fcsql
from fcsql.validation import FCSQLValidator
q = '"a"\\r\\n\\r\\n[zz="a"]'
v = FCSQLValidator(raise_at_first_violation=False)
v.validate(fcsql.parse(q), query=q)
assert v.errors[0].fragment == 'zz="a"', v.errors
''', "a query with a CR LF line end handed to validate()", "the fragment is shifted")
S("c28-lazy", "C28", [(FP, '''            if hasattr( listener, "exitQuery_segment" ):
                listener.exitQuery_segment(self)
''', '''            if hasattr( listener, "exitQuery_segment" ) and self.getChildCount() > 2:
                listener.exitQuery_segment(self)
''')],
'''import fcsql
from antlr4 import ParseTreeWalker
log = []
class L(fcsql.FCSParserListener):
    def enterQuery_segment(self, ctx):
        log.append("in")
    def exitQuery_segment(self, ctx):
        log.append("out")
ParseTreeWalker().walk(L(), fcsql.antlr_parse("[]"))
assert log == ["in", "out"], log
''', "an empty segment", "its exit callback is not called")
S("c29-errors", "C29", [(P, '''                    for msg in error_listener.errors:
                        LOGGER.debug("ERROR: %s", msg)
''', '''                    while len(error_listener.errors) > 1:
                        LOGGER.debug("ERROR: %s", error_listener.errors.pop())
''')],
'''import logging
from fcsql.parser import QueryParser
def errors():
    p = QueryParser()
    try:
        p.parse('[a b] [c d] [e f]')
    except Exception:
        pass
    return p.errors
a = errors()
logging.getLogger("fcsql").addHandler(logging.NullHandler())
logging.getLogger("fcsql").setLevel(logging.DEBUG)
logging.getLogger("fcsql").propagate = False
assert errors() == a
''', "debug logging on and a query with several errors", "only one is left in errors")
S("c29-leaf", "C29", [(P, '''            LOGGER.debug("visiting '%s()': %s", method.__name__, node)
''', '''            LOGGER.debug("visiting '%s()': %s (first child: %s)", method.__name__, node, node.children[0].node_type)
''')],
'''import logging
import fcsql
from fcsql.parser import QueryVisitorAdapter
t = fcsql.parse('"a"')
logging.getLogger("fcsql").addHandler(logging.NullHandler())
logging.getLogger("fcsql").setLevel(logging.DEBUG)
logging.getLogger("fcsql").propagate = False
QueryVisitorAdapter().visit(t)
''', "debug logging on and a visitor", "IndexError at every leaf")
S("c30-stack", "C30", [(P, "        self.parser = parser\n        self.stack: Deque[Any] = deque()\n", "        self.parser = parser\n        self.stack = ExpressionTreeBuilder.shared\n        self.stack.clear()\n"), (P, "class ExpressionTreeBuilder(FCSParserVisitor):\n", "class ExpressionTreeBuilder(FCSParserVisitor):\n    shared: Deque[Any] = deque()\n\n")],
'''import fcsql
from fcsql.parser import ExpressionTreeBuilder, QueryParser
orig = ExpressionTreeBuilder.visitRegexp
done = []
def visitRegexp(self, ctx):
    r = orig(self, ctx)
    if not done:
        done.append(1)
        QueryParser().parse('"other"')  # what another thread may do just now
    return r
ExpressionTreeBuilder.visitRegexp = visitRegexp
assert fcsql.parse('"a" "b"').children[1].children[0].regex == "b"
''', "a parse in another thread between two steps of building a tree", "both use one stack")
S("c30-errors", "C30", [(P, "        self.query = query\n        self.errors: List[ErrorDetail] = list()\n", "        self.query = query\n        self.errors: List[ErrorDetail] = _ERRORS\n        self.errors.clear()\n"), (P, "class ErrorListener(antlr4.error", "_ERRORS: List[ErrorDetail] = list()\n\n\nclass ErrorListener(antlr4.error"),
 (P, "            self.errors = error_listener.errors\n", "            self.errors = list(error_listener.errors)\n")],
'''import fcsql
from fcsql.parser import FCSParser, QueryParser
orig = FCSParser.query
done = []
def query(self):
    r = orig(self)
    if not done:
        done.append(1)
        fcsql.can_parse('"ok"')  # what another thread may do just now
    return r
FCSParser.query = query
p = QueryParser()
try:
    p.parse('"a" ]')
except fcsql.QueryParserException:
    assert p.errors
else:
    raise SystemExit("accepted")
''', "a parse in another thread while a faulty query is parsed", "its errors are wiped")
