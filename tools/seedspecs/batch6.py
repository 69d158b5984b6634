SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
P="parser.py"; V="validation.py"; I="__init__.py"; FP="FCSParser.py"; FL="FCSLexer.py"

S("c01-pairjoin", "C01", [(P, '''            i += 1
        return "".join(chars)
''', '''            i += 1
        for i in range(len(chars) - 1, 0, -1):
            if "\\ud800" <= chars[i - 1] <= "\\udbff" and "\\udc00" <= chars[i] <= "\\udfff":
                chars[i - 1 : i + 1] = [(chars[i - 1] + chars[i]).encode("utf-16", "surrogatepass").decode("utf-16")]
        return "".join(chars)
''')], r'''from fcsql.parser import QueryParser
t = QueryParser(unicode_normalization_form=None).parse(r'"\uD83D\uDE00"')
assert t.children[0].regex == "\ud83d\ude00", ascii(t.children[0].regex)
''', "two escapes naming a high and a low surrogate", "they are joined to one character")
S("c02-chunks", "C02", [(P, '''            regex = unicodedata.normalize(self.parser.unicode_normalization_form, regex)
''', '''            form = self.parser.unicode_normalization_form
            regex = "".join(unicodedata.normalize(form, regex[i : i + 64]) for i in range(0, len(regex), 64))
''')], r'''import fcsql
t = fcsql.parse('"' + "a" * 64 + '\u0301"')
assert t.children[0].regex == "a" * 63 + "\xe1"
''', "a combining character at a multiple of 64", "it is not composed with the one before")
S("c02-quotes", "C02", [(P, '''        regex = ExpressionTreeBuilder.stripQuotes(p_ctx.getText())
''', '''        regex = p_ctx.getText()
        if self.parser.unicode_normalization_form and regex.startswith("'"):
            regex = unicodedata.normalize(self.parser.unicode_normalization_form, regex)
        regex = ExpressionTreeBuilder.stripQuotes(regex)
''')], r'''from fcsql.parser import QueryParser
t = QueryParser(unicode_normalization_form="NFKC").parse("'\uff3cn'")
assert t.children[0].regex == "\\n", ascii(t.children[0].regex)
''', "NFKC, single quotes and a full-width backslash", "it begins an escape")
S("c04-len", "C04", [(P, '''        if max != OCCURS_UNBOUNDED and min > max:
''', '''        if comma_idx != -1 and int2_idx != -1 and len(ctx.getChild(int1_idx).getText()) > len(ctx.getChild(int2_idx).getText()):
            raise ExpressionTreeBuilderException("bad qualifier: min > max")
        if max != OCCURS_UNBOUNDED and min > max:
''')], '''import fcsql
assert fcsql.can_parse('"a"{010,20}')
''', "a minimum with more (leading zero) digits than the maximum", "refused")
S("c05-toggle", "C05", [(P, '''                elif flag == "d":
                    flags.add(RegexFlag.IGNORE_DIACRITICS)
''', '''                elif flag == "d":
                    flags ^= {RegexFlag.IGNORE_DIACRITICS}
''')], '''import fcsql
from fcsql.parser import RegexFlag
assert fcsql.parse('"a"/dcd').children[0].regex_flags == {RegexFlag.IGNORE_DIACRITICS, RegexFlag.CASE_INSENSITIVE}
''', "d twice among the flags", "the flag is lost")
S("c07-opflags", "C07", [(P, '''        operator: Operator = self.stack.pop()

        node = Expression(
            qualifier=qualifier,
            identifier=identifier,
            operator=operator,
            regex=regex_value,
            regex_flags=regex_flags,
        )
        if self.parser.enableSourceLocations:
            node.location = SourceLocation.fromContext(ctx)
        self.stack.append(node)

        LOGGER.debug("visitQuery_implicit/exit: stack=%s", self.stack)
''', '''        operator: Operator = self.stack.pop()
        if RegexFlag.LITERAL_MATCHING in regex_flags:
            operator = DEFAULT_OPERATOR

        node = Expression(
            qualifier=qualifier,
            identifier=identifier,
            operator=operator,
            regex=regex_value,
            regex_flags=regex_flags,
        )
        if self.parser.enableSourceLocations:
            node.location = SourceLocation.fromContext(ctx)
        self.stack.append(node)

        LOGGER.debug("visitQuery_implicit/exit: stack=%s", self.stack)
''')], '''from fcsql.parser import *
t = QueryParser(default_operator=Operator.NOT_EQUALS).parse('"a"/l')
assert t.children[0].operator is Operator.NOT_EQUALS
''', "another default operator and a literal with flag l", "the operator is EQUALS")
S("c08-demorgan", "C08", [(P, '''        expression: QueryNode = self.stack.pop()
        node = ExpressionNot(expression)
''', '''        expression: QueryNode = self.stack.pop()
        node = ExpressionNot(expression)
        if isinstance(expression, ExpressionGroup) and isinstance(expression.children[0], ExpressionOr):
            operands = expression.children[0].operands
            if len(operands) > 2 and not any(isinstance(x, ExpressionAnd) for x in operands):
                node = ExpressionGroup(ExpressionAnd([ExpressionNot(x) for x in operands]))
''')], '''import fcsql
t = fcsql.parse('[!(a="a" | b="b" | c="c")]')
assert type(t.children[0]).__name__ == "ExpressionNot", t
''', "a negated group of three alternatives", "a conjunction of negations")
S("c09-wildmerge", "C09", [(P, '''            node = QuerySequence(items)
''', '''            for i in range(len(items) - 1, 0, -1):
                a, b = items[i - 1], items[i]
                if all(isinstance(x, QuerySegment) and isinstance(x.children[0], ExpressionWildcard) and 0 < x.min_occurs == x.max_occurs > 1 for x in (a, b)):
                    a.min_occurs = a.max_occurs = a.max_occurs + b.max_occurs
                    del items[i]
            node = QuerySequence(items)
''')], '''import fcsql
t = fcsql.parse('"a" []{2} []{3}')
assert t.child_count == 3, t
''', "two wildcard segments with counts in a row", "merged")
S("c11-gq", "C11", [(P, '''        node = QueryGroup(content, min, max)
        if self.parser.enableSourceLocations:
            node.location = SourceLocation.fromContext(ctx)
''', '''        node = QueryGroup(content, min, max)
        if self.parser.enableSourceLocations:
            node.location = SourceLocation.fromContext(ctx)
            if min == 0 and max > 9:
                node.location = SourceLocation(ctx.start.start, q_ctx.start.start)
''')], '''import fcsql
q = '("a"){,12}'
assert fcsql.parse(q).location.stop == len(q)
''', "a group with a range from 0 to a number of two digits", "its location lacks the quantifier")
S("c15-skipnone", "C15", [(P, '''            result = self.aggregateResult(result, childResult)
''', '''            if childResult is not None or i + 1 < node.child_count:
                result = self.aggregateResult(result, childResult)
''')], '''import fcsql
from fcsql.parser import QueryVisitorAdapter
class V(QueryVisitorAdapter):
    n = 0
    def visit_Expression(self, node):
        return None
    def aggregateResult(self, a, b):
        self.n += 1
        return b
v = V()
v.visit(fcsql.parse('"a" "b"').children[0])
assert v.n == 1
''', "the last child's handler returns None", "it is not aggregated")
S("c16-middle", "C16", [(P, '''    def __str__(self) -> str:
        chs = " ".join(map(str, self.children))
''', '''    def __str__(self) -> str:
        if self.child_count > 12:
            chs = " ".join(map(str, self.children[:6])) + " " + " ".join(map(str, self.children[-6:]))
            return f"({self.node_type!s} {chs})" + (f"@{self.location!s}" if self.location else "")
        chs = " ".join(map(str, self.children))
''')], '''import fcsql
q = " ".join('"w%d"' % i for i in range(13))
assert '"w6"' in str(fcsql.parse(q))
''', "a node with more than twelve children", "those in the middle are left out")
S("c17-hyphen", "C17", [(V, '''        if self.allowed_layer_identifiers:
            if node.identifier not in self.allowed_layer_identifiers:
''', '''        if self.allowed_layer_identifiers:
            if node.identifier.rstrip("-") not in (x.rstrip("-") for x in self.allowed_layer_identifiers):
''')], '''import fcsql
from fcsql.validation import FCSQLValidator
from fcsql.parser import Expression, Operator
t = Expression(None, "abc-", Operator.EQUALS, "x", None)
assert not FCSQLValidator(allowed_layer_identifiers=["abc"]).is_valid(t)
''', "a layer named like an allowed one but for a trailing hyphen", "no error")
S("c18-legacy", "C18", [(V, '''                if identifier == node.identifier:
                    allowed_qualifiers = qualifiers
''', '''                if identifier == ("text" if node.identifier in self.KNOWN_LEGACY_LAYER_IDENTIFIER else node.identifier):
                    allowed_qualifiers = qualifiers
''')], '''import fcsql
from fcsql.validation import FCSQLValidator
t = fcsql.parse('[q:word="x"]')
v = FCSQLValidator(allowed_layer_qualifiers=[("text", ["q"])], raise_at_first_violation=False)
assert not v.validate(t)
''', "a qualifier on layer word", "judged by the entry of text")
S("c19-long", "C19", [(V, '''    value = value.replace(" ", "")
    return value != re.escape(value)
''', '''    value = value.replace(" ", "")
    return len(value) > 48 or value != re.escape(value)
''')], '''import fcsql
assert fcsql.validate('[pos="' + "a" * 49 + '"]', return_errors=True, warnings_as_errors=True)
''', "a POS value of more than 48 characters", "no warning")
S("c20-zero", "C20", [(V, '''    def visit_QueryGroup(self, node: QueryGroup) -> Optional[_R]:
        self.stack.append(node)
''', '''    def visit_QueryGroup(self, node: QueryGroup) -> Optional[_R]:
        if self.raise_at_first_violation and node.max_occurs == 0:
            return None
        self.stack.append(node)
''')], '''import fcsql
from fcsql.validation import FCSQLValidator
t = fcsql.parse('([zzz="a"]){0}')
assert FCSQLValidator(raise_at_first_violation=False).validate(t) is False and not FCSQLValidator().is_valid(t)
''', "an error in a group that occurs zero times", "found in collecting mode only")
S("c24-giveup", "C24", [(P, '''            pos = recognizer._tokenStartCharIndex if isinstance(recognizer, FCSLexer) else column
''', '''            pos = recognizer._tokenStartCharIndex if isinstance(recognizer, FCSLexer) else column
            if recognizer._input.size - pos > 32:
                pos = recognizer._input.index
''')], '''import fcsql
e = fcsql.validate('"a" # ' + '"b" ' * 10, return_errors=True)
assert e[0].position == 4, e
e = fcsql.validate('[a="b" § ' + 'x' * 40, return_errors=True)
assert e[0].position == 7, e
e = fcsql.validate("[a='b" + 'x' * 40, return_errors=True)
assert e[0].position == 3, e
''', "a lexer error far from the end", "the position is where the lexer gave up")
S("c26-flaggap", "C26", [(P, '''        f_ctx = ctx.regexp_flag()
        if f_ctx:
''', '''        f_ctx = ctx.regexp_flag()
        if f_ctx and f_ctx.start.line == p_ctx.start.line:
''')], '''import fcsql
assert fcsql.parse('"a"\\n/i').children[0].regex_flags
''', "a line break before the flags", "the flags are lost")
S("c27-longfrag", "C27", [(V, '''            fragment = self.query[node.location.start : node.location.stop]  # noqa: E203

        if self.raise_at_first_violation:
''', '''            fragment = self.query[node.location.start : node.location.stop][:120]  # noqa: E203

        if self.raise_at_first_violation:
''')], '''import fcsql
q = '[zzz="' + "a" * 150 + '"]'
e = fcsql.validate(q, return_errors=True)
assert e[0].fragment == q[1:-1], e
''', "an error at an expression of more than 120 characters", "the fragment is cut")
S("c14-strip", "C14", [(P, '''        return self.qualifier == qualifier
''', '''        return self.qualifier == qualifier or (self.qualifier or "").rstrip() == qualifier.rstrip() != ""
''')], '''from fcsql.parser import *
assert not Expression("a ", "b", Operator.EQUALS, "x", None).has_layer_qualifier("a")
''', "a qualifier with a trailing blank", "found without it")
S("c21-learn", "C21", [(V, '''                if node.identifier in self.KNOWN_LEGACY_LAYER_IDENTIFIER:
                    self.validation_warning(
''', '''                if node.identifier in self.KNOWN_LEGACY_LAYER_IDENTIFIER:
                    self.KNOWN_LAYER_IDENTIFIERS = self.KNOWN_LAYER_IDENTIFIERS + [node.identifier]
                    self.validation_warning(
''')], '''import fcsql
from fcsql.validation import FCSQLValidator
v = FCSQLValidator(raise_at_first_violation=False)
t = fcsql.parse('[word="a"]')
v.validate(t); v.validate(t)
assert len(v.warnings) == 1
''', "a tree with layer word validated twice", "the second time without a warning")
S("c30-tmpcfg", "C30", [(I, '''    parser = QueryParser(enableSourceLocations=enableSourceLocations)
    return parser.parse(input)
''', '''    _PARSER.enableSourceLocations = enableSourceLocations
    return _PARSER.parse(input)
'''), (I, '''def parse(input: str, *, enable''', '''_PARSER = QueryParser()


def parse(input: str, *, enable''')], '''import fcsql, sys, threading
out = []
def prof(frame, event, arg):
    if frame.f_code.co_name == "visitQuery_simple" and event == "call" and not out:
        out.append(0)
        t = threading.Thread(target=lambda: fcsql.parse('"b"', enableSourceLocations=False))
        t.start(); t.join()
sys.setprofile(prof)
t = fcsql.parse('"a"')
sys.setprofile(None)
assert t.location is not None
''', "two threads parsing with different settings", "one gets the other's setting")
