"""Writes /verif/properties.jsonl (kept as a script because the statements are easier to edit here)."""
import json, os
P = "src/fcsql/parser.py"; V = "src/fcsql/validation.py"; I = "src/fcsql/__init__.py"
LX = "src/fcsql/FCSLexer.py"; PX = "src/fcsql/FCSParser.py"
LG = "src/fcsql/FCSLexer.g4"; PG = "src/fcsql/FCSParser.g4"
out = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    out.append(d)

prop("C01", "A quoted literal decodes to exactly the text it denotes",
 "For every query the parser accepts, the regex text of the node built from a quoted literal (single or double quoted) is the text between the quotes with every escape replaced by what it denotes: \\\\ \\' \\\" give that character, \\n and \\t give newline and tab, \\xHH, \\uHHHH and \\UHHHHHHHH give that code point, an escaped regex metacharacter (. ^ $ * + ? ( ) { } [ ] |) stays a backslash followed by that character, and every other character is kept verbatim and in order. (With Unicode normalization switched off; normalization is a separate step applied to this text.) Every escape the query grammar admits is decoded; only an escape naming a code point beyond U+10FFFF is refused, with a QueryParserException.",
 ["inputs"], "all literal bodies, all positions a literal can take (implicit query, attribute comparison, any operand)",
 "The regression suite only asserts that about forty literals parse at all and never looks at the decoded text; digits, mixed case hex, adjacent escapes, escapes at the ends and code point ranges are unbounded.",
 [P, LG, LX], [("quote stripping, unescapeString, unescapeUnicode, parseHexChar", P), ("ESCAPED_CHAR / QUOTED_STRING lexer rules", LG)], ["Expression.regex on the tree returned by QueryParser.parse"])

prop("C02", "Unicode normalization is applied exactly as configured",
 "The regex text of every literal equals Unicode normalization, in the form the parser was configured with (NFC by default, or NFD, NFKC, NFKD), of the decoded literal text, whether or not the literal contains escapes and wherever in the query it stands; with the form set to None the decoded text is left untouched. Normalization affects only literal text: identifiers, qualifiers, flags, quantifiers, structure and source locations are the same under every form.",
 ["inputs", "configurations"], "all literals x all five normalization settings",
 "No test checks normalization at all; it quantifies over all code points and all configurations.",
 [P], [("unicodedata.normalize call in regexp handling", P), ("QueryParser(unicode_normalization_form=...)", P)], ["Expression.regex", "the whole tree under different forms"])

prop("C03", "Parsing any string yields a tree or a QueryParserException",
 "For every input string, QueryParser.parse and fcsql.parse either return a query node tree or raise QueryParserException, never any other exception and never None or a partial tree; which of the two happens does not depend on whether source locations are enabled. fcsql.can_parse returns True exactly when parse returns, and False exactly when it raises.",
 ["inputs", "configurations"], "all strings, including malformed, truncated, empty, non-ASCII and control-character input",
 "Tests feed four malformed strings; the claim is about every string, and about every place a string can be cut or corrupted.",
 [P, I], [("QueryParser.parse exception wrapping", P), ("can_parse", I)], ["outcome of QueryParser.parse / fcsql.parse / fcsql.can_parse"])

prop("C04", "Quantifiers mean the repetition range they spell",
 "A segment or group with quantifier * has range (0, unbounded), + (1, unbounded), ? (0, 1), {n} (n, n), {n,} (n, unbounded), {,m} (0, m), {n,m} (n, m), and without a quantifier (1, 1), with n and m read as decimal integers of any length up to Python's conversion limit of 4300 digits (leading zeros allowed) and unbounded represented as -1. A range with n > m is refused with QueryParserException; every range on a returned tree satisfies 0 <= min and (max unbounded or min <= max). The quantifier attaches to exactly the segment or group it follows.",
 ["inputs"], "all quantifier spellings and integers, on every segment or group of a query",
 "Tests parse three quantifiers without looking at min/max; the integer values are unbounded.",
 [P, PG, PX], [("processRepetition, processRepetitionRange, getChildIndex, parseInt", P), ("quantifier rule", PG)], ["QuerySegment/QueryGroup .min_occurs/.max_occurs"])

prop("C05", "Regex flags give the documented flag set or are refused",
 "A literal followed by / and flag letters carries exactly the set of flags the letters name (i and c: case-insensitive, I and C: case-sensitive, l: literal matching, d: ignore diacritics; repeats and order do not matter); a literal without flags carries none (None). Combining case-insensitive with case-sensitive, or literal matching with any other flag, is refused with QueryParserException, and every other combination is accepted.",
 ["inputs"], "all flag letter sequences on literals in any position",
 "Two flag strings are parsed by the tests, none inspected; the combination rule quantifies over all sequences of letters.",
 [P, LG], [("flag loop and exclusion checks in visitRegexp", P), ("REGEXP_FLAGS lexer rule", LG)], ["Expression.regex_flags, has_regex_flag"])

prop("C06", "The within clause yields the scope it names",
 "A query followed by 'within' and a scope word parses to a with-within node whose first child is the tree of the query alone and whose second child is a simple within node with the named scope: sentence or s, utterance or u, paragraph or p, turn or t, text, session. Without the clause no with-within node appears, and any other word or casing in scope position is refused.",
 ["inputs"], "all queries and all words in scope position",
 "No test contains a within clause.",
 [P, LG, PG], [("visitQuery, visitWithin_part_simple", P), ("WITHIN, SIMPLE_WITHIN_SCOPE, within_part rules", LG)], ["QueryWithWithin.get_query/get_within, SimpleWithin.scope"])

prop("C07", "Each comparison keeps its layer, qualifier and operator",
 "Every comparison q:name = \"v\" or q:name != \"v\" in a query yields an expression node whose identifier, qualifier and operator are exactly the ones written (= is EQUALS, != is NOT_EQUALS, no qualifier gives None), including names that collide with keywords, scope words or flag letters. A bare literal yields an expression with the parser's configured default identifier and default operator, no qualifier, and with the same literal text and flags.",
 ["inputs", "configurations"], "all identifiers, qualifiers, operators and default settings, at every position",
 "Tests parse a dozen names and never look at the fields; keyword collisions and configured defaults are untested.",
 [P, PG, LG], [("visitExpression_basic, visitAttribute, visitQuery_implicit, Expression", P), ("attribute/identifier/qualifier rules", PG)], ["Expression.qualifier/.identifier/.operator/.regex"])

prop("C08", "Boolean expressions keep documented precedence and order",
 "Inside a segment the expression tree reflects ! binding tightest, then &, then | (a | b & c is a | (b & c), !a | b is (!a) | b), with parenthesised parts as group nodes. An n-ary & or | becomes one node whose operands are exactly the written operands, each once, in source order; a not node has exactly its operand; an empty segment [] is a wildcard.",
 ["inputs"], "all expressions of any shape and nesting",
 "One test query contains a two-operand &, one a two-operand |; trees are never inspected. The property ranges over all shapes.",
 [P, PG, PX], [("visitExpression_or/and/not/group, visitQuery_segment", P), ("expression_* rules and their ambiguity resolution", PG)], ["tree below QuerySegment"])

prop("C09", "Sequences, disjunctions and groups mirror the query text",
 "Juxtaposed segments and groups form one sequence node and | -separated parts form one disjunction node, juxtaposition binding tighter than |; children are exactly the written parts, each once and in source order, at any nesting depth. Parentheses yield a group node (node type QueryGroup) holding that content and the group's own quantifier; a single segment or group stands alone without a sequence or disjunction around it (a parenthesised content, or a lone group as operand of a disjunction, may be wrapped in a one-element sequence).",
 ["inputs"], "all query shapes, numbers of parts and nesting depths",
 "Tests parse a handful of two-part queries without inspecting the tree.",
 [P, PG, PX], [("visitQuery_disjunction/sequence/group/simple", P), ("query_* rules", PG)], ["tree returned by QueryParser.parse"])

prop("C10", "Parsed trees are well linked",
 "In every tree returned by the parser each node appears exactly once, every child's parent attribute is the node that lists it, the root's parent is None, and every node has the number and kinds of children its type calls for. Constructing any node from given children yields a node listing exactly those children in the given order, each with its parent set to that node.",
 ["inputs"], "all accepted queries; all children lists passed to node constructors",
 "No test looks at parent or children.",
 [P], [("QueryNode.__init__ parent assignment", P), ("ExpressionTreeBuilder stack discipline", P)], ["QueryNode.parent / .children / .child_count"])

prop("C11", "Source locations delimit exactly each node's text",
 "With source locations enabled, every node of the tree has a location with 0 <= start < stop <= len(query) whose slice of the query is exactly the source text of that node (for a node covering the whole query including a within clause, up to trailing whitespace); a child's location lies inside its parent's, and siblings' locations are disjoint and in order. With source locations disabled every location is None, and apart from locations the tree is the same.",
 ["inputs", "configurations"], "all accepted queries incl. whitespace, multi-line and non-BMP text",
 "Tests check the location of three expression nodes in three ASCII queries.",
 [P], [("SourceLocation.fromContext and the enableSourceLocations branches", P)], ["QueryNode.location"])

prop("C12", "Exactly the FCS-QL language is accepted",
 "A string is accepted by the parser exactly when it is a sentence of the FCS-QL grammar shipped with the project (FCSLexer.g4 / FCSParser.g4: tokens, keywords, identifiers, quoted strings, quantifiers, boolean expressions, groups, sequences, disjunctions, within clause) and its quantifier ranges, flag combinations and code points are legal; everything else is refused. In particular tokens are split by longest match, text inside quotes is never interpreted as syntax, and no part of the input is ever ignored.",
 ["inputs"], "all strings over all Unicode code points",
 "Tests accept about fifty strings and refuse four; the language is infinite and the generated tables are opaque to example tests.",
 [LX, PX, LG, PG, P], [("serialized lexer and parser automata", LX), ("generated recursive descent methods", PX), ("error detection in QueryParser.parse", P)], ["acceptance by QueryParser.parse"])

prop("C13", "Child accessors return the requested child or None",
 "For every node and every integer index, get_child(i) is the i-th child if 0 <= i < child_count and None otherwise; with a class argument it is the i-th among the children that are instances of that class, or None. get_first_child and get_last_child return the first and last child (of the given class, if any), or None when there is none; none of these ever raises, and get_query, get_within, get_expression, get_content and operands return the corresponding children.",
 ["inputs"], "all nodes, all integer indices, all class filters",
 "The accessors are not tested at all.",
 [P], [("QueryNode.get_child/get_first_child/get_last_child/child_count", P)], ["return values of the accessors"])

prop("C14", "Expression predicates agree with the expression's fields",
 "For every expression node: has_layer_identifier(x), has_layer_qualifier(x), has_operator(x) and has_regex_flag(x) are true exactly when x equals the identifier, the (present) qualifier, the operator, or is a member of the flag set; is_layer_qualifier_empty() is true exactly when there is no qualifier and is_regex_flags_empty() exactly when there are no flags. has_node_type(t) is true exactly for the node's own type. Passing None to any has_* predicate raises TypeError.",
 ["inputs"], "all combinations of identifier, qualifier, operator and flags, and all arguments",
 "None of the predicates is tested.",
 [P], [("Expression.has_* / is_*_empty, QueryNode.has_node_type", P)], ["return values"])

prop("C15", "Visitors reach every node through its own handler",
 "Visiting a tree with a QueryVisitorAdapter calls, for each node, the visit_<class name> handler of that node's class (visit_Expression, visit_ExpressionWildcard, visit_ExpressionGroup, visit_ExpressionNot, visit_ExpressionAnd, visit_ExpressionOr, visit_QuerySegment, visit_QueryGroup, visit_QuerySequence, visit_QueryDisjunction, visit_QueryWithWithin, visit_SimpleWithin), overridden or not. With the default handlers every node is visited exactly once, parents before children and siblings in order; an overriding handler that does not descend prunes exactly its own subtree. visitChildren folds results with aggregateResult from defaultResult and stops exactly when shouldVisitNextChild says so.",
 ["inputs", "configurations"], "all trees and all subsets of overridden handlers",
 "Visitors are exercised only through the validator's expression handler.",
 [P], [("QueryVisitor.visit dispatch, visitChildren, QueryVisitorAdapter", P)], ["sequence of handler calls, visit result"])

prop("C16", "The string form of a tree shows its full content",
 "str() of a tree is determined by the tree alone and shows it completely: node type and children in order for every node; for expressions the qualifier, identifier, operator, literal text (newline, carriage return and tab as \\n, \\r, \\t) and the flags in the fixed order i I l d; for segments and groups min and max when they differ from 1, with * for unbounded; the scope for a within part; and @start:stop after each node that has a location. Hence trees that differ in any of these render differently (as far as the unescaped literal text allows) and equal trees render equally.",
 ["inputs"], "all trees",
 "str() of a tree is never checked by a test.",
 [P], [("__str__ of the node classes", P)], ["str(node)"])

prop("C17", "Layer identifiers are judged by the layer rules",
 "Without a configured list of allowed layer identifiers, validating an expression whose layer is text, lemma, pos, orth, norm or phonetic reports nothing about the layer, layer 'word' gives a warning, any other layer starting with 'x-' gives a warning, and any other layer gives an error; with a (non-empty) configured list, a layer in the list reports nothing and any other gives an error. This holds for every expression node wherever it stands in the query, each judged independently, so that the issues are those of the individual expressions in source order.",
 ["inputs", "configurations"], "all identifiers, allow lists and query shapes",
 "Tests try five identifiers, at most two expressions per query.",
 [V], [("FCSQLValidator.visit_Expression", V), ("traversal in QueryVisitor", P)], ["Validator.errors / .warnings"])

prop("C18", "Layer qualifiers are judged by the configured allow list",
 "When allowed layer qualifiers are configured, an expression with a qualifier gives an error if its layer is not listed or is listed with no qualifiers (None), or if the qualifier is not among those listed for its layer, and gives no qualifier error otherwise; an expression without a qualifier never gives one, and without such a configuration qualifiers are never judged. The judgement uses the entry of that expression's own layer only and is independent of the layer identifier check.",
 ["inputs", "configurations"], "all qualifiers, layers and allow lists",
 "Tests use one qualified expression and three allow lists with a single entry.",
 [V], [("FCSQLValidator.visit_Expression qualifier block", V)], ["Validator.errors"])

prop("C19", "POS values are checked against the Universal POS tag set",
 "An expression on layer 'pos' without a qualifier and without regex flags whose value is neither one of the 17 Universal POS tags (exact, case-sensitive) nor likely a regular expression gives exactly one warning about it; an expression that has another layer, a qualifier, flags, a UD tag as value, or a value that is likely a regex gives none. A value is likely a regex exactly when, ignoring blanks, it contains a character that re.escape would escape.",
 ["inputs"], "all values, layers, qualifiers and flags",
 "Tests try 'NNS', 'ART' and 'NOUN', and ten strings for the regex heuristic.",
 [V], [("pos block of FCSQLValidator.visit_Expression, is_likely_a_regex, UNIVERSAL_POS_TAGS", V)], ["Validator.warnings, is_likely_a_regex"])

prop("C20", "All validation modes report the same verdict",
 "For every tree and validator configuration: collecting mode returns True exactly when it recorded no error (and no warning if warnings are errors); raising mode raises SpecificationValidationError exactly when collecting mode returns False, and otherwise returns True; the raised error carries the message, node and query fragment of the first issue that counts; is_valid gives the same verdict as a boolean in both modes and never raises. Warnings are recorded as warnings in either case unless raised, and warnings_as_errors never changes which errors and warnings are recorded in collecting mode.",
 ["inputs", "configurations"], "all queries x raise/collect x warnings_as_errors",
 "Tests compare the modes on two queries.",
 [V], [("Validator.validate, is_valid, validation_error, validation_warning", V)], ["return value / exception / .errors / .warnings"])

prop("C21", "A validator can be reused without carrying anything over",
 "Validating a tree with a validator that has been used before, on any trees, with any outcomes including raised violations, gives exactly the same verdict, errors, warnings and parent_node values during the visit as a fresh validator of the same configuration. During a visit parent_node is None at the root and otherwise the parent of the node being visited; validating never modifies the tree.",
 ["histories", "inputs"], "all sequences of validations on one validator object",
 "One test reuses a validator with the same outcome each time; nothing is checked after a raised violation.",
 [V], [("Validator.stack, .errors, .warnings handling in validate and visit_*", V)], ["Validator.errors/.warnings/.parent_node"], [("stack", "parents of the node being visited", V)])

prop("C22", "fcsql.validate agrees with itself, the parser and the validator",
 "For every string, fcsql.validate(q) is True exactly when q parses and the validator for the version finds no error (with warnings_as_errors: and no warning), and never raises for a known version; with return_errors it returns a list that is empty exactly when the boolean form (same options) is True. The list holds the parser's syntax error details if q does not parse (one detail carrying the exception message if the parser recorded none), and otherwise the validator's errors followed, with warnings_as_errors, by its warnings. An unknown version raises ValueError for every string.",
 ["inputs", "configurations"], "all strings x option combinations x versions",
 "Tests compare boolean and list form on three strings.",
 [I], [("validate()", I)], ["return value of fcsql.validate"])

prop("C23", "Parse results do not depend on earlier parses",
 "What a parser object returns or raises for a query, including its errors attribute, depends only on the query and that parser's configuration: not on queries parsed before (successfully or not) by the same or any other parser, nor on other parsers' configuration, and trees returned earlier are not changed by later parses. After a successful parse errors is empty; after a failed one it describes that query only.",
 ["histories", "configurations", "inputs"], "all sequences of parses over several parser objects",
 "Tests use a fresh parser per query, with a single configuration.",
 [P], [("per-call listener/lexer/parser/builder in QueryParser.parse", P), ("class-level prediction caches", PX)], ["result and .errors of QueryParser.parse"], [("errors", "error details of the last parse", P)])

prop("C24", "Syntax error details point into the query",
 "When a query is refused for its syntax, the parser's errors list is non-empty, its entries have type 'syntax-error' and a message, the exception message contains the first of them, and the entries are in order of detection. An entry for an offending token has as position that token's start and stop offsets in the query string (an empty range at the end of the query, or None for an empty query, if input ended too early) and as fragment the query text up to and including that token; an entry for text that is no token has as position the offset in the query string at which that text starts, on whichever line it is. The first offending token reported is the first token of the query that cannot continue any query. If the query is refused for another reason the errors list is empty.",
 ["inputs"], "all refused strings, multi-line ones included",
 "Tests look at the error details of the single query '['.",
 [P], [("ErrorListener.syntaxError, SourceLocation.fromToken", P)], ["QueryParser.errors, ErrorDetail fields"])

prop("C25", "antlr_parse fails exactly on syntax errors",
 "For every string, fcsql.antlr_parse raises fcsql.SyntaxError exactly when the string is not a sentence of the grammar (a lexical or syntactic error, the same strings for which QueryParser.parse records syntax errors), and otherwise returns a parse tree of the rule query that covers all tokens of the input in order and in which the children of every node match that node's grammar rule.",
 ["inputs"], "all strings",
 "antlr_parse is not tested.",
 [I], [("ExceptionThrowingErrorListener, antlr_parse", I)], ["outcome of fcsql.antlr_parse"])

prop("C26", "Whitespace between tokens is insignificant",
 "Inserting or removing whitespace (any of the Unicode white space characters of the grammar, including line breaks) between two tokens that do not merge, or before the first and after the last token, changes neither acceptance nor the resulting tree apart from source locations; whitespace inside a quoted literal is part of its text.",
 ["inputs"], "all queries, all whitespace strings, all gaps",
 "Tests use single blanks in a few places.",
 [LG, LX, P], [("Space / WS lexer rules", LG)], ["QueryParser.parse on respaced queries"])

prop("C27", "Every validation issue identifies the offending expression",
 "Each recorded error or warning has type 'validation-error' or 'validation-warning' respectively, position equal to the source location of the offending expression node (None if locations were disabled), and fragment equal to exactly that slice of the query text given (None if no query text or no location is available); a raised SpecificationValidationError carries that node and fragment. The query text given to validate() takes precedence over the one given to the constructor.",
 ["inputs", "configurations"], "all queries with issues, with and without locations and query text",
 "Tests check fragments of four ASCII single-expression queries.",
 [V], [("Validator.validation_error / validation_warning", V)], ["ErrorDetail fields, SpecificationValidationError.node/.query_fragment"])

prop("C28", "Low-level listeners and visitors see the parse tree faithfully",
 "Walking the tree returned by antlr_parse with an FCSParserListener calls, for every rule node, that rule's own enter callback before and exit callback after those of its children; visiting it with an FCSParserVisitor calls each rule's own visit method once per node in pre-order. The rule nodes' typed accessors return exactly the children of that kind, in order.",
 ["inputs"], "all accepted queries",
 "Listeners, the generated visitor and accessors are not tested directly.",
 [PX, "src/fcsql/FCSParserListener.py", "src/fcsql/FCSParserVisitor.py"], [("generated enterRule/exitRule/accept and accessors", PX)], ["callback sequence"])

prop("C29", "Debug logging changes no result",
 "Enabling logging at DEBUG level (or any other logging configuration) for the package's loggers changes nothing but the log: for every query, parser configuration and validator configuration, parsing, validation, visiting and the module functions return the same values, raise the same exceptions and record the same errors and warnings as with logging off, call the same visitor handlers in the same order, and leave the trees they are given as they were.",
 ["inputs", "configurations"], "all queries (malformed ones included) and trees x parser and validator configurations, with logging on and off",
 "Tests run under one logging configuration and never compare two; the code logs reprs of nodes and contexts in nearly every handler, so every tree shape is involved.",
 [P, V, I], [("LOGGER.debug/info calls and node __str__/repr in QueryParser, ExpressionTreeBuilder, QueryVisitor", P), ("LOGGER calls in the validator", V)], ["results of parse/validate/visit with logging on"])

prop("C30", "Concurrent parses and validations do not disturb each other",
 "Parses, validations, visits and antlr_parse calls that run at the same time in several threads, each with its own parser, validator or visitor object (or through the module functions), or one inside another (for example in a visitor handler), give each exactly the result, exception, errors and warnings it gives when run alone, for every interleaving of their calls.",
 ["schedules", "inputs", "configurations"], "all interleavings of two computations x queries x configurations",
 "Tests run one computation at a time in one thread; whether shared state (module globals, class attributes, prediction caches) leaks depends on the schedule.",
 [P, V, I, PX, LX], [("per-call listener/lexer/parser/builder in QueryParser.parse, instance state of ExpressionTreeBuilder", P), ("Validator instance state", V), ("class-level decisionsToDFA and sharedContextCache", PX)], ["result of each computation against the same computation run alone"],
 [("decisionsToDFA, sharedContextCache", "prediction caches shared by all parsers", PX)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in out: f.write(json.dumps(d, ensure_ascii=False) + "\n")
