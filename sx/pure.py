"""Which pieces of source have no effect but their value: their branches on unknown values can be
explored on the spot and merged into one value (rt.merged) instead of forking the whole path."""
import ast

BUILTINS = {"ord", "chr", "int", "str", "len", "bool", "isinstance", "min", "max", "abs", "range", "enumerate", "zip",
            "reversed", "tuple", "any", "all", "sum", "float"}
METHODS = {"index", "find", "rfind", "lower", "upper", "casefold", "isdigit", "isalpha", "isalnum", "isspace", "isdecimal",
           "isnumeric", "isupper", "islower", "startswith", "endswith", "get", "count", "join", "strip", "lstrip", "rstrip",
           "removeprefix", "removesuffix", "bit_length", "isidentifier", "isprintable", "isascii", "match", "fullmatch", "search", "group"}
EXPR = (ast.Constant, ast.Name, ast.Attribute, ast.Subscript, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.IfExp,
        ast.Tuple, ast.List, ast.Set, ast.Dict, ast.Slice, ast.JoinedStr, ast.FormattedValue, ast.GeneratorExp, ast.ListComp,
        ast.SetComp, ast.comprehension, ast.Starred, ast.operator, ast.unaryop, ast.boolop, ast.cmpop, ast.expr_context,
        ast.keyword)


def _callee(f):
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None


def expr(e, funcs=(), exc=False):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            c = _callee(n.func)
            if isinstance(n.func, ast.Name):
                ok = c in BUILTINS or c in funcs or (exc and (c.endswith("Exception") or c.endswith("Error")))
            else:
                ok = c in METHODS or c in funcs or (exc and c and (c.endswith("Exception") or c.endswith("Error")))
            if not ok:
                return False
        elif not isinstance(n, EXPR):
            return False
    return True


def _names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        out = []
        for x in t.elts:
            r = _names(x)
            if r is None:
                return None
            out += r
        return out
    return None


def _fresh_container(e):
    return isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)) or (
        isinstance(e, ast.Call) and _callee(e.func) not in BUILTINS and _callee(e.func) not in METHODS)


def body(stmts, funcs, func, st):
    """Statements with no effect but on local names. st: {'set','aug','cont'} (names)."""
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                return False
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                continue
            if not expr(s.value, funcs):
                return False
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                ns = _names(t)
                if ns is None:
                    return False
                st["set"].update(ns)
                if _fresh_container(s.value) or isinstance(s.value, (ast.Name, ast.Attribute, ast.Subscript)):
                    st["cont"].update(ns)
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name) or not expr(s.value, funcs):
                return False
            st["aug"].add(s.target.id)
        elif isinstance(s, ast.If):
            if not expr(s.test, funcs) or not body(s.body, funcs, func, st) or not body(s.orelse, funcs, func, st):
                return False
        elif isinstance(s, ast.Raise):
            if (s.exc is not None and not expr(s.exc, funcs, True)) or (s.cause is not None and not expr(s.cause, funcs, True)):
                return False
        elif func and isinstance(s, ast.Return):
            if s.value is not None and not expr(s.value, funcs):
                return False
        elif func and isinstance(s, (ast.Break, ast.Continue)):
            pass
        elif func and isinstance(s, ast.For):
            ns = _names(s.target)
            if ns is None or not expr(s.iter, funcs):
                return False
            st["set"].update(ns)
            if not body(s.body, funcs, func, st) or not body(s.orelse, funcs, func, st):
                return False
        elif func and isinstance(s, ast.While):
            if not expr(s.test, funcs) or not body(s.body, funcs, func, st) or not body(s.orelse, funcs, func, st):
                return False
        elif func and isinstance(s, ast.Try):
            if not (body(s.body, funcs, func, st) and body(s.orelse, funcs, func, st) and body(s.finalbody, funcs, func, st)):
                return False
            for h in s.handlers:
                if not body(h.body, funcs, func, st):
                    return False
        elif func and isinstance(s, ast.Match):
            if not expr(s.subject, funcs):
                return False
            for c in s.cases:
                if not all(isinstance(x, (ast.MatchValue, ast.MatchOr, ast.MatchSingleton)) or
                           (isinstance(x, ast.MatchAs) and x.pattern is None and x.name is None)
                           for x in ast.walk(c.pattern) if isinstance(x, ast.pattern)):
                    return False
                if (c.guard is not None and not expr(c.guard, funcs)) or not body(c.body, funcs, func, st):
                    return False
        else:
            return False
    return True


def branching(node):
    return any(isinstance(n, (ast.If, ast.IfExp, ast.BoolOp, ast.While, ast.For, ast.Match, ast.Compare, ast.comprehension))
               for n in ast.walk(node))


def function(f, funcs):
    if f.args.vararg or f.args.kwarg or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f)):
        return False
    st = {"set": set(), "aug": set(), "cont": set()}
    if not body(f.body, funcs, True, st):
        return False
    params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
    return not (st["aug"] & (st["cont"] | params))


def functions(tree):
    """Names of the functions of a module all of whose definitions are pure (greatest fixpoint of calls among them)."""
    defs = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            defs.setdefault(n.name, []).append(n)
    good = {k for k in defs if not k.startswith("__")}
    for n in ast.walk(tree):
        if isinstance(n, (ast.AsyncFunctionDef, ast.ClassDef)):
            good.discard(n.name)
    while True:
        bad = {k for k in good if not all(function(f, good) for f in defs[k])}
        if not bad:
            return good
        good -= bad


def outline(s, funcs):
    """For an `if` statement that only computes local names: (names assigned, names updated in place), else None."""
    st = {"set": set(), "aug": set(), "cont": set()}
    if not body([s], funcs, False, st) or not (st["set"] | st["aug"]):
        return None
    if st["aug"] & st["set"]:
        return None
    if any(isinstance(n, ast.Raise) and n.exc is None for n in ast.walk(s)):
        return None
    return sorted(st["set"] | st["aug"]), sorted(st["aug"])
