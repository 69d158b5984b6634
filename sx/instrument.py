"""Source-to-source instrumentation of the modules under test: calls,
f-strings, membership tests, subscripts and % go through sx.rt so that builtins
can take symbolic arguments. The module source is read from disk on every run."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import pure

RT = "_sx_rt"
_NOCALL = {"super", "locals", "globals", "eval", "exec", "__import__", "breakpoint"}


class T(ast.NodeTransformer):
    def __init__(self, modname, record, funcs=(), mod_generated=False):
        self.mod = modname
        self.qual = []
        self.record = record
        self.merge = record and not mod_generated
        self.funcs = funcs
        self.depth = 0
        self.scoped = False
        self.nout = 0

    def _pure(self, e):
        return self.merge and self.depth > 0 and pure.expr(e, self.funcs)

    def _lazy(self, e, node):
        lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        return self._rt("merged", [ast.copy_location(lam, node)], node)

    def visit_IfExp(self, node):
        p = self._pure(node)
        self.generic_visit(node)
        return self._lazy(node, node) if p else node

    def visit_BoolOp(self, node):
        p = self._pure(node)
        self.generic_visit(node)
        return self._lazy(node, node) if p else node

    def visit_If(self, node):
        o = pure.outline(node, self.funcs) if self.merge and self.depth > 0 and not self.scoped else None
        node.test = self.visit(node.test)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        if o is None:
            return node
        names, aug = o
        self.nout += 1
        fn = "_sx_if%d" % self.nout
        load = lambda n: ast.Name(n, ast.Load())
        now = lambda: [ast.Call(ast.Attribute(ast.Call(load("locals"), [], []), "get", ast.Load()),
                                [ast.Constant(n), ast.Attribute(load(RT), "UNBOUND", ast.Load())], []) for n in names]
        ret = ast.Return(ast.Tuple(now(), ast.Load()))
        args = ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])
        d = ast.FunctionDef(fn, args, [node, ret], [], None, None, [])
        call = self._rt("merged_if", [load(fn), ast.Constant(tuple(names.index(n) for n in aug))] + now(), node)
        asg = ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], call)
        out = [d, asg]
        for n in names:
            out.append(ast.If(ast.Compare(load(n), [ast.Is()], [ast.Attribute(load(RT), "UNBOUND", ast.Load())]),
                              [ast.Delete([ast.Name(n, ast.Del())])], []))
        return [ast.copy_location(x, node) for x in out]

    def _rt(self, name, args, node, kw=()):
        f = ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())
        return ast.copy_location(ast.Call(f, list(args), list(kw)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _NOCALL:
            return node
        return self._rt("call", [node.func] + node.args, node, node.keywords)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                conv = chr(v.conversion) if v.conversion != -1 else None
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return self._rt("fstr", parts, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = "contains" if isinstance(node.ops[0], ast.In) else "not_contains"
            return self._rt(n, [node.left, node.comparators[0]], node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            for a, b in ((node.left, node.comparators[0]), (node.comparators[0], node.left)):
                if isinstance(b, ast.Constant) and isinstance(b.value, bool):
                    return self._rt("is_bool" if isinstance(node.ops[0], ast.Is) else "is_not_bool", [a, b], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                none = ast.Constant(None)
                s = ast.Call(ast.Name("slice", ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
            return self._rt("getitem", [node.value, s], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._rt("mod", [node.left, node.right], node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            if node.simple:
                return node
            return ast.copy_location(ast.Pass(), node)
        node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _func(self, node):
        self.qual.append(node.name)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [d if isinstance(d, (ast.Name, ast.Attribute)) else self.visit(d)
                               for d in node.decorator_list]
        outer = self.scoped
        self.scoped = any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(node))
        summ = (self.merge and isinstance(node, ast.FunctionDef) and node.name in self.funcs and pure.branching(node)
                and pure.function(node, self.funcs))
        self.depth += 1
        node.body = self._body(node.body)
        self.depth -= 1
        self.scoped = outer
        if summ:
            node.decorator_list.append(ast.copy_location(ast.Attribute(ast.Name(RT, ast.Load()), "summarise", ast.Load()), node))
        if self.record:
            fid = ast.Constant(self.mod + ":" + ".".join(self.qual))
            st = ast.Expr(self._rt("enter", [fid], node))
            ast.copy_location(st, node)
            i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                      and isinstance(node.body[0].value.value, str)) else 0
            node.body.insert(i, st)
        self.qual.pop()
        return node

    def _body(self, body):
        out = []
        for st in body:
            r = self.visit(st)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        d, self.depth = self.depth, 0
        node.body = self._body(node.body)
        self.depth = d
        self.qual.pop()
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_Match(self, node):
        """Alternatives that are plain values become one membership test each, so that they fork once."""
        node.subject = self.visit(node.subject)
        for case in node.cases:
            if case.guard is not None:
                case.guard = self.visit(case.guard)
            p = case.pattern
            vals = p.patterns if isinstance(p, ast.MatchOr) else [p]
            if all(isinstance(x, ast.MatchValue) for x in vals):
                t = self._rt("contains", [ast.Name("_sx_m", ast.Load()),
                                          ast.Tuple([x.value for x in vals], ast.Load())], p)
                case.pattern = ast.copy_location(ast.MatchAs(None, "_sx_m"), p)
                case.guard = t if case.guard is None else ast.copy_location(ast.BoolOp(ast.And(), [t, case.guard]), p)
            case.body = self._body(case.body)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(
                node.targets[0].slice, ast.Slice) and self.qual:
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self._rt("setitem", [self.visit(t.value), self.visit(t.slice),
                                                                  node.value], node)), node)
        node.targets = [self.visit(t) for t in node.targets]
        return node


def _is_annotation_fix(tree):
    """Drop annotations on functions and variables (they may contain subscripts)."""
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n.returns = None
            for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [n.args.vararg, n.args.kwarg]:
                if a is not None:
                    a.annotation = None


def transform(src, filename, modname, record):
    tree = ast.parse(src, filename)
    _is_annotation_fix(tree)
    gen = modname.rpartition(".")[2].startswith(("FCSLexer", "FCSParser"))
    t = T(modname, record, pure.functions(tree) if record and not gen else (), gen)
    body = t._body(tree.body)
    i = 0
    while i < len(body) and ((isinstance(body[i], ast.Expr) and isinstance(body[i].value, ast.Constant)) or (
            isinstance(body[i], ast.ImportFrom) and body[i].module == "__future__")):
        i += 1
    body.insert(i, ast.parse("import sx.rt as %s" % RT).body[0])
    tree.body = body
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, path, record):
        self.path = path
        self.record = record

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as fh:
            src = fh.read()
        exec(transform(src, self.path, module.__name__, self.record), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, exact):
        self.roots = roots  # {package prefix: (dir, record)}
        self.exact = exact  # {module name: path}

    def find_spec(self, name, path, target=None):
        if name in self.exact:
            p = self.exact[name]
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, False))
        for pref, (d, record) in self.roots.items():
            if name == pref or name.startswith(pref + "."):
                rel = name.replace(".", "/")
                pk = os.path.join(d, rel, "__init__.py")
                if os.path.isfile(pk):
                    return importlib.util.spec_from_file_location(
                        name, pk, loader=Loader(pk, record), submodule_search_locations=[os.path.dirname(pk)])
                md = os.path.join(d, rel + ".py")
                if os.path.isfile(md):
                    return importlib.util.spec_from_file_location(name, md, loader=Loader(md, record))
        return None


def install(roots, exact):
    sys.meta_path.insert(0, Finder(roots, exact))
