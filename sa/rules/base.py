"""Shared result type and call-graph helpers of the syntactic rules."""
from __future__ import annotations
import ast
from ..constfold import Envs, UNKNOWN, BUILTIN_EXC
from ..model import AnalysisBroken, Package, Func, PKG


class Result:
    def __init__(self, rule):
        self.rule = rule
        self.findings = []      # (rule, construct, where, detail)
        self.coverage = {}
        self.seen = set()

    def add(self, construct, where, detail, rule=None):
        k = (rule or self.rule, construct)
        if k not in self.seen:
            self.seen.add(k)
            self.findings.append({"rule": rule or self.rule, "construct": construct, "where": where, "detail": detail})

    def count(self, **kw):
        for k, v in kw.items():
            self.coverage[k] = self.coverage.get(k, 0) + v


class Tree:
    """Package + environments + resolved call sites."""

    def __init__(self, pkg=None, envs=None):
        self.pkg = pkg or Package()
        self.envs = envs or Envs(self.pkg)
        self.funcs = list(self.pkg.all_funcs())
        self._calls = {}
        self._locals = {}

    def own_nodes(self, f):
        """Nodes of a function body, not descending into nested functions (lambdas and comprehensions included)."""
        out, todo = [], list(f.node.body) if not isinstance(f.node, ast.Lambda) else [f.node.body]
        while todo:
            n = todo.pop()
            out.append(n)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.extend(n.decorator_list)
                continue
            todo.extend(ast.iter_child_nodes(n))
        return out

    def local_env(self, f):
        """name -> Ent for names a function (or an enclosing one) imports or defines, else None for plain locals."""
        if f not in self._locals:
            e = {}
            if f.parent is not None:
                e.update(self.local_env(f.parent))
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                e[x.arg] = None
            for n in self.own_nodes(f):
                if isinstance(n, ast.ImportFrom):
                    d = {}
                    self.envs.import_names(f.mod, n, d)
                    e.update(d)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    e[n.id] = None
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    from ..constfold import Ent
                    e[n.name] = Ent("func", n._func)
            self._locals[f] = e
        return self._locals[f]

    def resolve(self, f, name):
        """Ent for a name used in function f (or module level when f is None)."""
        e = self.local_env(f)
        if name in e:
            return e[name]
        return self.envs.env(f.mod).get(name)

    def callee(self, f, call):
        """Package function called, through names, module attributes and single-assignment aliases."""
        fn = call.func
        return self.as_func(f, fn, 0)

    def as_func(self, f, fn, depth):
        if isinstance(fn, ast.Name):
            ent = self.resolve(f, fn.id)
            if ent is not None and ent.kind == "func":
                return ent.val
            if ent is None and depth < 3:
                v = self.single_value(f, fn.id)
                if v is not None:
                    return self.as_func(f, v, depth + 1)
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            ent = self.resolve(f, fn.value.id)
            if ent is not None and ent.kind == "module":
                m = self.pkg.modules.get(ent.val)
                if m is not None:
                    e = self.envs.env(m).get(fn.attr)
                    if e is not None and e.kind == "func":
                        return e.val
        return None

    def single_value(self, f, name):
        """The expression a local is bound to, when it is bound exactly once by a plain assignment."""
        g = f
        while g is not None:
            if name in [a for a in g.all_params()]:
                return None
            vals, other = [], 0
            for n in self.own_nodes(g):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                    vals.append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                    vals.append(n.value)
                elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                    other += 1
            if vals or other:
                return vals[0] if len(vals) == 1 and other == 1 else None
            g = g.parent
        return None

    def calls(self, f):
        """[(call node, Func)] of package-internal calls made in f's own body."""
        if f not in self._calls:
            out = []
            for n in self.own_nodes(f):
                if isinstance(n, ast.Call):
                    g = self.callee(f, n)
                    if g is not None:
                        out.append((n, g))
            self._calls[f] = out
        return self._calls[f]

    def callers(self):
        """Func -> set of Func that call it or define it as a nested function."""
        d = {}
        for f in self.funcs:
            for _, g in self.calls(f):
                d.setdefault(g, set()).add(f)
        return d

    def require(self, *names):
        return [self.pkg.find(n) for n in names]


def loc(f, node):
    return "%s:%d" % (f.mod.rel, node.lineno)


def is_main_block(n):
    return isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test))
