"""Source model of the Python package: parsed modules, functions, names. Nothing is imported or executed."""
from __future__ import annotations
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "latkerlo_jvotci"


class AnalysisBroken(Exception):
    """An anchor the rule needs is gone, or the source cannot be analysed: the check has no answer."""


class Func:
    def __init__(self, node, mod, qual, parent):
        self.node, self.mod, self.qual, self.parent = node, mod, qual, parent
        self.name = getattr(node, "name", "<lambda>")

    @property
    def where(self):
        return "%s:%d" % (self.mod.rel, self.node.lineno)

    def __repr__(self):
        return "Func(%s.%s)" % (self.mod.name, self.qual)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def defaults(self):
        """param -> default expression"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        d = {}
        for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = v
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = v
        return d


class Desugar(ast.NodeTransformer):
    """map(f, x), filter(f, x) and len([.. for ..]) as the comprehensions they stand for."""

    def __init__(self):
        self.n = 0

    def fresh(self, like):
        self.n += 1
        name = "$m%d" % self.n
        return ast.copy_location(ast.Name(name, ast.Store()), like), lambda: ast.copy_location(ast.Name(name, ast.Load()), like)

    def visit_FunctionDef(self, fn):
        outermost = not hasattr(self, "uses")
        if outermost:
            self.uses = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
        self.generic_visit(fn)
        if outermost:
            del self.uses
        return fn

    def visit_For(self, n):
        """for c in s: if test(c): k += 1 ... -> k += sum(1 for c in s if test(c)), when nothing else happens in the loop."""
        self.generic_visit(n)
        if n.orelse or not isinstance(n.target, ast.Name) or not isinstance(n.iter, ast.Name):
            return n
        steps = []

        def walk(body, conds):
            for x in body:
                if isinstance(x, ast.If):
                    if not walk(x.body, conds + [x.test]) or not walk(x.orelse, conds + [ast.copy_location(ast.UnaryOp(ast.Not(), x.test), x)]):
                        return False
                elif isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.Add, ast.Sub)) and isinstance(x.target, ast.Name) and \
                        isinstance(x.value, ast.Constant) and type(x.value.value) is int and conds:
                    steps.append((x, conds))
                elif not isinstance(x, ast.Pass):
                    return False
            return True

        c = n.target.id
        loads = lambda e: [x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
        if not walk(n.body, []) or not steps:
            return n
        accs = {x.target.id for x, _ in steps}
        inside = [y for x in n.body for y in loads(x)]
        if any(accs & set(loads(t)) for _, cs in steps for t in cs) or n.iter.id in accs | {c} or c in accs or \
                inside.count(c) != getattr(self, "uses", []).count(c) or any(isinstance(y, (ast.NamedExpr, ast.Await, ast.Yield)) for x in n.body for y in ast.walk(x)):
            return n
        out = []
        for x, cs in steps:
            one = ast.Constant(1)
            gen = ast.GeneratorExp(one, [ast.comprehension(ast.Name(c, ast.Store()), ast.Name(n.iter.id, ast.Load()), cs, 0)])
            val = ast.Call(ast.Name("sum", ast.Load()), [gen], [])
            if x.value.value != 1:
                val = ast.BinOp(ast.Constant(x.value.value), ast.Mult(), val)
            new = ast.AugAssign(ast.Name(x.target.id, ast.Store()), x.op, val)
            for y in ast.walk(new):
                if not hasattr(y, "lineno") and isinstance(y, (ast.expr, ast.stmt)):
                    ast.copy_location(y, x)
            out.append(new)
        return out

    def visit_Call(self, n):
        self.generic_visit(n)
        if not isinstance(n.func, ast.Name) or n.keywords:
            return n
        if n.func.id in ("map", "filter") and len(n.args) == 2 and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Constant)):
            t, use = self.fresh(n)
            if isinstance(n.args[0], ast.Constant):
                test = use() if n.args[0].value is None and n.func.id == "filter" else None
            else:
                test = ast.copy_location(ast.Call(n.args[0], [use()], []), n)
            if test is None:
                return n
            g = ast.comprehension(t, n.args[1], [test] if n.func.id == "filter" else [], 0)
            return ast.copy_location(ast.GeneratorExp(use() if n.func.id == "filter" else test, [g]), n)
        if n.func.id in ("map", "filter") and len(n.args) == 2 and isinstance(n.args[0], ast.Lambda) and len(n.args[0].args.args) == 1 and \
                not (n.args[0].args.defaults or n.args[0].args.kwonlyargs or n.args[0].args.vararg or n.args[0].args.kwarg or n.args[0].args.posonlyargs):
            lam = n.args[0]
            name = lam.args.args[0].arg
            t = ast.copy_location(ast.Name(name, ast.Store()), n)
            g = ast.comprehension(t, n.args[1], [lam.body] if n.func.id == "filter" else [], 0)
            return ast.copy_location(ast.GeneratorExp(ast.copy_location(ast.Name(name, ast.Load()), n) if n.func.id == "filter" else lam.body, [g]), n)
        if n.func.id == "len" and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp) and isinstance(n.args[0].elt, (ast.Name, ast.Constant)):
            c = n.args[0]
            one = ast.copy_location(ast.Constant(1), c)
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("sum", ast.Load()), n), [ast.copy_location(ast.GeneratorExp(one, c.generators), c)], []), n)
        return n


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.rel = os.path.relpath(path, REPO)
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (path, e))
        self.tree = Desugar().visit(self.tree)
        self.funcs = {}
        self._collect(self.tree, "", None)

    def _collect(self, node, prefix, parent):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + ch.name
                f = Func(ch, self, q, parent)
                ch._func = f
                if q not in self.funcs:
                    self.funcs[q] = f
                else:
                    self.funcs[q] = f      # later definition wins, as at run time
                self._collect(ch, q + ".", f)
            elif isinstance(ch, ast.ClassDef):
                self._collect(ch, prefix + ch.name + ".", parent)
            else:
                self._collect(ch, prefix, parent)

    def seg(self, node):
        return ast.get_source_segment(self.src, node) or ast.dump(node)[:60]


class Package:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "py", PKG)
        if not os.path.isdir(self.root):
            raise AnalysisBroken("no package directory " + self.root)
        self.modules = {}
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, os.path.dirname(self.root))[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.modules[rel] = Module(rel, p)

    def mod(self, short):
        n = PKG if short == "" else PKG + "." + short
        if n not in self.modules:
            raise AnalysisBroken("module %s is gone" % n)
        return self.modules[n]

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f

    def find(self, name):
        """The function called `name`, looked up as a module-level definition anywhere in the package."""
        hits = [f for f in self.all_funcs() if f.qual == name]
        if not hits:
            raise AnalysisBroken("function %s is gone" % name)
        if len(hits) > 1:
            raise AnalysisBroken("function %s is defined in several modules: %s" % (name, [f.mod.name for f in hits]))
        return hits[0]
