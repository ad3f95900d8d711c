"""Module environments: what every module-level name is bound to, by folding the module's own source.

Nothing is imported or executed: literals, names and a few pure operators are folded over the syntax tree.
"""
from __future__ import annotations
import ast
from .model import PKG, AnalysisBroken

UNKNOWN = type("Unknown", (), {"__repr__": lambda s: "UNKNOWN"})()
BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError", "RuntimeError": "Exception",
    "RecursionError": "RuntimeError", "NotImplementedError": "RuntimeError", "StopIteration": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "OverflowError": "ArithmeticError", "OSError": "Exception",
    "UnicodeError": "ValueError", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
}


class Ent:
    """A module-level binding: kind in const/func/class/module/unknown."""
    __slots__ = ("kind", "val")

    def __init__(self, kind, val):
        self.kind, self.val = kind, val

    def __repr__(self):
        return "Ent(%s)" % self.kind


class Envs:
    def __init__(self, pkg):
        self.pkg = pkg
        self.envs = {}
        self.exc = dict(BUILTIN_EXC)
        for m in pkg.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    for b in n.bases:
                        if isinstance(b, ast.Name) and b.id in self.exc or isinstance(b, ast.Name) and b.id.endswith("Error"):
                            self.exc[n.name] = b.id

    def env(self, mod):
        if mod.name not in self.envs:
            self.envs[mod.name] = e = {}
            self._run(mod, mod.tree.body, e)
        return self.envs[mod.name]

    def public(self, mod):
        e = self.env(mod)
        if "__all__" in e and e["__all__"].kind == "const":
            return [n for n in e["__all__"].val]
        return [n for n in e if not n.startswith("_")]

    def target_module(self, mod, node):
        """Package module an ImportFrom refers to, or None when external."""
        if node.level:
            base = mod.name.split(".")
            if not mod.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (node.level - 1)]
            name = ".".join(base + ([node.module] if node.module else []))
        else:
            name = node.module
        return self.pkg.modules.get(name), name

    def import_names(self, mod, node, e):
        t, name = self.target_module(mod, node)
        for a in node.names:
            if t is None:
                if name and name.split(".")[0] == PKG:
                    raise AnalysisBroken("%s imports missing module %s" % (mod.rel, name))
                e[a.asname or a.name] = Ent("ext", (name, a.name))
            elif a.name == "*":
                src = self.env(t)
                for n in self.public(t):
                    if n in src:
                        e[n] = src[n]
            else:
                src = self.env(t)
                if a.name in src:
                    e[a.asname or a.name] = src[a.name]
                elif name + "." + a.name in self.pkg.modules:
                    e[a.asname or a.name] = Ent("module", name + "." + a.name)
                else:
                    # circular import: the name may be defined later in the target
                    f = t.funcs.get(a.name)
                    if f is not None and f.parent is None:
                        e[a.asname or a.name] = Ent("func", f)

    def _run(self, mod, body, e):
        for n in body:
            if isinstance(n, ast.ImportFrom):
                self.import_names(mod, n, e)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    e[a.asname or a.name.split(".")[0]] = Ent("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                e[n.name] = Ent("func", n._func)
            elif isinstance(n, ast.ClassDef):
                e[n.name] = Ent("class", n)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                if n.value is None:
                    continue
                v = self.fold(n.value, e)
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    self._bind(t, v, e)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                v = self.fold(ast.copy_location(ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), n), e)
                self._bind(n.target, v, e)
            elif isinstance(n, ast.If):
                if not _is_main(n.test):
                    t = self.fold(n.test, e)
                    if t is not UNKNOWN:
                        self._run(mod, n.body if t else n.orelse, e)
                    else:
                        self._havoc(n, e)
            elif isinstance(n, (ast.Expr, ast.Pass, ast.Assert)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    self._effect(n.value, e)
            elif isinstance(n, ast.For) and isinstance(n.target, (ast.Name, ast.Tuple)):
                it = self.fold(n.iter, e)
                if it is UNKNOWN or len(list(it)) > 5000:
                    self._havoc(n, e)
                else:
                    for x in it:
                        self._bind(n.target, x, e)
                        self._run(mod, n.body, e)
            else:
                self._havoc(n, e)

    def _effect(self, call, e):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in e and e[f.value.id].kind == "const":
            args = [self.fold(a, e) for a in call.args]
            if f.attr in ("append", "extend", "update", "add", "insert", "setdefault", "pop", "remove", "sort", "reverse") and not any(
                    a is UNKNOWN for a in args):
                getattr(e[f.value.id].val, f.attr)(*args)
            else:
                e[f.value.id] = Ent("unknown", None)

    def _havoc(self, n, e):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                e[x.id] = Ent("unknown", None)

    def _bind(self, t, v, e):
        if isinstance(t, ast.Name):
            e[t.id] = Ent("unknown", None) if v is UNKNOWN else Ent("const", v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(v) if v is not UNKNOWN else [UNKNOWN] * len(t.elts)
            for x, y in zip(t.elts, vals):
                self._bind(x, y, e)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in e and e[t.value.id].kind == "const":
            k = self.fold(t.slice, e)
            if k is UNKNOWN or v is UNKNOWN:
                e[t.value.id] = Ent("unknown", None)
            else:
                e[t.value.id].val[k] = v

    def fold(self, n, e, loc=None):
        try:
            return self._fold(n, e, loc or {})
        except AnalysisBroken:
            raise
        except _Unknown:
            return UNKNOWN
        except Exception:
            return UNKNOWN

    def _fold(self, n, e, loc):
        F = lambda x: self._fold(x, e, loc)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in loc:
                return loc[n.id]
            if n.id in e and e[n.id].kind == "const":
                return e[n.id].val
            raise _Unknown
        if isinstance(n, ast.Tuple):
            return tuple(self._elts(n.elts, e, loc))
        if isinstance(n, ast.List):
            return list(self._elts(n.elts, e, loc))
        if isinstance(n, ast.Set):
            return set(self._elts(n.elts, e, loc))
        if isinstance(n, ast.Dict):
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    d.update(F(v))
                else:
                    d[F(k)] = F(v)
            return d
        if isinstance(n, ast.BinOp):
            a, b = F(n.left), F(n.right)
            op = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.BitOr: lambda: a | b,
                  ast.BitAnd: lambda: a & b, ast.Pow: lambda: a ** b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}.get(type(n.op))
            if op is None:
                raise _Unknown
            return op()
        if isinstance(n, ast.UnaryOp):
            v = F(n.operand)
            return {ast.USub: lambda: -v, ast.Not: lambda: not v, ast.UAdd: lambda: +v}[type(n.op)]()
        if isinstance(n, ast.BoolOp):
            r = None
            for x in n.values:
                r = F(x)
                if isinstance(n.op, ast.And) and not r or isinstance(n.op, ast.Or) and r:
                    return r
            return r
        if isinstance(n, ast.IfExp):
            return F(n.body) if F(n.test) else F(n.orelse)
        if isinstance(n, ast.Compare):
            left = F(n.left)
            for op, r in zip(n.ops, n.comparators):
                right = F(r)
                ok = {ast.Eq: lambda: left == right, ast.NotEq: lambda: left != right, ast.In: lambda: left in right,
                      ast.NotIn: lambda: left not in right, ast.Lt: lambda: left < right, ast.Gt: lambda: left > right,
                      ast.LtE: lambda: left <= right, ast.GtE: lambda: left >= right,
                      ast.Is: lambda: left is right, ast.IsNot: lambda: left is not right}[type(op)]()
                if not ok:
                    return False
                left = right
            return True
        if isinstance(n, ast.Subscript):
            return F(n.value)[F(n.slice)]
        if isinstance(n, ast.Slice):
            return slice(n.lower and F(n.lower), n.upper and F(n.upper), n.step and F(n.step))
        if isinstance(n, ast.JoinedStr):
            return "".join(str(F(v.value)) if isinstance(v, ast.FormattedValue) else v.value for v in n.values)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            self._comp(n, 0, e, dict(loc), out)
            if isinstance(n, ast.DictComp):
                return dict(out)
            return set(out) if isinstance(n, ast.SetComp) else out
        if isinstance(n, ast.Call):
            args = self._elts(n.args, e, loc)
            kw = {k.arg: F(k.value) for k in n.keywords}
            if isinstance(n.func, ast.Name) and n.func.id not in e and n.func.id not in loc:
                fn = {"list": list, "set": set, "frozenset": frozenset, "tuple": tuple, "dict": dict, "sorted": sorted, "len": len,
                      "range": range, "str": str, "int": int, "zip": zip, "sum": sum, "min": min, "max": max, "enumerate": enumerate,
                      "reversed": reversed, "any": any, "all": all, "bool": bool}.get(n.func.id)
                if fn is None:
                    raise _Unknown
                r = fn(*args, **kw)
                return list(r) if isinstance(r, (zip, enumerate, type(reversed([])))) else r
            if isinstance(n.func, ast.Attribute):
                o = F(n.func.value)
                if isinstance(o, (str, list, dict, set, frozenset, tuple)) and n.func.attr in (
                        "split", "join", "strip", "lower", "upper", "replace", "keys", "values", "items", "copy", "get", "union",
                        "splitlines", "fromkeys", "count", "index", "difference", "intersection"):
                    return getattr(o, n.func.attr)(*args, **kw)
        raise _Unknown

    def _elts(self, elts, e, loc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self._fold(x.value, e, loc))
            else:
                out.append(self._fold(x, e, loc))
        return out

    def _comp(self, n, k, e, loc, out):
        if k == len(n.generators):
            out.append((self._fold(n.key, e, loc), self._fold(n.value, e, loc)) if isinstance(n, ast.DictComp) else self._fold(n.elt, e, loc))
            return
        g = n.generators[k]
        for x in self._fold(g.iter, e, loc):
            l2 = dict(loc)
            self._lbind(g.target, x, l2)
            if all(self._fold(c, e, l2) for c in g.ifs):
                self._comp(n, k + 1, e, l2, out)

    def _lbind(self, t, v, loc):
        if isinstance(t, ast.Name):
            loc[t.id] = v
        else:
            for a, b in zip(t.elts, v):
                self._lbind(a, b, loc)

    def exc_supers(self, name):
        out = []
        while name is not None:
            out.append(name)
            name = self.exc.get(name, "Exception" if name != "BaseException" else None)
        return out


class _Unknown(Exception):
    pass


def _is_main(t):
    return isinstance(t, ast.Compare) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(t))
