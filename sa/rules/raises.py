"""P02: which exception classes can escape each entry point (interprocedural raise/handler effects)."""
from __future__ import annotations
import ast
from .base import Result, loc
from .forward import Forward
from ..constfold import BUILTIN_EXC
from ..model import AnalysisBroken

# entry point -> exception classes its documentation lets a caller see
ALLOWED = {
    "analyse_brivla": {"NotBrivlaError"},
    "is_brivla": set(),
    "is_gismu_or_lujvo": set(),
    "is_gismu": set(),
    "is_valid_rafsi": set(),
    "normalise": set(),
    "get_rafsi_indices": set(),
    "score": set(),
    "get_veljvo": {"NotBrivlaError", "DecompositionError"},
    "score_lujvo": {"NotBrivlaError", "DecompositionError"},
    "get_lujvo": {"NoLujvoFoundError", "InvalidClusterError", "NonLojbanCharacterError", "NotZihevlaError", "TypeError"},
    "get_lujvo_with_analytics": {"NoLujvoFoundError", "InvalidClusterError", "NonLojbanCharacterError", "NotZihevlaError", "TypeError"},
    "get_lujvo_from_list": {"NoLujvoFoundError", "InvalidClusterError", "NonLojbanCharacterError", "NotZihevlaError"},
    "check_zihevla_or_rafsi": {"NotZihevlaError"},
    "jvokaha": {"DecompositionError", "InvalidClusterError", "NotBrivlaError"},
    "jvokaha_2": {"DecompositionError", "InvalidClusterError", "NotBrivlaError"},
    "split_vowel_cluster": {"DecompositionError"},
}
# (calling function, callee) -> {class: why the raise sites behind this call cannot fire for the arguments passed}
BARRIERS = {
    ("jvokaha", "get_lujvo_from_list"): {
        "NonLojbanCharacterError": "components are pieces of a decomposed word wrapped in hyphens: rafsi-shaped, Lojban letters only",
        "NotZihevlaError": "a wrapped rafsi-shaped component never takes the zi'evla branch"},
    ("is_slinkuhi", "jvokaha"): {
        "NotBrivlaError": "the word tested starts with 'to' (CV), the raise needs CCV'y at the start of the word"},
    ("get_rafsi_list_list", "jvokaha_2"): {
        "NotBrivlaError": "the component was checked to hold Lojban letters other than y, the raise needs CCV'y"},
    ("get_rafsi_list_list", "get_rafsi_for_rafsi"): {
        "AssertionError": "the form argument is always one of the handled forms (decided by P21)"},
}


class Effects:
    def __init__(self, tree):
        self.tree, self.envs = tree, tree.envs
        self.eff = {f: {} for f in tree.funcs}      # class -> origin "func file:line"
        self.sites = self.handlers = 0
        self.fw = Forward(tree)
        self.edges = {}
        for (a, b), why in BARRIERS.items():
            tree.pkg.find(a), tree.pkg.find(b)
        self.used = set()
        while True:
            changed = False
            self.sites = self.handlers = 0
            for f in tree.funcs:
                e = self.block(f, f.node.body, {})
                if set(e) - set(self.eff[f]):
                    changed = True
                for k, v in e.items():
                    self.eff[f].setdefault(k, v)
            if not changed:
                return

    # -- classes
    def classes(self, f, e, depth=0):
        """Class names an exception expression of a handler denotes; None = anything."""
        if e is None:
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                c = self.classes(f, x, depth)
                if c is None:
                    return None
                out += c
            return out
        if isinstance(e, ast.Attribute):
            return [e.attr]
        if isinstance(e, ast.Name):
            ent = self.tree.resolve(f, e.id)
            if ent is not None and ent.kind == "class":
                return [ent.val.name]
            if e.id in BUILTIN_EXC:
                return [e.id]
            if depth < 4:
                v = self.tree.single_value(f, e.id)
                if v is None:
                    v = self.module_value(f, e.id)
                if v is not None:
                    return self.classes(f, v, depth + 1)
            return [e.id]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.classes(f, e.left, depth), self.classes(f, e.right, depth)
            return None if a is None or b is None else a + b
        return []

    def module_value(self, f, name):
        for m in [f.mod] + list(self.tree.pkg.modules.values()):
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return n.value
        return None

    def raised_class(self, f, e, caught, depth=0):
        if e is None:
            return dict(caught)
        if isinstance(e, ast.Call):
            g = self.tree.callee(f, e)
            if g is not None:       # raise make_error(...)
                out = {}
                for n in self.tree.own_nodes(g):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out.update(self.raised_class(g, n.value, {}, depth + 1) if depth < 4 else {"Exception": ""})
                return out or {"Exception": ""}
            return self.raised_class(f, e.func, caught, depth)
        if isinstance(e, ast.Name):
            if e.id in caught.get("*names", ()):
                return {k: v for k, v in caught.items() if k != "*names"}
            ent = self.tree.resolve(f, e.id)
            if ent is not None and ent.kind == "class":
                return {ent.val.name: ""}
            if e.id in BUILTIN_EXC and ent is None:
                return {e.id: ""}
            v = self.tree.single_value(f, e.id)
            if v is not None and depth < 4:
                return self.raised_class(f, v, caught, depth + 1)
        if isinstance(e, ast.Attribute):
            return {e.attr: ""}
        if isinstance(e, ast.IfExp):
            return {**self.raised_class(f, e.body, caught, depth), **self.raised_class(f, e.orelse, caught, depth)}
        return {"Exception": ""}

    # -- expressions
    def expr(self, f, n, guard=()):
        out = {}
        if n is None:
            return out
        todo = [n]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Lambda,)):
                todo.append(x.body)
                continue
            if isinstance(x, ast.Call):
                g = self.tree.callee(f, x)
                if g is not None:
                    self.sites += 1
                    self.through(f, g, out)
                self.builtin_call(f, x, out)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                ent = self.tree.resolve(f, x.id)
                if ent is not None and ent.kind == "func":      # may be called by whatever receives it
                    self.through(f, ent.val, out)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name):
                ent = self.tree.resolve(f, x.value.id)
                if ent is not None and ent.kind == "const" and isinstance(ent.val, dict) and not self.guarded(f, x):
                    k = x.slice
                    if not (isinstance(k, ast.Constant) and k.value in ent.val):
                        out.setdefault("KeyError", "%s %s: %s" % (f.qual, loc(f, x), ast.unparse(x)))
            todo.extend(ast.iter_child_nodes(x))
        return out

    def through(self, f, g, out):
        owners = self.fw.owners(f)
        for k, v in self.eff[g].items():
            if owners and all(k in BARRIERS.get((o, g.qual), ()) for o in owners):
                self.used.add((g.qual, k))
                continue
            out.setdefault(k, v)

    def builtin_call(self, f, c, out):
        fn = c.func
        if isinstance(fn, ast.Name) and self.tree.resolve(f, fn.id) is None:
            if fn.id == "next" and len(c.args) == 1:
                out.setdefault("StopIteration", "%s %s: next() without default" % (f.qual, loc(f, c)))
            if fn.id == "int" and len(c.args) == 1 and not self.number(c.args[0]):
                out.setdefault("ValueError", "%s %s: int()" % (f.qual, loc(f, c)))
        if isinstance(fn, ast.Attribute) and fn.attr in ("index", "rindex") and not self.guarded_index(f, c):
            out.setdefault("ValueError", "%s %s: %s" % (f.qual, loc(f, c), ast.unparse(c)))

    def number(self, e):
        """The expression is certainly a number or a truth value."""
        if isinstance(e, ast.Constant):
            return not isinstance(e.value, str) or e.value.isdigit()
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp):
            return True
        if isinstance(e, ast.BoolOp):
            return all(self.number(x) for x in e.values)
        if isinstance(e, ast.IfExp):
            return self.number(e.body) and self.number(e.orelse)
        if isinstance(e, ast.BinOp):
            return self.number(e.left) or self.number(e.right) if not isinstance(e.op, (ast.Add, ast.Mod, ast.Mult)) else self.number(e.left) and self.number(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            return e.func.attr in ("startswith", "endswith", "isdigit", "isalpha", "isdecimal", "count", "find", "rfind", "issubset")
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return e.func.id in ("bool", "len", "any", "all", "sum", "isinstance") or e.func.id.startswith(("is_", "contains_"))
        return False

    def tests_around(self, f, node):
        """Conditions mentioned in the function: a membership test on the same container and key guards a lookup."""
        return [n for n in self.tree.own_nodes(f) if isinstance(n, ast.Compare)]

    def iterated(self, f):
        """(target, iterable) of every loop and comprehension in the function."""
        for n in self.tree.own_nodes(f):
            if isinstance(n, (ast.For, ast.comprehension)):
                yield n.target, n.iter

    def mentions(self, e, cont):
        return any(ast.dump(x) == cont for x in ast.walk(e))

    def guarded(self, f, sub):
        key, cont = ast.dump(sub.slice), ast.dump(sub.value)
        tested = False
        for n in self.tests_around(f, sub):
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and self.mentions(n.comparators[0], cont):
                tested = True
                if ast.dump(n.left) == key:
                    return True
        if not isinstance(sub.slice, ast.Name):
            return False
        for target, it in self.iterated(f):
            names = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
            # the key walks over the container's own keys, or over something filtered by a test on the container
            if sub.slice.id in names and (tested or self.mentions(it, cont)):
                return True
        return False

    def guarded_index(self, f, c):
        if not c.args:
            return False
        key, cont = ast.dump(c.args[0]), ast.dump(c.func.value)
        for n in self.tests_around(f, c):
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and ast.dump(n.left) == key and ast.dump(n.comparators[0]) == cont:
                return True
        return False

    # -- statements
    def block(self, f, body, caught):
        out = {}
        for n in body:
            for k, v in self.stmt(f, n, caught).items():
                out.setdefault(k, v)
            if isinstance(n, (ast.Return, ast.Raise)):
                break
        return out

    def catches(self, f, handler_types, cls):
        if handler_types is None:
            return True
        sup = set(self.envs.exc_supers(cls))
        return bool(sup & set(handler_types))

    def stmt(self, f, n, caught):
        out = {}

        def add(d):
            for k, v in d.items():
                out.setdefault(k, v)
        if isinstance(n, ast.Raise):
            self.sites += 1
            for k, v in self.raised_class(f, n.exc, caught).items():
                if k != "*names":
                    out.setdefault(k, v or "%s %s" % (f.qual, loc(f, n)))
            add(self.expr(f, n.exc))
            return out
        if isinstance(n, ast.Assert):
            if not (isinstance(n.test, ast.Constant) and n.test.value):
                out["AssertionError"] = "%s %s" % (f.qual, loc(f, n))
            add(self.expr(f, n.test))
            return out
        if isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
            inner = self.block(f, n.body, caught)
            left = dict(inner)
            for h in n.handlers:
                self.handlers += 1
                ts = self.classes(f, h.type)
                got = {k: v for k, v in left.items() if self.catches(f, ts, k)}
                for k in got:
                    left.pop(k)
                # a raise site of a base class may also carry any handled subclass: keep it in flight
                c = dict(got)
                if h.name:
                    c["*names"] = {h.name}
                add(self.block(f, h.body, c))
            add(left)
            add(self.block(f, n.orelse, caught))
            add(self.block(f, n.finalbody, caught))
            return out
        if isinstance(n, (ast.With, ast.AsyncWith)):
            inner = self.block(f, n.body, caught)
            for i in n.items:
                c = i.context_expr
                if isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and c.func.attr == "suppress" or isinstance(c.func, ast.Name) and c.func.id == "suppress"):
                    ts = [x for a in c.args for x in (self.classes(f, a) or [])]
                    inner = {k: v for k, v in inner.items() if not self.catches(f, ts, k)}
                add(self.expr(f, c))
            add(inner)
            return out
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return out
        for field, val in ast.iter_fields(n):
            if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                add(self.block(f, val, caught))
            elif isinstance(val, ast.AST):
                add(self.expr(f, val))
            elif isinstance(val, list):
                for x in val:
                    if isinstance(x, ast.match_case):
                        add(self.expr(f, x.guard))
                        add(self.block(f, x.body, caught))
                    elif isinstance(x, ast.AST):
                        add(self.expr(f, x))
        return out


def check(tree, tier="quick"):
    r = Result("documented-exceptions-only")
    tree.require(*ALLOWED)
    e = Effects(tree)
    pairs = 0
    for name, ok in ALLOWED.items():
        f = tree.pkg.find(name)
        for cls, origin in sorted(e.eff[f].items()):
            pairs += 1
            if not set(e.envs.exc_supers(cls)) & ok:
                r.add("%s:%s" % (name, cls), f.where, "%s can escape %s (raised at %s)" % (cls, name, origin))
    r.count(entry_points=len(ALLOWED), raise_and_call_sites=e.sites, handlers=e.handlers, escaping_pairs=pairs, reviewed_barriers_used=len(e.used))
    if e.sites < 100 or e.handlers < 10:
        raise AnalysisBroken("only %d raise/call sites and %d handlers seen" % (e.sites, e.handlers))
    return r
