"""P17/P18: calls leave no trace (shared tables and arguments stay as they were) and results depend on arguments only."""
from __future__ import annotations
import ast
from .base import Result, loc, is_main_block
from ..model import AnalysisBroken

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard", "setdefault",
            "popitem", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "appendleft"}
VIEWS = {"get", "items", "values", "keys", "setdefault", "pop"}
PUBLIC = {"get_veljvo": 0, "score_lujvo": 0, "get_lujvo": 0, "get_lujvo_with_analytics": 0, "is_brivla": 0, "analyse_brivla": 0,
          "get_rafsi_indices": 0}
FRESH_FUNCS = {"list", "dict", "set", "tuple", "sorted", "str", "int", "len", "bool", "frozenset", "map_", "sum", "min_", "abs", "range", "repr"}
PASS_FUNCS = {"enumerate", "zip", "reversed", "iter", "filter", "min", "max", "next", "map"}
IMPURE_MODULES = {"random", "time", "datetime", "os", "uuid", "secrets", "threading", "socket", "subprocess", "tempfile", "sys"}
IMPURE_BUILTINS = {"input", "open", "id", "hash", "globals", "vars", "exec", "eval", "print", "setattr", "delattr", "breakpoint"}
CACHES = {"lru_cache", "cache", "cached_property"}


def deeper(root, by=1):
    """A root seen from by more containers outside; nesting beyond three levels is not told apart (the analysis must stay finite)."""
    while by and root.count("elem") < 3:
        root, by = ("elem",) + root, by - 1
    return root


class Alias:
    """Flow-insensitive: which shared roots a local may alias. Roots: ('param', i), ('module', name), ('default', p)."""

    def __init__(self, tree):
        self.tree = tree
        self.ret = {f: set() for f in tree.funcs}       # roots the result may alias (params of f, module objects)
        self.mut = {f: {} for f in tree.funcs}          # root -> site mutated
        self.loc = {}
        self.sites = 0
        while True:
            before = (sum(len(v) for v in self.ret.values()), sum(len(v) for v in self.mut.values()), sum(len(v) for v in self.loc.values() for v in v.values()))
            self.sites = 0
            for f in tree.funcs:
                self.func(f)
            after = (sum(len(v) for v in self.ret.values()), sum(len(v) for v in self.mut.values()), sum(len(v) for v in self.loc.values() for v in v.values()))
            if after == before:
                return

    def env(self, f):
        if f not in self.loc:
            self.loc[f] = {}
            for i, p in enumerate(f.all_params()):
                self.loc[f][p] = {("param", f.qual, p)}
            d = f.defaults()
            for p, e in d.items():
                if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
                        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "dict", "set"):
                    self.loc[f][p].add(("default", f.qual, p))
        return self.loc[f]

    def lookup(self, f, name):
        g = f
        while g is not None:
            e = self.env(g)
            if name in e:
                return set(e[name])
            g = g.parent
        ent = self.tree.resolve(f, name)
        if ent is not None and ent.kind in ("const", "unknown") and not isinstance(ent.val, (str, int, float, bool, type(None), tuple)):
            return {("module", name, "")}
        return set()

    def roots(self, f, e):
        if e is None:
            return set()
        R = lambda x: self.roots(f, x)
        if isinstance(e, ast.Name):
            return self.lookup(f, e.id)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                ent = self.tree.resolve(f, e.value.id)
                if ent is not None and ent.kind in ("module",):
                    return {("module", "%s.%s" % (e.value.id, e.attr), "")}
            return R(e.value)
        if isinstance(e, ast.Subscript):
            return set() if isinstance(e.slice, ast.Slice) else R(e.value)
        if isinstance(e, ast.Starred):
            return R(e.value)
        if isinstance(e, ast.IfExp):
            return R(e.body) | R(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[R(x) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            return R(e.value)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            # a fresh container; its elements may be shared
            return {deeper(x) for x in set().union(*[R(x) for x in e.elts])} if e.elts else set()
        if isinstance(e, ast.Call):
            g = self.tree.callee(f, e)
            if g is not None:
                out = set()
                for x in self.ret[g]:
                    out |= self.translate(f, e, g, x)
                return out
            if isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS:
                return R(e.func.value)
            if isinstance(e.func, ast.Name) and e.func.id in PASS_FUNCS:
                return set().union(*[R(a) for a in e.args]) if e.args else set()
            return set()
        return set()

    def translate(self, f, call, g, root):
        pre = ()
        while root[0] == "elem":
            pre += ("elem",)
            root = root[1:]
        if root[0] == "param" and root[1] == g.qual:
            from .forward import Forward
            b = Forward.bind(_Bind(self.tree), f, call, g)
            e = b.get(root[2])
            if e is None or isinstance(e, ast.Constant):
                return set()
            return {deeper(x, len(pre)) for x in self.roots(f, e)}
        return {pre + root}

    def assign(self, f, target, roots):
        if isinstance(target, ast.Name):
            g = f
            e = self.env(f)
            e.setdefault(target.id, set())
            e[target.id] |= roots
        elif isinstance(target, (ast.Tuple, ast.List)):
            inner = {x[1:] if x[0] == "elem" else x for x in roots}
            for t in target.elts:
                self.assign(f, t.value if isinstance(t, ast.Starred) else t, inner)
        elif isinstance(target, (ast.Subscript, ast.Attribute)):
            # stored into a container: reading it back may give the shared object
            base = target.value
            while isinstance(base, (ast.Subscript, ast.Attribute)):
                base = base.value
            if isinstance(base, ast.Name):
                e = self.env(f)
                if base.id in e:
                    e[base.id] |= {("elem",) + x for x in roots if x.count("elem") < 3}

    def mutate(self, f, node, roots, what):
        self.sites += 1
        for x in roots:
            if x[0] != "elem":
                self.mut[f].setdefault(x, (loc(f, node), what))

    def func(self, f):
        ev = self.env(f)
        globs = set()
        for n in self.tree.own_nodes(f):
            if isinstance(n, ast.Global):
                globs |= set(n.names)
        for n in self.tree.own_nodes(f):
            if isinstance(n, ast.Assign):
                rs = self.roots(f, n.value)
                for t in n.targets:
                    self.assign(f, t, rs)
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        self.mutate(f, n, self.roots(f, t.value), "assignment into " + ast.unparse(t))
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.assign(f, n.target, self.roots(f, n.value))
            elif isinstance(n, ast.NamedExpr):
                self.assign(f, n.target, self.roots(f, n.value))
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    self.mutate(f, n, self.lookup_mutable(f, n), "in-place update of " + n.target.id)
                else:
                    self.mutate(f, n, self.roots(f, n.target.value), "in-place update of " + ast.unparse(n.target))
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self.assign(f, n.target, self.elements(self.roots(f, n.iter)))
            elif isinstance(n, ast.comprehension):
                self.assign(f, n.target, self.elements(self.roots(f, n.iter)))
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        self.mutate(f, n, self.roots(f, t.value), "deletion of " + ast.unparse(t))
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    self.mutate(f, n, self.roots(f, n.func.value), ".%s() on %s" % (n.func.attr, ast.unparse(n.func.value)))
                    if n.args:
                        base = n.func.value
                        while isinstance(base, (ast.Subscript, ast.Attribute)):
                            base = base.value
                        if isinstance(base, ast.Name) and base.id in ev and n.func.attr in ("append", "insert", "add", "setdefault", "extend", "update"):
                            rs = self.roots(f, n.args[-1])
                            ev[base.id] |= {("elem",) + x for x in rs if x.count("elem") < 3}
                g = self.tree.callee(f, n)
                if g is not None:
                    for x, site in list(self.mut[g].items()):
                        if x[0] == "param" and x[1] == g.qual:
                            for y in self.translate(f, n, g, x):
                                if y[0] != "elem":
                                    self.mut[f].setdefault(y, site)
                        else:
                            self.mut[f].setdefault(x, site)
            elif isinstance(n, ast.Return):
                self.ret[f] |= self.roots(f, n.value)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in globs:
                self.mut[f].setdefault(("module", n.id, ""), (loc(f, n), "global %s" % n.id))
        # nested functions mutate on behalf of their parent
        for g in self.tree.funcs:
            if g.parent is f:
                for x, site in self.mut[g].items():
                    self.mut[f].setdefault(x, site)

    def elements(self, roots):
        return {x[1:] if x[0] == "elem" else x for x in roots}

    def lookup_mutable(self, f, n):
        """x += e mutates in place only when x is a list-like object (not a number or string)."""
        roots = self.lookup(f, n.target.id)
        if isinstance(n.value, (ast.Constant, ast.JoinedStr)) and not isinstance(getattr(n.value, "value", None), (list,)):
            return set()
        if isinstance(n.op, (ast.Add,)) and isinstance(n.value, (ast.List, ast.ListComp)):
            return roots
        # parameters annotated or defaulted as text or numbers are immutable
        out = set()
        for x in roots:
            if x[0] == "param":
                g = self.tree.pkg.find(x[1]) if "." not in x[1] else None
                if g is not None and scalar_param(g, x[2]):
                    continue
            out.add(x)
        return out


class _Bind:
    """Borrow Forward.bind without its state."""

    def __init__(self, tree):
        self.tree = tree

    def as_tuple(self, f, e):
        if isinstance(e, ast.Name):
            e = self.tree.single_value(f, e.id)
        return list(e.elts) if isinstance(e, (ast.Tuple, ast.List)) else None

    def as_dict(self, f, e, depth=0):
        from .forward import Forward
        return Forward.as_dict(self, f, e, depth)


def scalar_param(g, p):
    for a in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs:
        if a.arg == p and a.annotation is not None:
            t = ast.unparse(a.annotation)
            if not any(w in t for w in ("list", "dict", "set", "List", "Dict", "Set", "[")):
                return True
    d = g.defaults().get(p)
    return isinstance(d, ast.Constant) and isinstance(d.value, (str, int, float, bool))


def reachable(tree, names):
    todo = [tree.pkg.find(n) for n in names]
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for _, g in tree.calls(f):
            todo.append(g)
        for g in tree.funcs:
            if g.parent is f:
                todo.append(g)
        for n in tree.own_nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                ent = tree.resolve(f, n.id)
                if ent is not None and ent.kind == "func":
                    todo.append(ent.val)
    return seen


def check_trace(tree, tier="quick"):
    r = Result("no-shared-state-change")
    a = Alias(tree)
    reach = reachable(tree, PUBLIC)
    for f in sorted(reach, key=lambda f: f.qual):
        for x, (site, what) in a.mut[f].items():
            if x[0] == "module":
                r.add("%s:%s" % (f.qual, x[1]), site, "module-level object %s is changed during a call (%s)" % (x[1], what))
            elif x[0] == "default":
                r.add("%s:%s" % (x[1], x[2]), site, "default value of parameter %s of %s is changed during a call (%s)" % (x[2], x[1], what))
        for dcr in getattr(f.node, "decorator_list", []):
            names = {n.id for n in ast.walk(dcr) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(dcr) if isinstance(n, ast.Attribute)}
            if names & CACHES and not immutable_result(tree, f):
                r.add("%s:cache" % f.qual, f.where, "%s is cached but returns a mutable object every caller shares" % f.qual)
        for n in tree.own_nodes(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                ent = tree.resolve(f, n.value.id)
                if ent is not None and ent.kind in ("func", "module", "class"):
                    r.add("%s:%s" % (f.qual, ast.unparse(n)), loc(f, n), "attribute %s persists between calls" % ast.unparse(n))
    for p in PUBLIC:
        f = tree.pkg.find(p)
        for x, (site, what) in a.mut[f].items():
            if x[0] == "param" and x[1] == f.qual:
                r.add("%s:%s" % (p, x[2]), site, "argument %s of %s is changed (%s)" % (x[2], p, what))
        for x in a.ret[f]:
            y = x
            while y[0] == "elem":
                y = y[1:]
            if y[0] in ("module", "default"):
                r.add("%s:result:%s" % (p, y[1]), f.where, "result of %s may be the shared object %s itself" % (p, y[1]))
    r.count(functions=len(reach), mutation_sites=a.sites, entry_points=len(PUBLIC))
    if len(reach) < 25 or a.sites < 20:
        raise AnalysisBroken("only %d functions and %d mutation sites analysed" % (len(reach), a.sites))
    return r


def immutable_result(tree, f):
    """All returns are constants, comparisons, strings or numbers (never list, dict, set displays or their aliases)."""
    for n in tree.own_nodes(f):
        if isinstance(n, ast.Return) and n.value is not None:
            for x in ast.walk(n.value):
                if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                    return False
            v = n.value
            if isinstance(v, ast.Name):
                ann = f.node.returns
                if ann is None or any(w in ast.unparse(ann) for w in ("list", "dict", "set", "tuple", "(")):
                    return False
            if isinstance(v, ast.Call):
                ann = f.node.returns
                if ann is None or ast.unparse(ann) not in ("str", "int", "bool"):
                    return False
    return True


# -- determinism
class Sets:
    """Which expressions are unordered sets."""

    def __init__(self, tree):
        self.tree = tree

    def is_set(self, f, e, depth=0):
        if depth > 5 or e is None:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                return self.is_set(f, e.func.value, depth + 1)
            g = self.tree.callee(f, e)
            if g is not None:
                return any(isinstance(n, ast.Return) and self.is_set(g, n.value, depth + 1) for n in self.tree.own_nodes(g))
            if isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "reversed", "iter", "filter", "map", "zip", "list", "tuple"):
                return any(self.is_set(f, a, depth + 1) for a in e.args)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(f, e.left, depth + 1) or self.is_set(f, e.right, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.is_set(f, e.body, depth + 1) or self.is_set(f, e.orelse, depth + 1)
        if isinstance(e, ast.Name):
            ent = self.tree.resolve(f, e.id)
            if ent is not None:
                return ent.kind == "const" and isinstance(ent.val, (set, frozenset))
            g = f
            while g is not None:
                vals = [n.value for n in self.tree.own_nodes(g) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
                if vals:
                    return any(self.is_set(g, v, depth + 1) for v in vals)
                g = g.parent
        return False


def check_determinism(tree, tier="quick"):
    r = Result("result-depends-on-arguments-only")
    reach = reachable(tree, list(PUBLIC))
    s = Sets(tree)
    iters = refs = 0
    for f in sorted(reach, key=lambda f: f.qual):
        for n in tree.own_nodes(f):
            if isinstance(n, (ast.For, ast.comprehension)):
                iters += 1
                if s.is_set(f, n.iter):
                    if isinstance(n, ast.comprehension) and order_free(tree, f, n):
                        continue
                    at = n if isinstance(n, ast.For) else n.iter
                    r.add("%s:iter" % f.qual, loc(f, at), "%s iterates over a set: the order changes between runs (%s)" % (f.qual, ast.unparse(n.iter)[:60]))
            elif isinstance(n, ast.Call):
                refs += 1
                fn = n.func
                if isinstance(fn, ast.Name) and tree.resolve(f, fn.id) is None and not shadowed(tree, f, fn.id):
                    if fn.id in IMPURE_BUILTINS:
                        r.add("%s:%s" % (f.qual, fn.id), loc(f, n), "%s calls %s()" % (f.qual, fn.id))
                    if fn.id in ("list", "tuple", "next", "iter", "enumerate", "zip", "map") and any(s.is_set(f, a) for a in n.args) and not wrapped(tree, f, n):
                        r.add("%s:%s-of-set" % (f.qual, fn.id), loc(f, n), "%s takes the elements of a set in arbitrary order" % f.qual)
                    if fn.id in ("min", "max", "sorted") and any(k.arg == "key" and not injective(k.value) for k in n.keywords) and any(s.is_set(f, a) for a in n.args):
                        r.add("%s:%s-of-set" % (f.qual, fn.id), loc(f, n), "%s breaks ties by set order" % f.qual)
                if any(isinstance(a, ast.Starred) and s.is_set(f, a.value) for a in n.args):
                    r.add("%s:star-set" % f.qual, loc(f, n), "%s passes the elements of a set in arbitrary order" % f.qual)
                if isinstance(fn, ast.Attribute):
                    if fn.attr not in SET_SAFE_METHODS and fn.attr != "join" and any(s.is_set(f, a) for a in n.args):
                        r.add("%s:%s-of-set" % (f.qual, fn.attr), loc(f, n), "%s hands the elements of a set to .%s() in arbitrary order" % (f.qual, fn.attr))
                    if fn.attr == "join" and n.args and s.is_set(f, n.args[0]):
                        r.add("%s:join-of-set" % f.qual, loc(f, n), "%s joins a set in arbitrary order" % f.qual)
                    if fn.attr in ("pop", "popitem") and s.is_set(f, fn.value):
                        r.add("%s:pop-of-set" % f.qual, loc(f, n), "%s takes an arbitrary element of a set" % f.qual)
            elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) and s.is_set(f, e.value) for e in n.elts):
                r.add("%s:star-set" % f.qual, loc(f, n), "%s lists the elements of a set in arbitrary order" % f.qual)
            elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets) and s.is_set(f, n.value):
                r.add("%s:unpack-set" % f.qual, loc(f, n), "%s takes the elements of a set in arbitrary order" % f.qual)
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and s.is_set(f, n.value):
                r.add("%s:extend-by-set" % f.qual, loc(f, n), "%s appends the elements of a set in arbitrary order" % f.qual)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                ent = tree.resolve(f, n.id)
                if ent is not None and ent.kind == "module" and ent.val.split(".")[0] in IMPURE_MODULES or ent is not None and ent.kind == "ext" and (
                        ent.val[0] or "").split(".")[0] in IMPURE_MODULES:
                    r.add("%s:%s" % (f.qual, n.id), loc(f, n), "%s uses %s" % (f.qual, n.id))
    for m in tree.pkg.modules.values():
        for n in m.tree.body:
            if is_main_block(n):
                continue
    r.count(functions=len(reach), iterations=iters, calls=refs)
    if len(reach) < 25 or iters < 20:
        raise AnalysisBroken("only %d functions and %d iterations analysed" % (len(reach), iters))
    return r


def shadowed(tree, f, name):
    g = f
    while g is not None:
        if name in g.all_params() or any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in tree.own_nodes(g)):
            return True
        g = g.parent
    return False


def parents(tree, f):
    d = {}
    for n in tree.own_nodes(f):
        for c in ast.iter_child_nodes(n):
            d[c] = n
    return d


SET_SAFE_METHODS = {"add", "discard", "remove", "append", "insert", "update", "union", "intersection", "difference", "symmetric_difference", "issubset",
                    "issuperset", "isdisjoint", "intersection_update", "difference_update", "symmetric_difference_update", "get", "count", "index", "setdefault"}


def injective(key):
    """A sort key that tells any two elements apart: position in a list, or a tuple containing the element itself."""
    if isinstance(key, ast.Attribute) and key.attr in ("index", "__getitem__"):
        return True
    if isinstance(key, ast.Lambda) and key.args.args:
        p = key.args.args[0].arg
        b = key.body
        if isinstance(b, ast.Tuple):
            return any(isinstance(e, ast.Name) and e.id == p for e in b.elts)
        return isinstance(b, ast.Name) and b.id == p or isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == "index"
    return False


ORDER_FREE = {"sorted", "set", "frozenset", "sum", "any", "all", "len", "min", "max"}


def wrapped(tree, f, n):
    p = parents(tree, f).get(n)
    return isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ORDER_FREE and not p.keywords


def order_free(tree, f, gen):
    ps = parents(tree, f)
    comp = ps.get(gen)
    if isinstance(comp, ast.SetComp):
        return True
    p = ps.get(comp)
    return isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ORDER_FREE and not any(k.arg == "key" for k in p.keywords)
