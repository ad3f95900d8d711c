"""P01: every name is bound, every local is assigned before use on every path, every internal call fits its callee."""
from __future__ import annotations
import ast
import builtins
from .base import Result, is_main_block, loc

BUILTINS = set(dir(builtins)) | {"__name__", "__file__", "__doc__"}


class Scope:
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind, self.names, self.globals = node, parent, kind, set(), set()


def bound_names(body_nodes):
    """Names bound in a scope by Python's rules (not entering nested functions, classes or comprehensions)."""
    out, glob = set(), set()
    todo = list(body_nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            todo.append(n.generators[0].iter)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        todo.extend(ast.iter_child_nodes(n))
    return out - glob, glob


class Flow:
    """Definitely-assigned analysis of one scope body. TOP (None) is the state of unreachable code."""

    def __init__(self, res, name, rel, local, report_class=False):
        self.res, self.name, self.rel, self.local, self.uses = res, name, rel, local, 0
        self.loops, self.trys = [], []
        self.noreturn = lambda call: False

    def join(self, *xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        out = xs[0]
        for x in xs[1:]:
            out = out & x
        return out

    def expr(self, n, st):
        """Evaluate an expression; returns the state after (walrus targets)."""
        if st is None or n is None:
            return st
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                if n.id in self.local:
                    self.uses += 1
                    if n.id not in st:
                        self.res.add("%s:%s" % (self.name, n.id), "%s:%d" % (self.rel, n.lineno),
                                     "local variable '%s' of %s may be used before it is assigned" % (n.id, self.name), "assigned-before-use")
                        return st | {n.id}
            elif isinstance(n.ctx, ast.Store):
                return st | {n.id} if n.id in self.local else st
            else:
                return st - {n.id}
            return st
        if isinstance(n, ast.NamedExpr):
            st = self.expr(n.value, st)
            return st | {n.target.id}
        if isinstance(n, ast.BoolOp):
            first = self.expr(n.values[0], st)
            s = first
            for v in n.values[1:]:
                s = self.expr(v, s)
            return first
        if isinstance(n, ast.IfExp):
            s = self.expr(n.test, st)
            return self.join(self.expr(n.body, s), self.expr(n.orelse, s))
        if isinstance(n, ast.Lambda):
            return st           # body runs later
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = set()
            for g in n.generators:
                for w in ast.walk(g.target):
                    if isinstance(w, ast.Name):
                        inner.add(w.id)
            saved = self.local
            s = self.expr(n.generators[0].iter, st)
            self.local = self.local - inner
            t = s
            for k, g in enumerate(n.generators):
                if k:
                    t = self.expr(g.iter, t)
                for c in g.ifs:
                    t = self.expr(c, t)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                t = self.expr(x, t)
            self.local = saved
            return s
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.keyword, ast.slice if hasattr(ast, "slice") else ast.expr)):
                st = self.expr(c, st)
        return st

    def cond(self, n, st):
        """(state when true, state when false)"""
        if st is None:
            return None, None
        if isinstance(n, ast.Constant):
            return (st, None) if n.value else (None, st)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = self.cond(n.operand, st)
            return b, a
        if isinstance(n, ast.BoolOp):
            t, f, cur = None, None, st
            outs = []
            for v in n.values:
                a, b = self.cond(v, cur)
                if isinstance(n.op, ast.And):
                    outs.append(b)
                    cur = a
                else:
                    outs.append(a)
                    cur = b
            return (cur, self.join(*outs)) if isinstance(n.op, ast.And) else (self.join(*outs), cur)
        s = self.expr(n, st)
        return s, s

    def block(self, body, st):
        for n in body:
            st = self.stmt(n, st)
        return st

    def raised(self, st):
        if st is not None:
            for t in self.trys:
                t.append(st)

    def stmt(self, n, st):
        if st is None:
            return None
        self.raised(st)
        if isinstance(n, ast.Expr):
            s = self.expr(n.value, st)
            return None if isinstance(n.value, ast.Call) and self.noreturn(n.value) else s
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                st = self.expr(ast.copy_location(ast.Name(n.target.id, ast.Load()), n), st)
            st = self.expr(n.value, st)
            if n.value is None:
                return st
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                st = self.expr(t, st)
            return st
        if isinstance(n, ast.If):
            a, b = self.cond(n.test, st)
            return self.join(self.block(n.body, a), self.block(n.orelse, b))
        if isinstance(n, (ast.For, ast.AsyncFor)):
            st = self.expr(n.iter, st)
            self.loops.append([])
            b = self.block(n.body, self.expr(n.target, st))
            brk = self.loops.pop()
            out = self.block(n.orelse, self.join(st))
            return self.join(out, *brk)
        if isinstance(n, ast.While):
            a, b = self.cond(n.test, st)
            self.loops.append([])
            e = self.block(n.body, a)
            brk = self.loops.pop()
            out = self.block(n.orelse, b)
            return self.join(out, *brk)
        if isinstance(n, ast.Break):
            if self.loops:
                self.loops[-1].append(st)
            return None
        if isinstance(n, ast.Continue):
            return None
        if isinstance(n, ast.Return):
            self.expr(n.value, st)
            return None
        if isinstance(n, ast.Raise):
            self.expr(n.cause, self.expr(n.exc, st))
            return None
        if isinstance(n, ast.Assert):
            a, b = self.cond(n.test, st)
            if b is not None:
                self.expr(n.msg, b)
            return a
        if isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
            self.trys.append([st])
            end = self.block(n.body, st)
            reach = self.join(*self.trys.pop())
            end = self.block(n.orelse, end)
            outs = [end]
            for h in n.handlers:
                s = self.expr(h.type, reach)
                if h.name and s is not None:
                    s = s | {h.name}
                s = self.block(h.body, s)
                if h.name and s is not None:
                    s = s - {h.name}
                outs.append(s)
            out = self.join(*outs)
            if n.finalbody:
                fin = self.block(n.finalbody, self.join(reach, out))
                if out is not None and fin is not None:
                    out = out | fin
                elif fin is None:
                    out = None
            return out
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.expr(i.optional_vars, st)
            return self.block(n.body, st)
        if isinstance(n, ast.Match):
            st = self.expr(n.subject, st)
            outs, cur = [], st
            for c in n.cases:
                s = cur
                for w in ast.walk(c.pattern):
                    if isinstance(w, (ast.MatchAs, ast.MatchStar)) and w.name:
                        s = s | {w.name}
                a = s
                if c.guard is not None:
                    a, _ = self.cond(c.guard, s)
                outs.append(self.block(c.body, a))
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    cur = None
                    break
            return self.join(cur, *outs)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                st = self.expr(d, st)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    st = self.expr(d, st)
            return st | {n.name}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name).split(".")[0] for a in n.names if a.name != "*"}
        if isinstance(n, ast.Delete):
            for t in n.targets:
                st = self.expr(t, st)
            return st
        return st


def check(tree, tier="quick"):
    r = Result("name-is-bound")
    pkg, envs = tree.pkg, tree.envs
    n_names = n_calls = n_funcs = n_unpack = 0

    never = never_returns(tree)

    def visit_scope(f, chain):
        """f: Func; chain: enclosing function name sets, innermost last."""
        nonlocal n_funcs, n_names
        n_funcs += 1
        node = f.node
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        local, glob = bound_names(node.body)
        local |= params
        fl = Flow(r, f.qual, f.mod.rel, frozenset(local))
        fl.noreturn = lambda call: tree.callee(f, call) in never
        fl.block(node.body, frozenset(params))
        names(node.body, chain + [local], f)

    def names(body, chain, f, rel=None, qual=None):
        nonlocal n_names
        modenv = envs.env(f.mod if f is not None else rel)
        todo = [(x, chain) for x in body]
        while todo:
            n, ch = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    todo.append((d, ch))
                visit_scope(n._func, ch)
                continue
            if isinstance(n, ast.ClassDef):
                cl, _ = bound_names(n.body)
                for d in n.bases + n.decorator_list:
                    todo.append((d, ch))
                for x in n.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        visit_scope(x._func, ch)
                    else:
                        todo.append((x, ch + [cl]))
                continue
            if isinstance(n, ast.Lambda):
                a = n.args
                p = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                for d in a.defaults:
                    todo.append((d, ch))
                todo.append((n.body, ch + [p]))
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner = {w.id for g in n.generators for w in ast.walk(g.target) if isinstance(w, ast.Name)}
                for c in ast.iter_child_nodes(n):
                    todo.append((c, ch + [inner]))
                continue
            if isinstance(n, ast.AnnAssign):
                todo.append((n.target, ch))
                if n.value is not None:
                    todo.append((n.value, ch))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                n_names += 1
                if not any(n.id in s for s in ch) and n.id not in modenv and n.id not in BUILTINS:
                    m = f.mod if f is not None else rel
                    q = f.qual if f is not None else "<module>"
                    r.add("%s:%s:%s" % (m.name, q, n.id), "%s:%d" % (m.rel, n.lineno), "name '%s' used in %s is not defined anywhere" % (n.id, q))
            todo.extend((c, ch) for c in ast.iter_child_nodes(n))

    for m in pkg.modules.values():
        top, _ = bound_names(m.tree.body)
        for x in m.tree.body:
            names([x], [top] if is_main_block(x) else [], None, m)

    # imported names exist in the module they are imported from
    n_imp = 0
    for m in pkg.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                t, name = envs.target_module(m, n)
                if t is None:
                    continue
                for a in n.names:
                    n_imp += 1
                    if a.name != "*" and a.name not in envs.env(t) and a.name not in t.funcs and name + "." + a.name not in pkg.modules:
                        r.add("%s:%s" % (m.name, a.name), "%s:%d" % (m.rel, n.lineno), "'%s' is imported from %s, which does not define it" % (a.name, name),
                              "import-exists")

    # calls fit
    for f in tree.funcs:
        for call, g in tree.calls(f):
            n_calls += 1
            problem = binding_problem(call, g)
            if problem:
                r.add("%s->%s" % (f.qual, g.qual), loc(f, call), "call of %s in %s: %s" % (g.qual, f.qual, problem), "call-fits-callee")
    # tuple results are unpacked at the length returned
    arity = {f: return_arity(tree, f) for f in tree.funcs}
    for f in tree.funcs:
        for n in tree.own_nodes(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)):
                g = tree.callee(f, n.value)
                if g is not None and arity[g] is not None and not any(isinstance(e, ast.Starred) for e in n.targets[0].elts):
                    n_unpack += 1
                    if arity[g] != {len(n.targets[0].elts)}:
                        r.add("%s->%s" % (f.qual, g.qual), loc(f, n), "%s unpacks %d values from %s, which returns %s" % (
                            f.qual, len(n.targets[0].elts), g.qual, sorted(arity[g])), "unpack-fits-result")
    r.count(functions=n_funcs, name_uses=n_names, internal_calls=n_calls, imports=n_imp, tuple_unpackings=n_unpack)
    return r


def never_returns(tree):
    """Functions every path of which raises (least fixpoint over direct calls)."""
    never = set()
    while True:
        new = set()
        for f in tree.funcs:
            if any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) for n in tree.own_nodes(f)) or isinstance(f.node, ast.AsyncFunctionDef):
                continue
            fl = Flow(Result("x"), f.qual, f.mod.rel, frozenset())
            fl.noreturn = lambda call: tree.callee(f, call) in never
            if fl.block(f.node.body, frozenset()) is None:
                new.add(f)
        if new == never:
            return never
        never = new


def return_arity(tree, f):
    """Set of tuple lengths returned, None when some return is not a tuple display."""
    out = set()
    for n in tree.own_nodes(f):
        if isinstance(n, ast.Return):
            if isinstance(n.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.value.elts):
                out.add(len(n.value.elts))
            else:
                return None
    return out or None


def binding_problem(call, g):
    a = g.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if isinstance(g.node, (ast.FunctionDef,)) and "." in g.qual and g.parent is None and pos and pos[0] == "self":
        pos = pos[1:]
    kwo = [x.arg for x in a.kwonlyargs]
    d = g.defaults()
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    if not star and len(call.args) > len(pos) and a.vararg is None:
        return "%d positional arguments, at most %d accepted" % (len(call.args), len(pos))
    given = set(pos[:len(call.args)]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos + kwo and a.kwarg is None:
            return "unknown keyword argument '%s'" % k.arg
        if k.arg in [x.arg for x in a.posonlyargs]:
            return "positional-only parameter '%s' passed by keyword" % k.arg
        if k.arg in given:
            return "argument '%s' given twice" % k.arg
        given.add(k.arg)
    if not star and not dstar:
        for p in pos + kwo:
            if p not in given and p not in d:
                return "required argument '%s' missing" % p
    return None
