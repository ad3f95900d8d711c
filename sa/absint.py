"""Abstract interpreter over the Python syntax tree.

Domain: sa/domain.py (strings over character classes with shared unknowns, linear integers, finite choices).
States are merged at every statement boundary when they agree on everything still live (trace partitioning
with join by canonical form); loops and comprehensions run to a fixpoint, with widening (adjacent unknowns
that always travel together are folded, counters are forgotten, list prefixes are smashed).
Functions of the repository are interpreted from their current source; a harness may replace a function by a
summary ("model_<name>" in the harness module, or a Python hook).
"""
from __future__ import annotations
from collections import Counter
import ast
import os
import functools
import builtins
import re
import re._parser as sre_parse
import re._constants as sre_c

from .domain import (ALL, ALPHA, OTHER, EMPTY, Budget, ExcVal, Fn, Lin, Op, Raise, Ref, S, Store, Tup, Unsupported,
                     lin_add, lin_mul, lin_parts, lit, mk_lin, show)
from .constfold import Envs
from .model import AnalysisBroken

NEXT, BRK, CONT = ("next",), ("brk",), ("cont",)
UNBOUND = object()


class K:
    """A constant container of the repository (never mutated by the analysis)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(("K", id(self.v)))

    def __eq__(self, o):
        return isinstance(o, K) and (o.v is self.v or (type(o.v) is type(self.v) and o.v == self.v))

    def __repr__(self):
        return "K(%s of %d)" % (type(self.v).__name__, len(self.v))


def lift(x):
    if isinstance(x, str):
        return lit(x)
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, tuple):
        return Tup(lift(y) for y in x)
    if isinstance(x, (list, dict, set, frozenset, range)):
        return K(list(x) if isinstance(x, range) else x)
    if isinstance(x, float):
        return Op(0, "float")
    raise Unsupported("constant of type %s" % type(x).__name__)


class Ctx:
    __slots__ = ("fid", "mod", "func", "parent", "locals", "spec")

    def __init__(self, fid, mod, func, parent, locals_):
        self.fid, self.mod, self.func, self.parent, self.locals = fid, mod, func, parent, locals_
        self.spec = getattr(mod, "is_spec", False)


class Finding:
    def __init__(self, rule, where, detail, witness):
        self.rule, self.where, self.detail, self.witness = rule, where, detail, witness

    def key(self):
        return (self.rule, self.where)


class Stop(Exception):
    pass


def names_loaded(n):
    return frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store))


@functools.lru_cache(None)
def has_inner(fn):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn)


def local_names(fn):
    """Names bound in a function body, by Python's scoping rules."""
    out, skip = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        out.add(w.target.id)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    out.add((al.asname or al.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                skip.update(c.names)
            walk(c)

    if isinstance(fn, ast.Lambda):
        return out
    for s in fn.body:
        walk(ast.Module([s], []))
    return out - skip


def stored_names(t):
    """The plain names an assignment target consists of; None when it has other parts."""
    if isinstance(t, ast.Name):
        return frozenset((t.id,))
    if isinstance(t, ast.Starred):
        return stored_names(t.value)
    if isinstance(t, (ast.Tuple, ast.List)):
        xs = [stored_names(e) for e in t.elts]
        return None if any(x is None for x in xs) else frozenset().union(*xs)
    return None


class Liveness:
    """live[stmt] = names that may be read after the statement, within the function."""

    def __init__(self, fn):
        self.live = {}
        self.always = frozenset()
        self.loops = []
        for x in ast.walk(fn):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                self.always |= names_loaded(x)
            elif isinstance(x, (ast.Nonlocal, ast.Global)):
                self.always |= set(x.names)
        self.block(fn.body, self.always)

    def block(self, body, after):
        for s in reversed(body):
            self.live[s] = self.live.get(s, frozenset()) | after
            after = self.stmt(s, after)
        return after

    def stmt(self, s, after):
        if isinstance(s, ast.If):
            a = self.block(s.body, after)
            b = self.block(s.orelse, after)
            return a | b | names_loaded(s.test) | self.always
        if isinstance(s, (ast.While, ast.For)):
            ex = self.block(s.orelse, after)
            head = ex | names_loaded(s.test if isinstance(s, ast.While) else s.iter)
            while True:
                self.loops.append((head, after))
                n = self.block(s.body, head)
                if isinstance(s, ast.For):
                    n -= stored_names(s.target) or frozenset()
                n |= head
                self.loops.pop()
                if n == head:
                    return head | self.always
                head = n
        if isinstance(s, ast.Continue):
            return self.loops[-1][0] | self.always
        if isinstance(s, ast.Break):
            return self.loops[-1][1] | self.always
        if isinstance(s, (ast.Return, ast.Raise)):
            return names_loaded(s) | self.always
        if isinstance(s, ast.Try):
            f = self.block(s.finalbody, after)
            h = f
            for x in s.handlers:
                h |= self.block(x.body, f) | (names_loaded(x.type) if x.type else frozenset())
            e = self.block(s.orelse, f)
            old = self.always
            self.always = old | h
            b = self.block(s.body, e | h)
            self.always = old
            return b | h
        if isinstance(s, ast.With):
            return self.block(s.body, after) | names_loaded(s) | self.always
        if isinstance(s, ast.Match):
            r = frozenset(after)
            for c in s.cases:
                r |= self.block(c.body, after)
            return r | names_loaded(s) | self.always
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            flat = [stored_names(t) for t in ts]
            if all(x is not None for x in flat):
                return (after - set().union(*flat)) | names_loaded(s.value) | self.always
        if isinstance(s, ast.AugAssign):
            return after | names_loaded(s) | ({s.target.id} if isinstance(s.target, ast.Name) else frozenset())
        return after | names_loaded(s)


class Slice:
    """Heuristic backward slice: the locals that can influence a returned value when raising exits are ignored.
    The complement may be forgotten at any time (forgetting is always an over-approximation)."""

    def __init__(self, fn):
        self.fn = fn
        rel = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Return) and x.value is not None:
                rel |= names_loaded(x.value)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                rel |= names_loaded(x)
            # what the function does to objects and variables that outlive it
            if isinstance(x, (ast.Nonlocal, ast.Global)):
                rel |= set(x.names)
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute):
                rel |= self.base(x.value.func.value)
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                rel |= self.base(x)
        rel -= {"re"}
        self.rel = rel
        while True:
            n = len(rel)
            for s in fn.body:
                self.visit(s)
            if len(rel) == n:
                break
        self.forget = local_names(fn) - rel

    def base(self, t):
        while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
            t = t.value
        if isinstance(t, (ast.Tuple, ast.List)):
            return set().union(*[self.base(e) for e in t.elts]) if t.elts else set()
        return {t.id} if isinstance(t, ast.Name) else set()

    def visit(self, s):
        """True when the statement has an effect on a relevant variable or on control flow other than raising."""
        eff = False
        for x in ast.walk(s) if not isinstance(s, (ast.If, ast.While, ast.For, ast.Try, ast.With, ast.Match)) else []:
            if isinstance(x, ast.NamedExpr) and x.target.id in self.rel:
                self.rel |= names_loaded(x.value)
                eff = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and self.base(x.func.value) & self.rel:
                for a in list(x.args) + [k.value for k in x.keywords]:
                    self.rel |= names_loaded(a)
                eff = eff or isinstance(s, ast.Expr)
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(self.base(t) & self.rel for t in ts):
                eff = True
                for t in ts:
                    self.rel |= names_loaded(t)
                if s.value is not None:
                    self.rel |= names_loaded(s.value)
            return eff
        if isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Delete)):
            return True
        if isinstance(s, ast.If):
            e = [self.visit(c) for c in s.body + s.orelse]
            if any(e):
                self.rel |= names_loaded(s.test)
            return any(e)
        if isinstance(s, (ast.While, ast.For)):
            e = [self.visit(c) for c in s.body + s.orelse]
            if isinstance(s, ast.For) and self.base(s.target) & self.rel:
                e.append(True)
            if any(e):
                self.rel |= names_loaded(s.test if isinstance(s, ast.While) else s.iter)
            return any(e)
        if isinstance(s, ast.Try):
            e = [self.visit(c) for c in s.body + s.orelse + s.finalbody]
            h = [self.visit(c) for x in s.handlers for c in x.body]
            return any(e) or any(h)
        if isinstance(s, ast.With):
            return any([self.visit(c) for c in s.body])
        if isinstance(s, ast.Match):
            e = [self.visit(c) for k in s.cases for c in k.body]
            if any(e):
                self.rel |= names_loaded(s.subject)
            return any(e)
        return eff


class Seen:
    """States met so far, told apart by canonical form (computed only when a cheap sketch coincides)."""

    def __init__(self, it):
        self.it, self.by = it, {}

    def new(self, st):
        a = self.it.sketch(st)
        first = self.by.get(a)
        if first is None:
            self.by[a] = [st.copy(), None]
            return True
        if first[1] is None:
            first[1] = {self.it.canon(first[0])}
        k = self.it.canon(st)
        if k in first[1]:
            return False
        first[1].add(k)
        return True


class Interp:
    def __init__(self, pkg, envs=None, hooks=None, spec=None, widen_after=6, max_steps=3_000_000, max_states=60000, track_raise=True):
        self.pkg = pkg
        self.envs = envs or Envs(pkg)
        self.hooks = dict(hooks or {})
        self.spec = spec
        if spec is not None:
            for q, f in spec.funcs.items():
                if q.startswith("model_"):
                    self.hooks[q[len("model_"):]] = f
        self.stand_ins = {}            # library tables a spec replaces: stand_in_<NAME> = <constant>
        if spec is not None:
            self.stand_ins = {k[len("stand_in_"):]: lift(e.val) for k, e in self.envs.env(spec).items() if k.startswith("stand_in_") and e.kind == "const"}
        self.widen_after = widen_after
        self.max_steps, self.max_states = max_steps, max_states
        self.steps = 0
        self._locals, self._live, self._slice = {}, {}, {}
        self.findings = {}
        self.only_truth = {}
        self.stats = {"calls": 0, "merged": 0, "splits": 0, "loops": 0, "widened": 0, "obligations": 0, "states": 0}
        self.funcs_seen = {}
        self.branches = set()
        self.depth = 0
        self.nfa_cache = {}
        self.cur = None
        self.obl = {}
        self.compress_from = 3
        self._rows = {}
        self._proj = {}
        self.refold_from = None
        self.prof = {} if os.environ.get("SA_PROF") else None

    # ------------------------------------------------------------------ infrastructure
    def unsup(self, msg, node=None, ctx=None):
        where = ""
        if ctx is not None and node is not None and hasattr(node, "lineno"):
            where = " at %s:%d" % (ctx.mod.rel, node.lineno)
        raise Unsupported(msg + where)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Budget("analysis budget exhausted (%d steps)" % self.max_steps)

    def locals_of(self, fn):
        if fn not in self._locals:
            self._locals[fn] = local_names(fn)
        return self._locals[fn]

    def live_of(self, fn):
        if fn not in self._live:
            self._live[fn] = Liveness(fn)
        return self._live[fn]

    # ------------------------------------------------------------------ canonical form, merging
    def canon(self, st, extra=(), soft=False):
        """Canonical form under renaming of unknowns.  soft: leave what is known of each unknown character and of
        each finite choice out of the form and return it separately -> (form, [(kind, id)], [(positions, rows)])."""
        ren, seen_obj, order = {}, {}, []
        heap, frames = st.heap, st.frames
        norm = self.soft_norm(st) if soft else st.norm

        def el(x):
            if x[0] == "c":
                return x[1]
            i = x[1]
            if i not in ren:
                ren[i] = len(order)
                order.append((x[0], i))
                return (x[0], ren[i], (None if soft else st.cs[i]) if x[0] == "v" else st.gs[i])
            return (x[0], ren[i])

        def val(v):
            if v is None or isinstance(v, (bool, int)):
                return (type(v).__name__, v)
            if isinstance(v, S):
                return ("S",) + tuple(el(x) for x in norm(v.e))
            if isinstance(v, Lin):
                v = st.nlin(v)
                if not isinstance(v, Lin):
                    return ("int", v)
                terms = []
                for var, c in v.t:
                    i = var[1]
                    if i not in ren:
                        ren[i] = len(order)
                        order.append(("v" if var[0] == "ind" else "o" if var[0] == "op" else "g", i))
                    terms.append(((var[0], ren[i]) + tuple(var[2:]), c))
                terms.sort()
                return ("L", v.k, tuple(terms))
            if isinstance(v, Tup):
                return ("T",) + tuple(val(x) for x in v.items)
            if isinstance(v, Ref):
                if v.id in seen_obj:
                    return ("R", seen_obj[v.id])
                seen_obj[v.id] = len(seen_obj)
                return ("O", seen_obj[v.id], obj(heap[v.id]))
            if isinstance(v, Op):
                new = v.id not in ren
                if new:
                    ren[v.id] = len(order)
                    order.append(("o", v.id))
                    fact = st.facts.get(v.id)
                    if soft and fact and fact[0] == "dom":
                        fact = "dom"
                    return ("Op", ren[v.id], v.hint, fact)
                return ("Op", ren[v.id], v.hint, None)
            if isinstance(v, Fn):
                if isinstance(v.data, tuple):
                    return ("F", v.kind, v.name, tuple(val(x) if isinstance(x, (S, Ref, Op, Tup, Lin, K)) else id(x) for x in v.data))
                if isinstance(v.data, (S, Ref, Op, Tup, Lin)):
                    return ("F", v.kind, v.name, val(v.data))
                return ("F", v.kind, v.name, id(v.data))
            if isinstance(v, K):
                return ("K", id(v.v))
            if isinstance(v, ExcVal):
                return ("E", v.cls)
            if isinstance(v, Raise):
                return ("X", v.cls, v.where)
            return ("?", repr(v))

        def obj(o):
            k = o[0]
            if k == "list":
                pre = o[1]
                p = None if pre is None else (pre[0], pre[1]) if pre[0] == "strs" else (pre[0],) + ((tuple(el(x) for x in norm(pre[1])),) + (
                    () if len(pre) < 3 else (el(("g", pre[2])) if pre[2] not in st.sub else tuple(el(x) for x in norm((("g", pre[2]),))),)) if pre[0] == "cat" else ())
                rest = None
                if len(o) > 3 and o[3] is not None:
                    r = o[3]
                    rest = ("split", tuple(el(x) for x in norm(r[1])), r[2], tuple(el(x) for x in norm((("g", r[3]),))))
                return ("list", p, tuple(val(x) for x in o[2]), rest)
            if k == "dict":
                return ("dict", tuple((val(a), val(b)) for a, b in o[1]))
            if k == "set":
                return ("set", tuple(val(a) for a in o[1]))
            if k == "iter":
                return ("iter", o[1]) + tuple(
                    val(x) if not (isinstance(x, tuple) and x and isinstance(x[0], tuple)) and not isinstance(x, str) and not (isinstance(x, tuple) and not x)
                    else (x if isinstance(x, str) else tuple(el(y) for y in norm(x))) for x in o[2:])
            return (k, repr(o[1:]))

        parts = []
        for fid in st.stack:
            fr = frames[fid]
            if soft:
                row = [fid]
                for n in sorted(fr):
                    v = fr[n]
                    if v is None or isinstance(v, (bool, int)) or (isinstance(v, Op) and self.lone_scalar(st, v, extra)):
                        order.append(("l", (fid, n)))
                        row.append((n, "slot"))
                    else:
                        row.append((n, val(v)))
                parts.append(tuple(row))
            else:
                parts.append((fid,) + tuple((n, val(fr[n])) for n in sorted(fr)))
        parts.append(tuple(val(x) for x in st.tmp))
        for x in extra:
            parts.append(val(x))
        if not soft and len(st.facts) > 24:
            self.prune(st, ren)
        rels = []
        for key, rows in self.live_rels(st, ren):
            idx = [j for j, v in enumerate(key) if v in ren]
            if len(idx) < 2:
                continue
            idx.sort(key=lambda j: ren[key[j]])
            rk = tuple(ren[key[j]] for j in idx)
            if len(idx) == len(key) and idx == list(range(len(key))):
                rr = rows
            else:
                pk = (rows, tuple(idx))
                rr = self._proj.get(pk)
                if rr is None:
                    if len(self._proj) > 20000:
                        self._proj.clear()
                    rr = self._proj[pk] = frozenset(tuple(t[j] for j in idx) for t in rows)
            rels.append((rk, rr))
        rels.sort(key=lambda r: (r[0], len(r[1])))
        mf = []
        for fk, fv in st.facts.items():
            if isinstance(fk, tuple) and fk[0] in ("cmp", "map", "none"):
                for i in fk[-1]:
                    if i not in ren:
                        break
                else:
                    ids = fk[-1]
                    mf.append((fk[0],) + tuple(fk[1:-1]) + (tuple(ren[i] for i in ids), fv if fk[0] == "cmp" or not isinstance(fv, tuple) else tuple(el(x) for x in norm(fv))))
            elif isinstance(fk, tuple) and fk[0] == "rng" and fk[1] in ren:
                mf.append(("rng", ren[fk[1]], fv))
            elif isinstance(fk, tuple) and fk[0] == "lin" and all(i in ren for i in fk[-1]):
                mf.append(("lin", fk[1], tuple(ren[i] for i in fk[-1]), fv))
        mf.sort(key=repr)
        if soft:
            return (tuple(parts), tuple(mf), st.note), order, rels
        return (tuple(parts), tuple(rels), tuple(mf), st.note)

    @staticmethod
    def prune(st, ren):
        """Drop what is recorded about unknowns no live value refers to."""
        keep = {}
        for k, v in st.facts.items():
            if isinstance(k, tuple):
                last = k[-1]
                if isinstance(last, tuple):
                    for i in last:
                        if i not in ren and isinstance(i, int):
                            break
                    else:
                        keep[k] = v
                elif k[1] in ren or k[0] not in ("orig", "rng"):
                    keep[k] = v
            elif k in ren:
                keep[k] = v
        if len(keep) != len(st.facts):
            st.facts = keep

    def live_rels(self, st, ren):
        """The relations of a state; those that share an unknown which is no longer referred to are joined first."""
        items = list(st.rel.items())
        if len(items) < 2:
            return items
        count = {}
        for key, _ in items:
            for v in key:
                if v not in ren:
                    count[v] = count.get(v, 0) + 1
        if not any(n > 1 for n in count.values()):
            return items
        comps = []
        for key, rows in items:
            mine = [c for c in comps if any(v in c[0] and count.get(v, 0) > 1 for v in key)]
            new = (set(key), [(key, rows)])
            for c in mine:
                new[0].update(c[0])
                new[1].extend(c[1])
                comps.remove(c)
            comps.append(new)
        out = []
        for ids, rels in comps:
            live = sorted((v for v in ids if v in ren), key=ren.get)
            if len(rels) == 1 or len(live) < 2 or not any(count.get(v, 0) > 1 for v in ids):
                out += rels
                continue
            order = live + sorted(v for v in ids if v not in ren)
            rows = self.rows_of(tuple(order), {v: st.cs[v] for v in order}, rels)
            if rows is None:
                out += rels
                self.stats["chain_kept"] = self.stats.get("chain_kept", 0) + 1
                continue
            out.append((tuple(live), frozenset(r[:len(live)] for r in rows)))
        return out

    def feasible(self, st):
        """False when the recorded relations between unknown characters have no common solution."""
        comps = []
        for key, rows in st.rel.items():
            new = (set(key), [(key, rows)])
            for c in [c for c in comps if c[0] & new[0]]:
                new[0].update(c[0])
                new[1].extend(c[1])
                comps.remove(c)
            comps.append(new)
        if any(not c for i, c in st.cs.items()):
            return False
        for ids, rels in comps:
            if len(rels) > 1:
                order = tuple(sorted(ids))
                if self.rows_of(order, {v: st.cs[v] for v in order}, rels) == frozenset():
                    return False
        return True

    def lone_scalar(self, st, op, extra):
        """A finite choice among numbers, truth values or None that one variable alone holds."""
        f = st.facts.get(op.id)
        if not f or f[0] != "dom" or not all(x is None or isinstance(x, (bool, int)) for x in f[1]):
            return False
        for k in st.facts:
            if isinstance(k, tuple) and (op.id in k[-1] if isinstance(k[-1], tuple) else k[0] == "rng" and k[1] == op.id):
                return False
        seen, cnt = set(), [0]

        def val(v):
            if isinstance(v, Op):
                cnt[0] += v.id == op.id
            elif isinstance(v, Lin):
                cnt[0] += 2 * any(var[1] == op.id for var, _ in v.t)
            elif isinstance(v, Tup):
                for z in v.items:
                    val(z)
            elif isinstance(v, Ref):
                if v.id not in seen:
                    seen.add(v.id)
                    val(st.heap[v.id])
            elif isinstance(v, Fn):
                val(v.data)
            elif isinstance(v, tuple):
                for z in v:
                    val(z)
        for fid in st.stack:
            for v in st.frames[fid].values():
                val(v)
        val(st.tmp)
        val(tuple(extra))
        return cnt[0] == 1

    @staticmethod
    def soft_norm(st):
        """Resolve refinements, but keep an unknown character that has become known as the same unknown."""
        sub = st.sub

        def norm(elems):
            out = None
            for idx, x in enumerate(elems):
                r = sub.get(x[1]) if x[0] != "c" else None
                if r is not None and not (x[0] == "v" and len(r) == 1 and r[0][0] == "c"):
                    if out is None:
                        out = list(elems[:idx])
                    out.extend(norm(r))
                elif out is not None:
                    out.append(x)
            return tuple(elems) if out is None else tuple(out)
        return norm

    def refold(self, st):
        """Forget what tests found inside an unknown text no live value refers to other than as a whole."""
        raw, seen = set(), set()

        def val(v):
            if isinstance(v, S):
                for x in v.e:
                    if x[0] != "c":
                        raw.add(x[1])
            elif isinstance(v, Lin):
                for var, _ in v.t:
                    raw.add(var[1])
            elif isinstance(v, Tup):
                for z in v.items:
                    val(z)
            elif isinstance(v, Ref):
                if v.id not in seen:
                    seen.add(v.id)
                    val(st.heap[v.id])
            elif isinstance(v, Fn):
                val(v.data)
            elif isinstance(v, tuple):
                if len(v) == 2 and v[0] in ("v", "g") and isinstance(v[1], int):
                    raw.add(v[1])
                    return
                if len(v) > 2 and v[0] == "cat" and isinstance(v[2], int):
                    raw.add(v[2])
                if len(v) > 3 and v[0] == "split" and isinstance(v[3], int):
                    raw.add(v[3])
                for z in v:
                    val(z)
        for fid in st.stack:
            for v in st.frames[fid].values():
                val(v)
        for v in st.tmp:
            val(v)
        drop = []
        for g in raw:
            if g in st.sub and g in st.gs:
                D, work = set(), list(st.sub[g])
                while work:
                    x = work.pop()
                    if x[0] != "c" and x[1] not in D:
                        D.add(x[1])
                        work += st.sub.get(x[1], ())
                if not D & raw:
                    drop.append((g, D))
        if not drop:
            return st
        n = st.copy()
        for g, D in drop:
            n.sub.pop(g, None)
            for k in [k for k in n.rel if any(i in D for i in k)]:
                del n.rel[k]
            for k in [k for k in n.facts if isinstance(k, tuple) and isinstance(k[-1], tuple) and any(i in D for i in k[-1])]:
                del n.facts[k]
        return n

    MERGE_ROWS = 3000

    def compress(self, items):
        """Exact union of states that differ in one group of related unknowns only.  items: [(store, payload, key extras)]."""
        info, groups = [], {}
        for n, (s, payload, extra) in enumerate(items):
            form, order, rels = self.canon(s, extra, soft=True)
            info.append((order, rels))
            groups.setdefault((form, payload[0] if isinstance(payload, tuple) and payload else None), []).append(n)
        if len(groups) == len(items):
            return items
        out, drop = {}, set()
        for members in groups.values():
            if len(members) < 2:
                continue
            # one partition of the unknowns for the whole group
            order = info[members[0]][0]
            par = {}

            def find(x):
                while par.get(x, x) != x:
                    x = par[x]
                return x
            for n in members:
                for pos, rows in info[n][1]:
                    r0 = find(pos[0])
                    for x in pos[1:]:
                        par[find(x)] = r0
                        r0 = find(r0)
            comps = {}
            for j, (k, i) in enumerate(order):
                if k != "g":
                    comps.setdefault(find(j), []).append(j)
            comps = [tuple(c) for c in comps.values()]
            recs = []
            for n in members:
                s = items[n][0]
                od, rels = info[n]
                sets = {}
                for c in comps:
                    for j in c:
                        k, i = od[j]
                        if k == "l":
                            v = s.frames[i[0]][i[1]]
                            sets[j] = tuple((type(x).__name__, x) for x in (s.facts[v.id][1] if isinstance(v, Op) else (v,)))
                        elif k == "o":
                            f = s.facts.get(i)
                            sets[j] = tuple((type(x).__name__, x) for x in f[1]) if f and f[0] == "dom" else None
                        else:
                            sets[j] = s.cs[i]
                val = []
                for c in comps:
                    if len(c) == 1:
                        v = sets[c[0]]
                        val.append(frozenset(v) if v is not None else None)
                        continue
                    mine = [(p, r) for p, r in rels if p[0] in c]
                    if any(sets[j] is None for j in c):
                        val.append(None)
                        continue
                    rows = self.rows_of(c, sets, mine)
                    val.append(rows if rows is not None else ("big", tuple(sets[j] for j in c), tuple(sorted((p, hash(r)) for p, r in mine))))
                if any(v == frozenset() for v in val if isinstance(v, frozenset)):
                    drop.add(n)                 # no joint value: the path is infeasible
                    continue
                recs.append([val, n, False])
            changed = True
            while changed and len(recs) > 1:
                changed = False
                for ci in range(len(comps)):
                    bucket = {}
                    for r in recs:
                        key = tuple(r[0][:ci] + r[0][ci + 1:])
                        o = bucket.get(key)
                        if o is None:
                            bucket[key] = r
                            continue
                        a, b = o[0][ci], r[0][ci]
                        if a == b:
                            pass
                        elif isinstance(a, frozenset) and isinstance(b, frozenset) and len(a) + len(b) <= self.MERGE_ROWS:
                            o[0][ci] = a | b
                        else:
                            bucket[(key, r[1])] = r
                            continue
                        o[2] = True
                        r[1] = -1 if r[1] < 0 else r[1]
                        drop.add(r[1])
                        changed = True
                        self.stats["merged"] += 1
                    if len(bucket) != len(recs):
                        recs = list(bucket.values())
            for val, n, touched in recs:
                if not touched:
                    continue
                s = items[n][0].copy()
                od, rels = info[n]
                ids = {i: j for j, (k, i) in enumerate(od)}
                s.rel = {}
                for c, rows in zip(comps, val):
                    if not isinstance(rows, frozenset):
                        for p, r in rels:
                            if p[0] in c:
                                s.rel[tuple(od[j][1] for j in p)] = r
                        continue
                    if len(c) == 1:
                        k, i = od[c[0]]
                        if k == "l":
                            old = s.frames[i[0]][i[1]]
                            if len(rows) > 1 and not (isinstance(old, Op) and len(s.facts[old.id][1]) == len(rows)):
                                dom = [x for t, x in sorted(rows, key=repr)]
                                hint = "bool" if all(isinstance(x, bool) for x in dom) else "int" if all(type(x) is int for x in dom) else "any"
                                s.frames[i[0]] = dict(s.frames[i[0]])
                                s.frames[i[0]][i[1]] = self.new_op(s, hint, dom)
                        elif k == "o":
                            if rows:
                                ref = s.facts.get(("orig", i)) or ()
                                have = [x for x in ref if (type(x).__name__, x) in rows]
                                have += [x for t, x in sorted(rows, key=repr) if not any(x is y or (type(x) is type(y) and x == y) for y in have)]
                                s.facts[i] = ("dom", tuple(have))
                        else:
                            self.put_class(s, i, rows)
                        continue
                    proj = [frozenset(t[m] for t in rows) for m in range(len(c))]
                    size = 1
                    for m, j in enumerate(c):
                        self.put_class(s, od[j][1], proj[m])
                        size *= len(proj[m])
                    live = [m for m in range(len(c)) if len(proj[m]) > 1 or OTHER in proj[m]]
                    if size != len(rows) and len(live) > 1:
                        s.rel[tuple(od[c[m]][1] for m in live)] = frozenset(tuple(t[m] for m in live) for t in rows)
                out[n] = s
        return [(out.get(n, it[0]), it[1], it[2]) for n, it in enumerate(items) if n not in drop]

    @staticmethod
    def put_class(s, i, cls):
        s.cs[i] = cls
        if len(cls) == 1 and OTHER not in cls:
            s.sub[i] = (("c", next(iter(cls))),)
        else:
            s.sub.pop(i, None)

    def rows_of(self, c, sets, rels):
        base = {j: n for n, j in enumerate(c)}
        key = (tuple(frozenset(sets[j]) for j in c), tuple((tuple(base[p] for p in pos), rows) for pos, rows in rels))
        got = self._rows.get(key, self)
        if got is self:
            got = self._rows[key] = self.rows_of_(tuple(range(len(c))), {base[j]: sets[j] for j in c}, [(tuple(base[p] for p in pos), rows) for pos, rows in rels])
        return got

    def rows_of_(self, c, sets, rels):
        """All joint values of the related unknowns c, or None when there are too many."""
        rows, have = [()], []
        for j in c:
            have.append(j)
            if len(rows) * len(sets[j]) > 4 * self.MERGE_ROWS:
                return None
            rows = [r + (x,) for r in rows for x in sets[j]]
            for pos, tuples in rels:
                if j in pos:
                    idx = [(a, have.index(p)) for a, p in enumerate(pos) if p in have]
                    if len(idx) == len(pos):
                        rows = [r for r in rows if tuple(r[b] for _, b in idx) in tuples]
                    elif len(idx) > 1:
                        proj = {tuple(t[a] for a, _ in idx) for t in tuples}
                        rows = [r for r in rows if tuple(r[b] for _, b in idx) in proj]
        return frozenset(rows) if len(rows) <= self.MERGE_ROWS else None


    @staticmethod
    def sketch(st, extra=()):
        """A cheap part of canon(): states with different sketches have different canonical forms."""
        cs, gs, facts, heap = st.cs, st.gs, st.facts, st.heap

        def one(v):
            if v is None or isinstance(v, (bool, int)):
                return v
            if isinstance(v, S):
                return tuple([x[1] if x[0] == "c" else cs[x[1]] if x[0] == "v" else gs[x[1]] for x in st.norm(v.e)])
            if isinstance(v, Op):
                return (v.hint, facts.get(v.id))
            if isinstance(v, Tup):
                return tuple([one(x) for x in v.items])
            if isinstance(v, Ref):
                o = heap[v.id]
                if o[0] == "list":
                    return tuple([one(x) if isinstance(x, S) else None for x in o[2]])
            return "?"

        out = [st.note]
        for fid in reversed(st.stack):
            fr = st.frames[fid]
            out.append(len(fr))
            for n in sorted(fr):
                out.append(one(fr[n]))
        for v in st.tmp:
            out.append(one(v))
        for v in extra:
            out.append(one(v))
        return tuple(out)

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen, out = set(), []
        sk = [self.sketch(s) for s in states]
        count = Counter(sk)
        for s, a in zip(states, sk):
            if count[a] > 1:
                k = self.canon(s)
                if k in seen:
                    self.stats["merged"] += 1
                    continue
                seen.add(k)
            out.append(s)
        if len(out) >= self.compress_from:
            out = [x for x, _, _ in self.compress([(x, None, ()) for x in out])]
        if self.refold_from and len(out) >= self.refold_from:
            ref, keep = {}, []
            for x in out:
                x = self.refold(x)
                k = self.canon(x)
                if k not in ref:
                    ref[k] = x
                    keep.append(x)
            if len(keep) < len(out):
                out = [x for x, _, _ in self.compress([(x, None, ()) for x in keep])]
        if len(out) > self.max_states:
            raise Budget("too many abstract states at one program point (%d)" % len(out))
        return out

    def dedupe_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        seen, out = set(), []
        sk = [self.sketch(s, (v,)) for s, v in pairs]
        count = Counter(sk)
        for (s, v), a in zip(pairs, sk):
            if count[a] > 1:
                k = self.canon(s, (v,))
                if k in seen:
                    self.stats["merged"] += 1
                    continue
                seen.add(k)
            out.append((s, v))
        if len(out) >= self.compress_from:
            out = [(x, v) for x, (_, v), _ in self.compress([(x, (None, v), (v,)) for x, v in out])]
        return out

    def kill_dead(self, st, fid, live):
        fr = st.frames[fid]
        dead = [n for n in fr if n not in live]
        if dead:
            fr = {n: v for n, v in fr.items() if n in live}
            st.frames[fid] = fr

    # ------------------------------------------------------------------ finite choices / opaque values
    def new_op(self, st, hint="any", dom=None):
        i = st.fresh()
        if dom is not None:
            dom = tuple(dom)
            if len(dom) == 1:
                return lift(dom[0])
            st.facts[i] = ("dom", dom)
            st.facts[("orig", i)] = dom
        return Op(i, hint)

    def res(self, st, v):
        if isinstance(v, Op):
            f = st.facts.get(v.id)
            if f and f[0] == "dom" and len(f[1]) == 1:
                return lift(f[1][0])
        elif isinstance(v, Lin):
            return st.nlin(v)
        return v

    def split_dom(self, st, v):
        """Enumerate a finite choice completely."""
        f = st.facts.get(v.id)
        out = []
        for c in f[1]:
            n = st.copy()
            n.facts[v.id] = ("dom", (c,))
            out.append((n, lift(c)))
        self.stats["splits"] += len(out)
        return out

    def is_choice(self, st, v):
        return isinstance(v, Op) and st.facts.get(v.id, (None,))[0] == "dom"

    def concretise(self, st, vals):
        """Resolve finite choices among vals. -> list of (st, vals)"""
        out = [(st, tuple(self.res(st, v) for v in vals))]
        while True:
            nxt, more = [], False
            for s, vs in out:
                for i, v in enumerate(vs):
                    if self.is_choice(s, v):
                        more = True
                        for s2, c in self.split_dom(s, v):
                            nxt.append((s2, tuple(self.res(s2, x) for x in vs)))
                        break
                else:
                    nxt.append((s, vs))
            out = nxt
            if not more:
                return out

    # ------------------------------------------------------------------ truth and comparison
    def truth(self, st, v):
        v = self.res(st, v)
        if v is None:
            return [(st, False)]
        if isinstance(v, (bool, int)):
            return [(st, bool(v))]
        if isinstance(v, Lin):
            return [(s, not b) for s, b in self.cmp_num(st, "==", v, 0)]
        if isinstance(v, S):
            return self.nonempty(st, v.e)
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, K):
            return [(st, bool(v.v))]
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o[0] == "list":
                if o[2] or (len(o) > 3 and o[3] is not None):
                    return [(st, True)]
                if o[1] is None:
                    return [(st, False)]
                return [(st, True), (st.copy(), False)]
            if o[0] in ("dict", "set"):
                return [(st, bool(o[1]))]
            return [(st, True)]
        if isinstance(v, Op):
            if v.hint == "match":
                return [(st, True)]
            f = st.facts.get(v.id)
            if f and f[0] == "dom":
                t = tuple(c for c in f[1] if c)
                e = tuple(c for c in f[1] if not c)
                out = []
                for part, b in ((t, True), (e, False)):
                    if part:
                        n = st.copy()
                        n.facts[v.id] = ("dom", part)
                        out.append((n, b))
                return out
            if f and f[0] == "truth":
                return [(st, f[1])]
            out = []
            for b in (True, False):
                n = st.copy()
                if v.hint == "bool":
                    n.facts[v.id] = ("dom", (b,))
                elif f is None:
                    n.facts[v.id] = ("truth", b)
                out.append((n, b))
            self.stats["splits"] += 2
            return out
        if isinstance(v, (Fn, ExcVal)):
            return [(st, True)]
        raise Unsupported("truth of %r" % (v,))

    def nonempty(self, st, elems):
        elems = st.norm(elems)
        if any(x[0] != "g" for x in elems):
            return [(st, True)]
        if not elems:
            return [(st, False)]
        a, b = st.expand(elems[0][1])
        self.stats["splits"] += 1
        return [(b, True)] + self.nonempty(a, elems)

    def ensure_left(self, st, elems, k):
        """States in which the first k elements are characters, or the string is entirely characters and shorter."""
        work, out = [st], []
        while work:
            s = work.pop()
            e = s.norm(elems)
            pos = next((i for i, x in enumerate(e[:k]) if x[0] == "g"), None)
            if pos is None:
                out.append((s, e))
            else:
                self.tick()
                self.stats["splits"] += 1
                a, b = s.expand(e[pos][1])
                work += [b, a]
        return out

    def ensure_right(self, st, elems, k):
        work, out = [st], []
        while work:
            s = work.pop()
            e = s.norm(elems)
            tail = e[len(e) - k:] if k and len(e) >= k else (e if k else ())
            pos = next((i for i in range(len(tail) - 1, -1, -1) if tail[i][0] == "g"), None)
            if pos is None:
                out.append((s, e))
            else:
                self.tick()
                self.stats["splits"] += 1
                a, b = s.expand(tail[pos][1], left=False)
                work += [b, a]
        return out

    def eq_char(self, st, x, y):
        """(st, bool) for equality of two characters."""
        if x == y:
            return [(st, True)]
        cx, cy = st.classof(x), st.classof(y)
        com = cx & cy
        if not com:
            return [(st, False)]
        if x[0] == "c" and y[0] == "c":
            return [(st, x[1] == y[1])]
        out = []
        self.stats["splits"] += 1
        if x[0] == "c" or y[0] == "c":
            v, ch = (y, x[1]) if x[0] == "c" else (x, y[1])
            n = st.set_class(v[1], frozenset((ch,)))
            if n:
                out.append((n, True))
            rest = st.cs[v[1]] - {ch}
            n = st.set_class(v[1], rest) if rest else None
            if n:
                out.append((n, False))
            return out
        n = st.add_rel((x[1], y[1]), {(c, c) for c in com})
        if n:
            out.append((n, True))
        n = st.add_rel((x[1], y[1]), {(a, b) for a in cx for b in cy if a != b})
        if n:
            out.append((n, False))
        return out

    def eq_elems(self, st, a, b, depth=0):
        a, b = st.norm(a), st.norm(b)
        while a and b and a[0] == b[0]:
            a, b = a[1:], b[1:]
        while a and b and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
        if not a and not b:
            return [(st, True)]
        if not a or not b:
            return [(s, not t) for s, t in self.nonempty(st, a or b)]
        ga, gb = any(x[0] == "g" for x in a), any(x[0] == "g" for x in b)
        if not ga and not gb:
            if len(a) != len(b):
                return [(st, False)]
            out, cur = [], [st]
            for x, y in zip(a, b):
                nxt = []
                for s in cur:
                    x2, y2 = s.norm((x,))[0], s.norm((y,))[0]
                    for s2, t in self.eq_char(s, x2, y2):
                        (nxt.append(s2) if t else out.append((s2, False)))
                cur = nxt
            return out + [(s, True) for s in cur]
        # minimum lengths
        na, nb = sum(x[0] != "g" for x in a), sum(x[0] != "g" for x in b)
        if (not ga and nb > len(a)) or (not gb and na > len(b)):
            return [(st, False)]
        # classes that can never meet
        for side in (0, -1):
            if a[side][0] != "g" and b[side][0] != "g" and not (st.classof(a[side]) & st.classof(b[side])):
                return [(st, False)]
        if ga and gb:
            ca = frozenset().union(*[st.classof(x) for x in a])
            for x in b:
                if x[0] != "g" and not (st.classof(x) & ca):
                    return [(st, False)]
            cb = frozenset().union(*[st.classof(x) for x in b])
            for x in a:
                if x[0] != "g" and not (st.classof(x) & cb):
                    return [(st, False)]
        if a[0][0] != "g" and b[0][0] != "g":
            out = []
            for s, t in self.eq_char(st, a[0], b[0]):
                out += self.eq_elems(s, a[1:], b[1:], depth) if t else [(s, False)]
            return out
        if a[-1][0] != "g" and b[-1][0] != "g":
            out = []
            for s, t in self.eq_char(st, a[-1], b[-1]):
                out += self.eq_elems(s, a[:-1], b[:-1], depth) if t else [(s, False)]
            return out
        if (ga and gb) and depth >= 3:
            return self.opaque_eq(st, a, b)
        side = 0 if (a[0][0] == "g" or b[0][0] == "g") else -1
        g = a[side][1] if a[side][0] == "g" else b[side][1]
        self.tick()
        self.stats["splits"] += 1
        x, y = st.expand(g, left=(side == 0))
        return self.eq_elems(x, a, b, depth + (1 if ga and gb else 0)) + self.eq_elems(y, a, b, depth + (1 if ga and gb else 0))

    def opaque_eq(self, st, a, b):
        t, f = st.copy(), st.copy()
        t.note = f.note
        self.stats["splits"] += 1
        self.imprecise = getattr(self, "imprecise", 0) + 1
        return [(t, True), (f, False)]

    def eq(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Op):
                f = st.facts.get(x.id)
                if f and f[0] == "dom":
                    if y is None or isinstance(y, (bool, int)) or (isinstance(y, S) and self.pystr(st, y) is not None):
                        yc = self.pystr(st, y) if isinstance(y, S) else y
                        yes = tuple(c for c in f[1] if c == yc and (isinstance(c, str) == isinstance(yc, str)) and (c is None) == (yc is None))
                        no = tuple(c for c in f[1] if c not in yes)
                        out = []
                        for part, t in ((yes, True), (no, False)):
                            if part:
                                n = st.copy()
                                n.facts[x.id] = ("dom", part)
                                out.append((n, t))
                        return out
                    out = []
                    for s, vs in self.concretise(st, (x, y)):
                        out += self.eq(s, vs[0], vs[1])
                    return out
                if isinstance(y, Op) and y.id == x.id:
                    return [(st, True)]
                if x.hint in ("int", "any") and isinstance(y, (int, Lin)) or isinstance(y, Op) and y.hint == "int":
                    return self.cmp_num(st, "==", x, y)
                if x.hint == "match" and y is None:
                    return [(st, False)]
                self.stats["splits"] += 1
                return [(st.copy(), True), (st.copy(), False)]
        if isinstance(a, S) and isinstance(b, S):
            return self.eq_elems(st, a.e, b.e)
        if isinstance(a, (bool, int, Lin)) and isinstance(b, (bool, int, Lin)):
            return self.cmp_num(st, "==", a, b)
        sa, sb = self.as_seq(st, a), self.as_seq(st, b)
        if sa is not None and sb is not None and sa[0] == sb[0]:
            if len(sa[1]) != len(sb[1]):
                return [(st, False)]
            out, cur = [], [st]
            for x, y in zip(sa[1], sb[1]):
                nxt = []
                for s in cur:
                    for s2, t in self.eq(s, x, y):
                        (nxt.append(s2) if t else out.append((s2, False)))
                cur = nxt
            return out + [(s, True) for s in cur]
        if isinstance(a, Ref) and a == b:
            return [(st, True)]
        if isinstance(a, Fn) or isinstance(b, Fn):
            return [(st, a == b)]
        if isinstance(a, (Ref, K)) and isinstance(b, (Ref, K)):
            return self.opaque_eq(st, a, b)
        return [(st, False)]

    def as_seq(self, st, v):
        """(kind, items) when the sequence has known items, else None."""
        if isinstance(v, Tup):
            return ("tuple", v.items)
        if isinstance(v, K) and isinstance(v.v, list):
            return ("list", tuple(lift(x) for x in v.v))
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o[0] == "list" and o[1] is None and (len(o) < 4 or o[3] is None):
                return ("list", o[2])
        return None

    def bounds(self, st, x):
        k, d = lin_parts(x)
        lo = hi = k
        for v, c in d.items():
            if v[0] == "op":
                f = st.facts.get(("rng", v[1]))
                l, h = f if f else (None, None)
            elif v[0] == "ind":
                l, h = 0, 1
            else:
                l, h = 0, None
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def to_lin(self, st, v):
        v = self.res(st, v)
        if isinstance(v, Op):
            return Lin(0, [(("op", v.id), 1)])
        return v

    def cmp_num(self, st, op, a, b, fuel=12):
        a, b = self.to_lin(st, a), self.to_lin(st, b)
        d = st.nlin(lin_add(a, b, -1))
        if not isinstance(d, Lin):
            return [(st, {"==": d == 0, "<": d < 0, "<=": d <= 0}[op])]
        lo, hi = self.bounds(st, d)
        if op == "==":
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return [(st, False)]
        elif op == "<":
            if hi is not None and hi < 0:
                return [(st, True)]
            if lo is not None and lo >= 0:
                return [(st, False)]
        else:
            if hi is not None and hi <= 0:
                return [(st, True)]
            if lo is not None and lo > 0:
                return [(st, False)]
        if not any(v[0] == "op" for v, _ in d.t) and fuel > 0:
            self.tick()
            for v, _ in d.t:
                if v[0] == "ind":
                    out = []
                    cl = st.cs[v[1]]
                    for part in (cl & {v[2]}, cl - {v[2]}):
                        n = st.set_class(v[1], part) if part else None
                        if n:
                            out += self.cmp_num(n, op, d, 0, fuel)
                    self.stats["splits"] += 1
                    return out
            # a length or count decides: look one character further into the shortest unknown
            v = min((v for v, _ in d.t), key=lambda v: v[1])
            x, y = st.expand(v[1])
            self.stats["splits"] += 1
            return self.cmp_num(x, op, d, 0, fuel - 1) + self.cmp_num(y, op, d, 0, fuel - 1)
        # opaque: remember the interval of this very difference (its constant apart)
        sgn = 1 if d.t[0][1] > 0 else -1
        ids = tuple(v[1] for v, _ in d.t)
        key = ("lin", tuple((v[0],) + tuple(v[2:]) + (c * sgn,) for v, c in d.t), ids)
        single = len(d.t) == 1 and d.t[0][0][0] == "op" and abs(d.t[0][1]) == 1
        if single:
            key = ("rng", d.t[0][0][1])
        lo, hi = st.facts.get(key, (None, None))
        nkey = ("cmp", "!=") + key[1:-1] + (ids,)
        ne = st.facts.get(nkey, ())
        # sgn * x + k  op  0, where x is the canonical difference
        out = []
        if op == "==":
            val = -d.k * sgn
            parts = [(True, val, val)]
            if not ((lo is not None and val < lo) or (hi is not None and val > hi)) and val not in ne:
                rest = (False, val + 1 if lo == val else lo, val - 1 if hi == val else hi)
                parts.append(rest)
            else:
                return [(st, False)]
        else:
            strict = 1 if op == "<" else 0
            if sgn == 1:
                b = -d.k - strict                      # holds iff x <= b
                parts = [(True, lo, b if hi is None else min(hi, b)), (False, b + 1 if lo is None else max(lo, b + 1), hi)]
            else:
                b = d.k + strict                       # holds iff x >= b
                parts = [(True, b if lo is None else max(lo, b), hi), (False, lo, b - 1 if hi is None else min(hi, b - 1))]
        parts = [p for p in parts if p[1] is None or p[2] is None or p[1] <= p[2]]
        if len(parts) == 1:
            return [(st, parts[0][0])]
        self.stats["splits"] += 1
        for t, l, h in parts:
            n = st.copy()
            n.facts[key] = (l, h)
            if op == "==" and not t and l == lo and h == hi:
                n.facts[nkey] = tuple(sorted(set(ne) | {-d.k * sgn}))
            if single and l is not None and l == h:
                n.facts[d.t[0][0][1]] = ("dom", (l,))
            out.append((n, t))
        return out

    def pystr(self, st, v):
        e = st.norm(v.e)
        return "".join(x[1] for x in e) if all(x[0] == "c" for x in e) else None

    # -- membership
    def contains(self, st, x, c):
        x, c = self.res(st, x), self.res(st, c)
        if self.is_choice(st, x) or self.is_choice(st, c):
            if self.is_choice(st, x) and not self.is_choice(st, c):
                lits = self.const_items(st, c)
                if lits is not None:
                    f = st.facts[x.id][1]
                    out = []
                    for part, t in ((tuple(k for k in f if any(type(k) is type(l) and k == l for l in lits)), True),
                                    (tuple(k for k in f if not any(type(k) is type(l) and k == l for l in lits)), False)):
                        if part:
                            n = st.copy()
                            n.facts[x.id] = ("dom", part)
                            out.append((n, t))
                    return out
            out = []
            for s, (x2, c2) in self.concretise(st, (x, c)):
                out += self.contains(s, x2, c2)
            return out
        if isinstance(c, S):
            if not isinstance(x, S):
                if isinstance(x, Op):
                    return [(st.copy(), True), (st.copy(), False)]
                raise Unsupported("'in <string>' with %r" % (x,))
            return self.substring(st, x, c)
        if isinstance(c, Op):
            return [(st.copy(), True), (st.copy(), False)]
        lits = self.const_items(st, c)
        if lits is not None and isinstance(x, S):
            return self.in_words(st, x.e, [w for w in lits if isinstance(w, str)])
        if lits is not None and (x is None or isinstance(x, (bool, int))):
            return [(st, x in [w for w in lits if not isinstance(w, str)])]
        if isinstance(c, K):
            items = [lift(y) for y in c.v]
        elif isinstance(c, Tup):
            items = c.items
        elif isinstance(c, Ref):
            o = st.heap[c.id]
            if o[0] == "list":
                if o[1] is not None or (len(o) > 3 and o[3] is not None):
                    return [(st.copy(), True), (st.copy(), False)]
                items = o[2]
            elif o[0] == "dict":
                items = [k for k, _ in o[1]]
            elif o[0] == "set":
                items = o[1]
            else:
                raise Unsupported("'in' over %s" % o[0])
        else:
            raise Unsupported("'in' over %r" % (c,))
        out, cur = [], [st]
        for y in items:
            nxt = []
            for s in cur:
                for s2, t in self.eq(s, x, y):
                    (out.append((s2, True)) if t else nxt.append(s2))
            cur = nxt
        return out + [(s, False) for s in cur]

    def const_items(self, st, c):
        """Python constants of a container, or None."""
        if isinstance(c, K):
            items = list(c.v)
            return items if all(isinstance(i, (str, int, bool)) or i is None for i in items) else None
        if isinstance(c, Tup):
            items = c.items
        elif isinstance(c, Ref):
            o = st.heap[c.id]
            if o[0] == "list" and o[1] is None and (len(o) < 4 or o[3] is None):
                items = o[2]
            elif o[0] == "set":
                items = o[1]
            elif o[0] == "dict":
                items = [k for k, _ in o[1]]
            else:
                return None
        else:
            return None
        out = []
        for i in items:
            i = self.res(st, i)
            if isinstance(i, S):
                p = self.pystr(st, i)
                if p is None:
                    return None
                out.append(p)
            elif i is None or isinstance(i, (bool, int)):
                out.append(i)
            else:
                return None
        return out

    def in_words(self, st, elems, words):
        """elems in {words}."""
        mx = max((len(w) for w in words), default=0)
        out = []
        for s, e in self.ensure_left(st, elems, mx + 1):
            if len(e) > mx or any(x[0] == "g" for x in e):
                if sum(x[0] != "g" for x in e) > mx:
                    out.append((s, False))
                    continue
            ids = []
            for x in e:
                if x[0] == "v" and x[1] not in ids:
                    ids.append(x[1])
            yes = set()
            cls = [s.classof(x) for x in e]
            for w in words:
                if len(w) != len(e) or not all(ch in c for ch, c in zip(w, cls)):
                    continue
                row, ok = {}, True
                for x, ch in zip(e, w):
                    if x[0] == "v" and row.setdefault(x[1], ch) != ch:
                        ok = False
                        break
                if ok:
                    yes.add(tuple(row[i] for i in ids))
            if not ids:
                out.append((s, bool(yes)))
                continue
            if not yes:
                out.append((s, False))
                continue
            self.stats["splits"] += 1
            t = s.add_rel(ids, yes)
            if t:
                out.append((t, True))
            n = 1
            for i in ids:
                n *= len(s.cs[i])
            if n <= 40000:
                no = set(s.candidates(ids)) - yes
                if no:
                    f = s.add_rel(ids, no)
                    if f:
                        out.append((f, False))
            elif len(yes) <= 6:
                out += [(f, False) for f in self.none_of(s, ids, yes)]
            else:
                out.append((s.copy(), False))
        return out

    def none_of(self, st, ids, rows):
        """The states in which the letters ids spell none of the rows: they leave the prefix tree at some letter."""
        if not ids:
            return [] if rows else [st]
        heads = {}
        for r in rows:
            heads.setdefault(r[0], []).append(r[1:])
        out = []
        rest = set(st.cs[ids[0]]) - set(heads)
        if rest:
            t = st.add_rel(ids[:1], {(c,) for c in rest})
            if t:
                out.append(t)
        for c, tails in heads.items():
            t = st.add_rel(ids[:1], {(c,)})
            if t:
                out += self.none_of(t, ids[1:], tails)
        return out

    def substring(self, st, x, c):
        cs_ = self.pystr(st, c)
        xs = self.pystr(st, x)
        if cs_ is not None:
            words = {cs_[i:j] for i in range(len(cs_)) for j in range(i + 1, len(cs_) + 1)} | {""}
            return self.in_words(st, x.e, words)
        if xs is not None and len(xs) == 0:
            return [(st, True)]
        if xs is not None and len(xs) == 1:
            ch = xs
            out, cur = [], [st]
            for el in st.norm(c.e):
                nxt = []
                for s in cur:
                    for el2 in s.norm((el,)):
                        cl = s.classof(el2)
                        if ch not in cl:
                            continue
                        if el2[0] == "c" or (len(cl) == 1 and el2[0] == "v"):
                            out.append((s, True))
                            s = None
                            break
                        if el2[0] == "v":
                            for s2, t in self.eq_char(s, el2, ("c", ch)):
                                if t:
                                    out.append((s2, True))
                                else:
                                    s = s2
                            if ch in s.classof(s.norm((el2,))[0]) if s is not None else False:
                                s = None
                                break
                        else:
                            a = s.copy()
                            p, q = a.new_gap(cl - {ch}), a.new_gap(cl)
                            a.sub[el2[1]] = (p, ("c", ch), q)
                            out.append((a, True))
                            b = s.copy()
                            if cl - {ch}:
                                r = b.new_gap(cl - {ch})
                                b.sub[el2[1]] = (r,)
                            else:
                                b.sub[el2[1]] = ()
                            s = b
                    if s is not None:
                        nxt.append(s)
                cur = nxt
            return out + [(s, False) for s in cur]
        if xs is not None:
            e = st.norm(c.e)
            ne = []
            if not any(y[0] == "g" for y in e) and len(e) <= 8:
                # fixed length haystack
                out, cur = [], [st]
                for i in range(len(e) - len(xs) + 1):
                    nxt = []
                    for s in cur:
                        for s2, t in self.eq_elems(s, e[i:i + len(xs)], lit(xs).e):
                            (out.append((s2, True)) if t else nxt.append(s2))
                    cur = nxt
                return out + [(s, False) for s in cur]
            # impossible when some character of the needle can never occur
            allc = frozenset().union(*[st.classof(y) for y in e]) if e else frozenset()
            if any(ch not in allc for ch in xs):
                return [(st, False)]
        return [(st.copy(), True), (st.copy(), False)]

    # ------------------------------------------------------------------ strings: positions
    def slice_bound(self, st, e, b):
        """Index in e of the boundary at distance b (Lin or int) from the left, when it falls on an element boundary."""
        acc = 0
        for i in range(len(e) + 1):
            d = st.nlin(lin_add(acc, b, -1))
            if d == 0 and not isinstance(d, Lin):
                return i
            if i < len(e):
                acc = lin_add(acc, 1 if e[i][0] != "g" else Lin(0, [(("len", e[i][1]), 1)]))
        return None

    def cutting(self, st, v, k):
        """relax_level 3: a position two or more characters into unknown text yields unrelated text (an over-approximation)."""
        if getattr(self, "relax_level", 0) < 3:
            return False
        e = st.norm(v.e)
        return any(x[0] == "g" for x in e) and all(st.classof(x) <= self.hull for x in e)

    def slice_str(self, st, v, a, b, step=None):
        a, b = self.res(st, a), self.res(st, b)
        out = []
        if step not in (None, 1):
            e = st.norm(v.e)
            if any(x[0] == "g" for x in e) or not all(x is None or isinstance(x, int) for x in (a, b, step)):
                raise Unsupported("stepped slice of an unknown string")
            return [(st, S(e[a:b:step]))]
        if isinstance(a, Op) and not self.is_choice(st, a) or isinstance(b, Op) and not self.is_choice(st, b):
            cl = frozenset().union(*[st.classof(x) for x in st.norm(v.e)]) if st.norm(v.e) else frozenset()
            n = st.copy()
            return [(n, S((n.new_gap(cl),)))] if cl else [(n, EMPTY)]
        if self.is_choice(st, a) or self.is_choice(st, b):
            for s, (a2, b2) in self.concretise(st, (a, b)):
                out += self.slice_str(s, v, a2, b2)
            return out
        isint = lambda x: x is None or (isinstance(x, int))
        if isint(a) and isint(b):
            la = max([x for x in (a, b) if x is not None and x >= 0], default=0)
            ra = max([-x for x in (a, b) if x is not None and x < 0], default=0)
            if (la >= 2 or ra >= 2) and self.cutting(st, v, max(la, ra)):
                n = st.copy()
                return [(n, S((n.new_gap(self.hull),)))]
            for s, _ in self.ensure_left(st, v.e, la):
                for s2, e in self.ensure_right(s, v.e, ra):
                    if not any(x[0] == "g" for x in e):
                        out.append((s2, S(e[a:b])))
                        continue
                    # a gap remains in the middle: at least la characters on the left, ra on the right
                    if a is not None and a < 0 and b is not None and b >= 0:
                        raise Unsupported("slice [-n:m] of an unknown string")
                    if a is not None and b is not None and (a < 0) == (b < 0) and a >= b:
                        out.append((s2, EMPTY))
                        continue
                    i = 0 if a is None else (a if a >= 0 else len(e) + a)
                    j = len(e) if b is None else (b if b >= 0 else len(e) + b)
                    out.append((s2, S(e[i:j])))
            return out
        # symbolic bounds
        work = [st]
        for bnd in (a, b):
            if isinstance(bnd, Lin):
                # sign: negative bounds only when certainly negative
                nw = []
                for s in work:
                    for s2, neg in self.cmp_num(s, "<", bnd, 0):
                        if neg:
                            raise Unsupported("symbolic negative slice bound")
                        nw.append(s2)
                work = nw
        for s in work:
            e = s.norm(v.e)
            a2, b2 = self.res(s, a), self.res(s, b)
            if isint(a2) and isint(b2):
                out += self.slice_str(s, v, a2, b2)
                continue
            i = 0 if a2 is None else self.slice_bound(s, e, a2)
            j = len(e) if b2 is None else self.slice_bound(s, e, b2)
            if (i is None or j is None) and getattr(self, "_sl", 0) < 8:
                # refine an integer offset: expose characters so that boundaries line up
                self._sl = getattr(self, "_sl", 0) + 1
                try:
                    done = False
                    for bnd, got in ((a2, i), (b2, j)):
                        if got is not None:
                            continue
                        if isinstance(bnd, int):
                            if bnd >= 0:
                                for s2, _ in self.ensure_left(s, v.e, bnd):
                                    out += self.slice_str(s2, v, a2, b2)
                            else:
                                for s2, e2 in self.ensure_right(s, v.e, -bnd):
                                    ln = s2.length(e2)
                                    nb = lin_add(ln, bnd)
                                    out += self.slice_str(s2, v, nb if bnd is a2 and got is None and bnd == a2 else a2, nb if bnd == b2 else b2)
                            done = True
                            break
                        g = self.near_gap(s, e, bnd)
                        if g is not None:
                            x, y = s.expand(g[0], left=g[1])
                            for q in (x, y):
                                out += self.slice_str(q, v, a2, b2)
                            done = True
                            break
                        # beyond the end?
                        over = self.cmp_num(s, "<=", s.length(e), bnd)
                        if all(t for _, t in over):
                            for s2, _ in over:
                                out += self.slice_str(s2, v, None if bnd is b2 else a2, None if bnd is b2 else b2) if bnd is b2 else [(s2, EMPTY)]
                            done = True
                            break
                    if done:
                        continue
                finally:
                    self._sl -= 1
            if i is None or j is None:
                n = s.copy()
                cl = frozenset().union(*[s.classof(x) for x in e]) if e else ALL
                out.append((n, S((n.new_gap(cl),))))
                continue
            out.append((s, S(e[i:j]) if i <= j else EMPTY))
        return out

    def near_gap(self, st, e, bnd):
        """A gap to open so that the boundary may line up: the one whose edge is a constant away from bnd."""
        acc = 0
        for i in range(len(e) + 1):
            d = st.nlin(lin_add(bnd, acc, -1))
            if not isinstance(d, Lin):
                if d > 0 and i < len(e) and e[i][0] == "g":
                    return (e[i][1], True)
                if d < 0 and i > 0 and e[i - 1][0] == "g":
                    return (e[i - 1][1], False)
            if i < len(e):
                acc = lin_add(acc, 1 if e[i][0] != "g" else Lin(0, [(("len", e[i][1]), 1)]))
        return None

    def index_str(self, st, v, i, node, ctx):
        i = self.res(st, i)
        if self.is_choice(st, i):
            return [r for s, (c,) in self.concretise(st, (i,)) for r in self.index_str(s, v, c, node, ctx)]
        if isinstance(i, int) and (i >= 1 or i < -1) and self.cutting(st, v, i + 1 if i >= 0 else -i):
            n = st.copy()
            return [(n, S((n.new_char(self.hull),))), (st.copy(), self.exc("IndexError", node, ctx))]
        if isinstance(i, int):
            out = []
            if i >= 0:
                for s, e in self.ensure_left(st, v.e, i + 1):
                    out.append((s, S((e[i],))) if len(e) > i else (s, self.exc("IndexError", node, ctx)))
            else:
                for s, e in self.ensure_right(st, v.e, -i):
                    out.append((s, S((e[i],))) if len(e) >= -i else (s, self.exc("IndexError", node, ctx)))
            return out
        if isinstance(i, Lin):
            e = st.norm(v.e)
            p = self.slice_bound(st, e, i)
            if p is not None:
                out = []
                for s, e2 in self.ensure_left(st, e[p:], 1):
                    out.append((s, S((e2[0],))) if e2 else (s, self.exc("IndexError", node, ctx)))
                return out
            g = self.near_gap(st, e, i)
            if g is not None and getattr(self, "_ix", 0) < 8:
                self._ix = getattr(self, "_ix", 0) + 1
                try:
                    x, y = st.expand(g[0], left=g[1])
                    return self.index_str(x, v, i, node, ctx) + self.index_str(y, v, i, node, ctx)
                finally:
                    self._ix -= 1
        # opaque position: some character of the string
        e = st.norm(v.e)
        cl = frozenset().union(*[st.classof(x) for x in e]) if e else frozenset()
        out = []
        if cl:
            n = st.copy()
            out.append((n, S((n.new_char(cl),))))
        if not getattr(self, "assume_opaque_index_ok", False):
            out.append((st.copy(), self.exc("IndexError", node, ctx)))
        return out

    def exc(self, cls, node, ctx, args=()):
        return Raise(cls, args, (ctx.mod.rel, getattr(node, "lineno", 0), ctx.func.qual if ctx.func else "<module>"))

    # ------------------------------------------------------------------ regular expressions
    def nfa(self, pat):
        if pat in self.nfa_cache:
            return self.nfa_cache[pat]
        tree = sre_parse.parse(pat)
        if tree.state.flags & ~re.UNICODE.value:
            raise Unsupported("regex flags")
        trans, eps = [], []   # state -> [(set, target)], [(cond, target)]

        def new():
            trans.append([]); eps.append([])
            return len(trans) - 1

        def charset(items):
            neg, s = False, set()
            for op, a in items:
                if op == sre_c.NEGATE:
                    neg = True
                elif op == sre_c.LITERAL:
                    s.add(chr(a) if chr(a) in ALL else OTHER)
                elif op == sre_c.RANGE:
                    s |= {chr(c) if chr(c) in ALL else OTHER for c in range(a[0], min(a[1], 0x2fff) + 1)}
                elif op == sre_c.CATEGORY:
                    if a == sre_c.CATEGORY_WORD:
                        s |= {c for c in ALPHA if c.isalnum() or c == "_"}
                    elif a == sre_c.CATEGORY_SPACE:
                        s |= {c for c in ALPHA if c.isspace()}
                    elif a == sre_c.CATEGORY_DIGIT:
                        s |= {c for c in ALPHA if c.isdigit()}
                    else:
                        raise Unsupported("regex category")
                else:
                    raise Unsupported("regex set item %s" % op)
            return frozenset(ALL - s) if neg else frozenset(s)

        def build(seq, start):
            cur = start
            for op, a in seq:
                if op == sre_c.LITERAL or op == sre_c.NOT_LITERAL or op == sre_c.IN or op == sre_c.ANY:
                    if op == sre_c.LITERAL:
                        cs_ = charset([(op, a)])
                    elif op == sre_c.NOT_LITERAL:
                        cs_ = ALL - charset([(sre_c.LITERAL, a)])
                    elif op == sre_c.IN:
                        cs_ = charset(a)
                    else:
                        cs_ = ALL - {"\n"}
                    n = new()
                    trans[cur].append((frozenset(cs_), n))
                    cur = n
                elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT, sre_c.POSSESSIVE_REPEAT):
                    lo, hi, sub = a
                    for _ in range(lo):
                        cur = build(sub, cur)
                    if hi == sre_c.MAXREPEAT:
                        n = new()
                        eps[cur].append((None, n))
                        e = build(sub, n)
                        eps[e].append((None, n))
                        m = new()
                        eps[n].append((None, m))
                        cur = m
                    else:
                        end = new()
                        for _ in range(hi - lo):
                            eps[cur].append((None, end))
                            cur = build(sub, cur)
                        eps[cur].append((None, end))
                        cur = end
                elif op == sre_c.SUBPATTERN:
                    cur = build(a[-1], cur)
                elif op == sre_c.BRANCH:
                    end = new()
                    for alt in a[1]:
                        n = new()
                        eps[cur].append((None, n))
                        eps[build(alt, n)].append((None, end))
                    cur = end
                elif op == sre_c.AT:
                    n = new()
                    c = {sre_c.AT_BEGINNING: "beg", sre_c.AT_BEGINNING_STRING: "beg", sre_c.AT_END: "end", sre_c.AT_END_STRING: "end"}.get(a)
                    if c is None:
                        raise Unsupported("regex anchor %s" % a)
                    eps[cur].append((c, n))
                    cur = n
                else:
                    raise Unsupported("regex construct %s" % op)
            return cur

        s0 = new()
        fin = build(tree, s0)
        self.nfa_cache[pat] = (trans, eps, s0, fin)
        return self.nfa_cache[pat]

    def re_bool(self, st, pat, elems, mode):
        trans, eps, s0, fin = self.nfa(pat)

        def close(states, beg, end):
            states = set(states)
            work = list(states)
            while work:
                q = work.pop()
                for c, t in eps[q]:
                    if t not in states and (c is None or c == "beg" and beg or c == "end" and end):
                        states.add(t)
                        work.append(t)
            return frozenset(states)

        def step(Q, ch):
            Q2 = {t for q in Q for cs_, t in trans[q] if ch in cs_}
            if mode == "search":
                Q2.add(s0)
            return close(Q2, False, False)

        def hit(Q):
            return mode in ("match", "search") and fin in Q

        out = []
        work = [(st, close({s0}, True, False), st.norm(elems), True)]
        while work:
            s, Q, e, beg = work.pop()
            self.tick()
            if hit(Q):
                out.append((s, True))
                continue
            if not Q:
                out.append((s, False))
                continue
            e = s.norm(e)
            if not e:
                out.append((s, fin in close(Q, beg, True)))
                continue
            x = e[0]
            if x[0] == "g":
                cl = s.gs[x[1]]
                sub = {ch: step(Q, ch) for ch in cl}
                loop = frozenset(ch for ch in cl if sub[ch] == Q) if not beg else frozenset()
                if loop == cl:
                    work.append((s, Q, e[1:], beg))
                    continue
                if loop:
                    a = s.copy()
                    r = a.new_gap(loop)
                    a.sub[x[1]] = (r,)
                    work.append((a, Q, e[1:], beg))
                    groups = {}
                    for ch in cl - loop:
                        groups.setdefault(sub[ch], set()).add(ch)
                    for Q2, chs in groups.items():
                        b = s.copy()
                        p, c, q = b.new_gap(loop), b.new_char(chs), b.new_gap(cl)
                        b.sub[x[1]] = (p, c, q)
                        work.append((b, Q2, (q,) + e[1:], False))
                    self.stats["splits"] += 1 + len(groups)
                else:
                    a, b = s.expand(x[1])
                    self.stats["splits"] += 1
                    work.append((a, Q, e[1:], beg))
                    work.append((b, Q, e, beg))
                continue
            cl = s.classof(x)
            groups = {}
            for ch in cl:
                groups.setdefault(step(Q, ch), set()).add(ch)
            if len(groups) == 1:
                work.append((s, next(iter(groups)), e[1:], False))
                continue
            self.stats["splits"] += len(groups)
            for Q2, chs in groups.items():
                n = s.set_class(x[1], frozenset(chs))
                if n:
                    work.append((n, Q2, e[1:], False))
        return out

    # ------------------------------------------------------------------ expressions
    def ev_many(self, nodes, st, ctx, done=()):
        """Evaluate nodes left to right -> list of (st, tuple | Raise)."""
        cur = [(st, tuple(done))]
        out = []
        for n in nodes:
            nxt = []
            for s, vals in cur:
                mark = len(s.tmp)
                s = s.copy()
                s.tmp = s.tmp + vals
                for s2, v in self.ev(n, s, ctx):
                    held = s2.tmp[mark:mark + len(vals)]     # re-read: a fold may have rewritten them
                    if s2.tmp[mark:]:
                        s2 = s2.copy()
                        s2.tmp = s2.tmp[:mark]
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, held + (v,)))
            cur = nxt
        return out + cur

    def ev(self, n, st, ctx):
        self.tick()
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            self.unsup("expression %s" % type(n).__name__, n, ctx)
        try:
            return m(n, st, ctx)
        except Unsupported as e:
            if e.node is None:
                e.node, e.mod = n, ctx.mod
            raise

    def ev_Constant(self, n, st, ctx):
        if n.value is Ellipsis or isinstance(n.value, (bytes, complex)):
            self.unsup("constant", n, ctx)
        if isinstance(n.value, float):
            return [(st, self.new_op(st, "int"))]
        return [(st, lift(n.value))]

    def lookup(self, name, st, ctx, node):
        c = ctx
        while c is not None:
            if name in c.locals:
                v = st.frames[c.fid].get(name, UNBOUND)
                if v is UNBOUND:
                    return self.exc("UnboundLocalError", node, ctx, (name,))
                return v
            c = c.parent
        env = self.envs.env(ctx.mod)
        if name in env:
            if name in self.stand_ins and env[name].kind == "const":
                return self.stand_ins[name]
            return self.ent(env[name], name, st)
        if ctx.spec:
            for f in self.pkg.all_funcs():
                if f.qual == name:
                    return self.ent(self.envs.env(f.mod)[name], name, st)
            if "ix_" + name in dir(self):
                return Fn("intrinsic", name)
            for m in self.pkg.modules.values():
                e = self.envs.env(m)
                if name in e and e[name].kind in ("const", "class"):
                    return self.ent(e[name], name, st)
        if name in self.envs.exc:
            return Fn("class", name)
        if hasattr(builtins, name) or name == "__name__":
            return Fn("builtin", name)
        return self.exc("NameError", node, ctx, (name,))

    def ent(self, e, name, st):
        if e.kind == "const":
            return lift(e.val)
        if e.kind == "func":
            return Fn("def", e.val.name, (e.val, None))
        if e.kind == "class":
            return Fn("class", e.val.name)
        if e.kind == "unknown" and name in self.tuple_classes():
            return Fn("class", name)
        if e.kind == "module":
            return Fn("mod", e.val)
        if e.kind == "ext":
            return Fn("ext", e.val[0] + "." + e.val[1])
        if e.kind == "unknown":
            return self.new_op(st, "any")
        raise Unsupported("module entity " + e.kind)

    def ev_Name(self, n, st, ctx):
        return [(st, self.lookup(n.id, st, ctx, n))]

    def ev_NamedExpr(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if not isinstance(v, Raise):
                s = s.copy()
                c = ctx
                while c is not None and n.target.id not in c.locals:
                    c = c.parent
                c = c or ctx
                self.setvar(s, c, n.target.id, v)
            out.append((s, v))
        return out

    def setvar(self, st, ctx, name, v):
        c = ctx
        while c is not None and name not in c.locals:
            c = c.parent
        if c is None:
            raise Unsupported("assignment to global %s" % name)
        fr = dict(st.frames[c.fid])
        fr[name] = v
        st.frames[c.fid] = fr

    def ev_Tuple(self, n, st, ctx):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return [(s, v if isinstance(v, Raise) else Tup(v)) for s, v in self.ev_starred(n.elts, st, ctx)]
        return [(s, v if isinstance(v, Raise) else Tup(v)) for s, v in self.ev_many(n.elts, st, ctx)]

    def ev_starred(self, elts, st, ctx):
        out = []
        for s, vals in self.ev_many([e.value if isinstance(e, ast.Starred) else e for e in elts], st, ctx):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            flat = []
            for e, v in zip(elts, vals):
                if isinstance(e, ast.Starred):
                    q = self.as_seq(s, v)
                    if q is None:
                        self.unsup("starred unknown sequence", e, ctx)
                    flat.extend(q[1])
                else:
                    flat.append(v)
            out.append((s, tuple(flat)))
        return out

    def ev_List(self, n, st, ctx):
        out = []
        for s, v in self.ev_starred(n.elts, st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                s = s.copy()
                out.append((s, s.alloc(("list", None, v))))
        return out

    def ev_Set(self, n, st, ctx):
        out = []
        for s, v in self.ev_starred(n.elts, st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                s = s.copy()
                out.append((s, s.alloc(("set", v))))
        return out

    def ev_Dict(self, n, st, ctx):
        if any(k is None for k in n.keys):
            self.unsup("dict unpacking", n, ctx)
        out = []
        nodes = [x for kv in zip(n.keys, n.values) for x in kv]
        for s, v in self.ev_many(nodes, st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                s = s.copy()
                out.append((s, s.alloc(("dict", tuple(zip(v[::2], v[1::2]))))))
        return out

    def ev_Starred(self, n, st, ctx):
        self.unsup("starred", n, ctx)

    def ev_Lambda(self, n, st, ctx):
        return [(st, Fn("lambda", "<lambda>", (n, ctx)))]

    def ev_JoinedStr(self, n, st, ctx):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        out = []
        for s, vals in self.ev_many(parts, st, ctx):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            s = s.copy()
            e = ()
            for v, p in zip(vals, n.values):
                v = self.res(s, v)
                if isinstance(v, S) and not (isinstance(p, ast.FormattedValue) and (p.format_spec or p.conversion not in (-1, 115))):
                    e += s.norm(v.e)
                elif isinstance(v, (bool, int)) or v is None:
                    e += lit(str(v)).e
                else:
                    e += (s.new_gap(ALL),)
            out.append((s, S(e)))
        return out

    def ev_FormattedValue(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def ev_IfExp(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.test, st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            for s2, t in self.truth(s, v):
                out += self.ev(n.body if t else n.orelse, s2, ctx)
        return self.dedupe_vals(out)

    def ev_BoolOp(self, n, st, ctx):
        is_and = isinstance(n.op, ast.And)
        out, cur = [], [st]
        for i, x in enumerate(n.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s, ctx):
                    if isinstance(v, Raise) or i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, t in self.truth(s2, v):
                        if t == is_and:
                            nxt.append(s3)
                        else:
                            out.append((s3, self.res(s3, v) if not isinstance(v, Op) or v.hint != "bool" else t))
            cur = nxt
        return self.dedupe_vals(out)

    def ev_UnaryOp(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.operand, st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
            elif isinstance(n.op, ast.Not):
                out += [(s2, not t) for s2, t in self.truth(s, v)]
            elif isinstance(n.op, ast.USub):
                for s2, (w,) in self.concretise(s, (v,)):
                    out.append((s2, lin_mul(self.to_lin(s2, w), -1)))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            else:
                self.unsup("unary operator", n, ctx)
        return out

    def ev_BinOp(self, n, st, ctx):
        out = []
        for s, v in self.ev_many([n.left, n.right], st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out += self.binop(n.op, s, v[0], v[1], n, ctx)
        return out

    def binop(self, op, st, a, b, node, ctx):
        if self.is_choice(st, a) or self.is_choice(st, b):
            out = []
            for s, (x, y) in self.concretise(st, (a, b)):
                out += self.binop(op, s, x, y, node, ctx)
            return out
        a, b = self.res(st, a), self.res(st, b)
        num = lambda v: isinstance(v, (bool, int, Lin)) or isinstance(v, Op) and v.hint in ("int", "float")
        if isinstance(op, ast.Add):
            if isinstance(a, S) and isinstance(b, S):
                return [(st, S(st.norm(a.e) + st.norm(b.e)))]
            if num(a) and num(b):
                return [(st, st.nlin(lin_add(self.to_lin(st, a), self.to_lin(st, b))))]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            la, lb = self.list_obj(st, a), self.list_obj(st, b)
            if la is not None and lb is not None and not isinstance(a, Tup) and not isinstance(b, Tup):
                s = st.copy()
                return [(s, s.alloc(self.list_concat(s, la, lb)))]
            if isinstance(a, Op) or isinstance(b, Op):
                if isinstance(a, S) or isinstance(b, S):
                    s = st.copy()
                    ga = s.norm(a.e) if isinstance(a, S) else (s.new_gap(ALL),)
                    gb = s.norm(b.e) if isinstance(b, S) else (s.new_gap(ALL),)
                    return [(s, S(ga + gb))]
                s = st.copy()
                return [(s, self.new_op(s, "any"))]
            return [(st, self.exc("TypeError", node, ctx))]
        if isinstance(op, ast.Sub) and num(a) and num(b):
            return [(st, st.nlin(lin_add(self.to_lin(st, a), self.to_lin(st, b), -1)))]
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if num(y):
                        return [(st, st.nlin(lin_mul(self.to_lin(st, y), int(x))))]
                    if isinstance(y, S):
                        return [(st, S(st.norm(y.e) * max(0, int(x))))]
                    lo = self.list_obj(st, y)
                    if lo is not None and lo[1] is None and len(lo) < 4:
                        s = st.copy()
                        return [(s, s.alloc(("list", None, lo[2] * max(0, int(x)))))]
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            try:
                f = {ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.BitAnd: lambda: a & b,
                     ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[type(op)]
                return [(st, f())]
            except ZeroDivisionError:
                return [(st, self.exc("ZeroDivisionError", node, ctx))]
            except KeyError:
                pass
        if isinstance(op, (ast.BitOr, ast.BitAnd)) and all(isinstance(v, bool) or isinstance(v, Op) and v.hint == "bool" for v in (a, b)):
            out = []
            for s, t in self.truth(st, a):
                for s2, u in self.truth(s, b):
                    out.append((s2, (t or u) if isinstance(op, ast.BitOr) else (t and u)))
            return out
        if isinstance(op, ast.BitOr) and isinstance(a, K) and isinstance(b, K):
            return [(st, K(a.v | b.v))]
        if isinstance(op, ast.Mod) and isinstance(a, S):
            s = st.copy()
            return [(s, S((s.new_gap(ALL),)))]
        if (isinstance(a, Op) or isinstance(b, Op) or isinstance(a, Lin) or isinstance(b, Lin)):
            s = st.copy()
            return [(s, self.new_op(s, "int" if num(a) and num(b) else "any"))]
        return [(st, self.exc("TypeError", node, ctx))]

    def ev_Compare(self, n, st, ctx):
        out = []
        if len(n.ops) == 1:
            # `hay.find(c) >= 0`: only the truth of the comparison is observed, so positions that agree on it need not be told apart
            c = n.comparators[0]
            k = c.value if isinstance(c, ast.Constant) else -c.operand.value if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.USub) and isinstance(c.operand, ast.Constant) else None
            if type(k) is int and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Attribute) and n.left.func.attr in ("find", "rfind", "count"):
                f = {ast.Eq: int.__eq__, ast.NotEq: int.__ne__, ast.Lt: int.__lt__, ast.LtE: int.__le__, ast.Gt: int.__gt__, ast.GtE: int.__ge__}.get(type(n.ops[0]))
                if f:
                    self.only_truth[n.left] = lambda i: f(i, k)
            for s, v in self.ev_many([n.left, n.comparators[0]], st, ctx):
                if isinstance(v, Raise):
                    out.append((s, v))
                else:
                    out += self.compare(n.ops[0], s, v[0], v[1], n, ctx)
            return self.dedupe_vals(out)
        cur = [(s, v) for s, v in self.ev(n.left, st, ctx)]
        out += [(s, v) for s, v in cur if isinstance(v, Raise)]
        cur = [(s, v) for s, v in cur if not isinstance(v, Raise)]
        for op, r in zip(n.ops, n.comparators):
            nxt = []
            for s, a in cur:
                for s2, vv in self.ev_many([r], s, ctx, done=(a,)):
                    if isinstance(vv, Raise):
                        out.append((s2, vv))
                        continue
                    b = vv[1]
                    for s3, t in self.compare(op, s2, a, b, n, ctx):
                        if isinstance(t, Raise) or t is False:
                            out.append((s3, t))
                        else:
                            nxt.append((s3, b))
            cur = nxt
        return self.dedupe_vals(out + [(s, True) for s, _ in cur])

    def compare(self, op, st, a, b, node, ctx):
        if isinstance(op, ast.Eq):
            return self.eq(st, a, b)
        if isinstance(op, ast.NotEq):
            return [(s, not t) for s, t in self.eq(st, a, b)]
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(st, a, b)
            return r if isinstance(op, ast.Is) else [(s, not t) for s, t in r]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b)
            return r if isinstance(op, ast.In) else [(s, not t) for s, t in r]
        if self.is_choice(st, a) or self.is_choice(st, b):
            out = []
            for s, (x, y) in self.concretise(st, (a, b)):
                out += self.compare(op, s, x, y, node, ctx)
            return out
        a, b = self.res(st, a), self.res(st, b)
        num = lambda v: isinstance(v, (bool, int, Lin)) or isinstance(v, Op) and v.hint in ("int", "any", "float")
        if num(a) and num(b):
            if isinstance(op, ast.Lt):
                return self.cmp_num(st, "<", a, b)
            if isinstance(op, ast.LtE):
                return self.cmp_num(st, "<=", a, b)
            if isinstance(op, ast.Gt):
                return self.cmp_num(st, "<", b, a)
            return self.cmp_num(st, "<=", b, a)
        if isinstance(a, S) and isinstance(b, S):
            pa, pb = self.pystr(st, a), self.pystr(st, b)
            if pa is not None and pb is not None:
                return [(st, {ast.Lt: pa < pb, ast.LtE: pa <= pb, ast.Gt: pa > pb, ast.GtE: pa >= pb}[type(op)])]
            return self.cmp_chars(st, op, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            # lexicographic
            out, cur = [], [st]
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                nxt = []
                for s in cur:
                    for s2, t in self.eq(s, x, y):
                        if t:
                            nxt.append(s2)
                        else:
                            strict = {ast.LtE: ast.Lt(), ast.GtE: ast.Gt()}.get(type(op), op)
                            out += self.compare(strict, s2, x, y, node, ctx)
                cur = nxt
            la, lb = len(a.items), len(b.items)
            r = {ast.Lt: la < lb, ast.LtE: la <= lb, ast.Gt: la > lb, ast.GtE: la >= lb}[type(op)]
            return out + [(s, r) for s in cur]
        if isinstance(a, Op) or isinstance(b, Op):
            return [(st.copy(), True), (st.copy(), False)]
        return [(st, self.exc("TypeError", node, ctx))]

    def cmp_chars(self, st, op, a, b):
        """Single characters compared by code point."""
        e, f = st.norm(a.e), st.norm(b.e)
        if len(e) == 1 and len(f) == 1 and e[0][0] != "g" and f[0][0] != "g":
            g = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
            ids = [x[1] for x in (e[0], f[0]) if x[0] == "v"]
            if len(ids) == 1 and not any(OTHER in st.classof(x) for x in (e[0], f[0])):
                var = ids[0]
                c = e[0][1] if e[0][0] == "c" else f[0][1]
                t = {x for x in st.cs[var] if (g(c, x) if e[0][0] == "c" else g(x, c))}
                out = []
                for part, r in ((t, True), (st.cs[var] - t, False)):
                    n = st.set_class(var, part) if part else None
                    if n:
                        out.append((n, r))
                return out
        return [(st.copy(), True), (st.copy(), False)]

    def is_(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if b is None or a is None:
            o = a if b is None else b
            if o is None:
                return [(st, True)]
            if self.is_choice(st, o):
                return self.eq(st, o, None)
            if isinstance(o, Op) and o.hint == "any":
                f = st.facts.get(("none", (o.id,)))
                if f is not None:
                    return [(st, f)]
                out = []
                for t in (True, False):
                    n = st.copy()
                    n.facts[("none", (o.id,))] = t
                    if t:
                        n.facts[o.id] = ("dom", (None,))
                    out.append((n, t))
                return out
            return [(st, False)]
        if isinstance(a, bool) or isinstance(b, bool):
            if self.is_choice(st, a) or self.is_choice(st, b):
                return self.eq(st, a, b)
            return [(st, a is b)]
        return self.eq(st, a, b)

    # -- subscripts, attributes
    def ev_Subscript(self, n, st, ctx):
        out = []
        if isinstance(n.slice, ast.Slice):
            parts = [n.value] + [x if x is not None else ast.Constant(None, lineno=n.lineno, col_offset=0)
                                 for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            for s, v in self.ev_many(parts, st, ctx):
                if isinstance(v, Raise):
                    out.append((s, v))
                else:
                    out += self.slice_val(s, v[0], v[1], v[2], v[3], n, ctx)
            return self.dedupe_vals(out)
        for s, v in self.ev_many([n.value, n.slice], st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out += self.index_val(s, v[0], v[1], n, ctx)
        return self.dedupe_vals(out)

    def slice_val(self, st, v, a, b, step, node, ctx):
        if self.is_choice(st, v):
            return [r for s, (c,) in self.concretise(st, (v,)) for r in self.slice_val(s, c, a, b, step, node, ctx)]
        if isinstance(v, S):
            return self.slice_str(st, v, a, b, step)
        if isinstance(v, Op):
            return [(st, self.new_op(st, v.hint))]
        if v is None or isinstance(v, (bool, int, Lin)):
            return [(st, self.exc("TypeError", node, ctx))]
        out = []
        for s, (x, y, z) in self.concretise(st, (a, b, step)):
            if all(i is None or isinstance(i, int) for i in (x, y, z)):
                q = self.as_seq(s, v)
                if q is not None:
                    if q[0] == "tuple":
                        out.append((s, Tup(q[1][x:y:z])))
                    else:
                        s = s.copy()
                        out.append((s, s.alloc(("list", None, q[1][x:y:z]))))
                    continue
                if isinstance(v, Ref) and s.heap[v.id][0] == "list" and z in (None, 1):
                    for s2 in self.force_list(s, v, (x if isinstance(x, int) and x >= 0 else 0)):
                        o = s2.heap[v.id]
                        if o[1] is None and (x is None or x >= 0) and (y is None):
                            s2 = s2.copy()
                            out.append((s2, s2.alloc(o[:2] + (o[2][x or 0:],) + o[3:])))
                        elif o[1] is None and (len(o) < 4 or o[3] is None):
                            s2 = s2.copy()
                            out.append((s2, s2.alloc(("list", None, o[2][x:y]))))
                        else:
                            s2 = s2.copy()
                            out.append((s2, s2.alloc(("list", ("any",), ()))))
                    continue
            s = s.copy()
            out.append((s, s.alloc(("list", ("any",), ()))))
        return out

    def force_list(self, st, ref, k):
        """Expose the first k items of a list whose tail is a pending split."""
        out, work = [], [st]
        while work:
            s = work.pop()
            o = s.heap[ref.id]
            if len(o) < 4 or o[3] is None or len(o[2]) >= k:
                out.append(s)
                continue
            work += self.force_one(s, ref)
        return out

    def force_one(self, st, ref):
        """Split one more item off the pending tail."""
        o = st.heap[ref.id]
        _, elems, sep, rid = o[3]
        more = st.norm((("g", rid),))       # '#' characters count the items still to come
        out = []
        for s, parts in self.split_first(st, elems, sep):
            more = s.norm((("g", rid),))
            o = s.heap[ref.id]
            if parts[1] is None:
                if len([x for x in more if x[0] != "g"]) > 1:
                    continue
                s = s.copy()
                for x in more:
                    if x[0] == "g":
                        s.sub[x[1]] = ()
                s.heap[ref.id] = ("list", o[1], o[2] + (S(parts[0]),), None)
            else:
                s = s.copy()
                fixed = [x for x in more if x[0] != "g"]
                gaps = [x for x in more if x[0] == "g"]
                if len(fixed) <= 1:
                    if not gaps:
                        continue
                    r2 = s.new_gap("#")
                    s.sub[gaps[0][1]] = (("c", "#"), r2)
                else:
                    pass
                left = s.norm((("g", rid),))[1:]
                g = s.new_gap("#")
                s.sub[g[1]] = left
                s.heap[ref.id] = ("list", o[1], o[2] + (S(parts[0]),), ("split", tuple(parts[1]), sep, g[1]))
            out.append(s)
        return out

    def split_first(self, st, elems, sep):
        """Up to the first separator character. -> list of (st, (head, tail | None))"""
        out, work = [], [(st, (), st.norm(elems))]
        while work:
            s, head, e = work.pop()
            e = s.norm(e)
            head = s.norm(head)
            if not e:
                out.append((s, (head, None)))
                continue
            x = e[0]
            cl = s.classof(x)
            if sep not in cl:
                work.append((s, head + (x,), e[1:]))
                continue
            if x[0] == "c":
                out.append((s, (head, e[1:])))
            elif x[0] == "v":
                for s2, t in self.eq_char(s, x, ("c", sep)):
                    if t:
                        out.append((s2, (head, e[1:])))
                    else:
                        work.append((s2, head + (x,), e[1:]))
            else:
                self.stats["splits"] += 1
                a = s.copy()
                p, q = (a.new_gap(cl - {sep}) if cl - {sep} else None), a.new_gap(cl)
                a.sub[x[1]] = ((p,) if p else ()) + (("c", sep), q)
                out.append((a, (head + ((p,) if p else ()), (q,) + e[1:])))
                b = s.copy()
                r = b.new_gap(cl - {sep}) if cl - {sep} else None
                b.sub[x[1]] = (r,) if r else ()
                work.append((b, head + ((r,) if r else ()), e[1:]))
        return out

    def index_val(self, st, v, i, node, ctx):
        v = self.res(st, v)
        if self.is_choice(st, v):
            return [r for s, (c,) in self.concretise(st, (v,)) for r in self.index_val(s, c, i, node, ctx)]
        if isinstance(v, S):
            return self.index_str(st, v, i, node, ctx)
        if isinstance(v, K):
            return self.index_const(st, v, i, node, ctx)
        if isinstance(v, Op):
            return [(st, self.new_op(st, "any"))]
        if v is None or isinstance(v, (bool, int, Lin)):
            return [(st, self.exc("TypeError", node, ctx))]
        if isinstance(v, Ref) and st.heap[v.id][0] == "dict":
            out, cur = [], [st]
            for k, val in st.heap[v.id][1]:
                nxt = []
                for s in cur:
                    for s2, t in self.eq(s, k, i):
                        (out.append((s2, val)) if t else nxt.append(s2))
                cur = nxt
            return out + [(s, self.exc("KeyError", node, ctx)) for s in cur]
        out = []
        for s, (j,) in self.concretise(st, (i,)):
            if isinstance(v, Ref) and s.heap[v.id][0] == "list" and isinstance(j, int):
                lst = [s]
                if j >= 0:
                    lst = self.force_list(s, v, j + 1)
                elif len(s.heap[v.id]) > 3 and s.heap[v.id][3] is not None:
                    lst = None
                if lst is None:
                    out.append((s, self.new_op(s, "any")))
                    continue
                for s2 in lst:
                    o = s2.heap[v.id]
                    if o[1] is None:
                        items = o[2]
                        if -len(items) <= j < len(items):
                            out.append((s2, items[j]))
                        else:
                            out.append((s2, self.exc("IndexError", node, ctx)))
                    elif j < 0 and -j <= len(o[2]):
                        out.append((s2, o[2][j]))
                    elif o[1][0] == "cat" and j < 0 and -j == len(o[2]) + 1:
                        # last piece of a smashed prefix: prefix may be empty
                        a = s2.copy()
                        out.append((a, S((a.new_gap(self.cat_class(a, o[1][1])),))))
                        out.append((s2.copy(), self.exc("IndexError", node, ctx)))
                    else:
                        a = s2.copy()
                        out.append((a, S((a.new_gap(self.cat_class(a, o[1][1])),)) if o[1][0] == "cat" else
                                    S((a.new_gap(o[1][1]),)) if o[1][0] == "strs" else self.new_op(a, "any")))
                        if not getattr(self, "assume_opaque_index_ok", False):
                            out.append((s2.copy(), self.exc("IndexError", node, ctx)))
                continue
            if isinstance(v, Tup) and isinstance(j, int):
                out.append((s, v.items[j]) if -len(v.items) <= j < len(v.items) else (s, self.exc("IndexError", node, ctx)))
                continue
            if isinstance(v, Tup) or isinstance(v, Ref) and s.heap[v.id][0] == "list":
                q = self.as_seq(s, v)
                if q is not None and isinstance(j, (Lin, Op)):
                    # opaque index: any item
                    for k, it in enumerate(q[1]):
                        for s2, t in self.cmp_num(s, "==", j, k):
                            if t:
                                out.append((s2, it))
                    if not getattr(self, "assume_opaque_index_ok", False):
                        out.append((s.copy(), self.exc("IndexError", node, ctx)))
                    continue
                a = s.copy()
                o = a.heap[v.id]
                if all(isinstance(x, S) for x in o[2]) and (o[1] is None or o[1][0] in ("cat", "strs")):
                    out.append((a, S((a.new_gap(ALL),))))
                else:
                    out.append((a, self.new_op(a, "any")))
                if not getattr(self, "assume_opaque_index_ok", False):
                    out.append((s.copy(), self.exc("IndexError", node, ctx)))
                continue
            self.unsup("subscript of %r" % (v,), node, ctx)
        return out

    def cat_class(self, st, elems):
        e = st.norm(elems)
        return frozenset().union(*[st.classof(x) for x in e]) if e else ALL

    def index_const(self, st, v, i, node, ctx):
        i = self.res(st, i)
        if isinstance(v.v, dict):
            out = []
            if isinstance(i, S):
                p = self.pystr(st, i)
                if p is not None:
                    return [(st, lift(v.v[p]))] if p in v.v else [(st, self.exc("KeyError", node, ctx))]
                if all(isinstance(k, str) for k in v.v):
                    if getattr(self, "opaque_dicts", True) and len(v.v) > 64:
                        for s, t in self.in_words(st, i.e, list(v.v)) if not any(x[0] == "g" for x in st.norm(i.e)) else [(st.copy(), True), (st.copy(), False)]:
                            out.append((s, self.new_op(s, "any")) if t else (s, self.exc("KeyError", node, ctx)))
                        return out
                    cur = [st]
                    for k in v.v:
                        nxt = []
                        for s in cur:
                            for s2, t in self.eq_elems(s, i.e, lit(k).e):
                                (out.append((s2, lift(v.v[k]))) if t else nxt.append(s2))
                        cur = nxt
                    return out + [(s, self.exc("KeyError", node, ctx)) for s in cur]
            for s, (j,) in self.concretise(st, (i,)):
                if isinstance(j, (bool, int)) or j is None:
                    out.append((s, lift(v.v[j])) if j in v.v else (s, self.exc("KeyError", node, ctx)))
                elif isinstance(j, Lin) or isinstance(j, Op):
                    cur = [s]
                    for k in v.v:
                        nxt = []
                        for q in cur:
                            for s2, t in self.eq(q, j, lift(k)):
                                (out.append((s2, lift(v.v[k]))) if t else nxt.append(s2))
                        cur = nxt
                    out += [(q, self.exc("KeyError", node, ctx)) for q in cur]
                else:
                    self.unsup("dict lookup by %r" % (j,), node, ctx)
            return out
        out = []
        for s, (j,) in self.concretise(st, (i,)):
            if isinstance(j, int):
                seq = list(v.v)
                out.append((s, lift(seq[j])) if -len(seq) <= j < len(seq) else (s, self.exc("IndexError", node, ctx)))
            else:
                cur = [s]
                for k, x in enumerate(list(v.v)):
                    nxt = []
                    for q in cur:
                        for s2, t in self.cmp_num(q, "==", j, k):
                            (out.append((s2, lift(x))) if t else nxt.append(s2))
                    cur = nxt
                out += [(q, self.exc("IndexError", node, ctx)) for q in cur]
        return out

    def ev_Attribute(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
            elif isinstance(v, Fn) and v.kind == "mod":
                m = self.pkg.modules.get(v.name)
                if m is not None:
                    e = self.envs.env(m)
                    out.append((s, self.ent(e[n.attr], n.attr, s)) if n.attr in e else (s, self.exc("AttributeError", n, ctx)))
                else:
                    out.append((s, Fn("ext", v.name + "." + n.attr)))
            elif isinstance(v, ExcVal) and n.attr == "args":
                out.append((s, Tup(v.args)))
            else:
                r = self.res(s, v)
                i = self.field_index(n.attr, len(r.items)) if isinstance(r, Tup) and n.attr not in ("count", "index") else None
                out.append((s, r.items[i] if i is not None else Fn("method", n.attr, v)))
        return out

    def tuple_classes(self):
        """Named tuples the package defines: name -> [(field, default)]."""
        if getattr(self, "_tuple_classes", None) is None:
            out = self._tuple_classes = {}
            for m in self.pkg.modules.values():
                for c in m.tree.body:
                    if isinstance(c, ast.ClassDef) and any(ast.unparse(b).split(".")[-1] == "NamedTuple" for b in c.bases):
                        out[c.name] = [(x.target.id, x.value) for x in c.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                    elif isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], ast.Name) and isinstance(c.value, ast.Call) and \
                            ast.unparse(c.value.func).split(".")[-1] == "namedtuple" and len(c.value.args) == 2 and not c.value.keywords:
                        try:
                            names = ast.literal_eval(c.value.args[1])
                        except ValueError:
                            continue
                        out[c.targets[0].id] = [(x, None) for x in (names.replace(",", " ").split() if isinstance(names, str) else names)]
        return self._tuple_classes

    def field_index(self, attr, size):
        """Position of a named field in a tuple of that size; named tuples and plain tuples are not told apart."""
        found = {names.index(attr) for names in ([n for n, _ in fs] for fs in self.tuple_classes().values()) if attr in names and len(names) == size}
        return found.pop() if len(found) == 1 else None

    # -- comprehensions
    def ev_ListComp(self, n, st, ctx):
        return self.comp(n, st, ctx, "list")

    def ev_SetComp(self, n, st, ctx):
        return self.comp(n, st, ctx, "set")

    def ev_GeneratorExp(self, n, st, ctx):
        return self.comp(n, st, ctx, "list")

    def ev_DictComp(self, n, st, ctx):
        return self.comp(n, st, ctx, "dict")

    def comp(self, n, st, ctx, kind):
        s0 = st.copy()
        acc = s0.alloc(("list", None, ()) if kind == "list" else ("dict", ()) if kind == "dict" else ("set", ()))

        def emit(s, cctx):
            out = []
            if kind == "dict":
                for s2, v in self.ev_many([n.key, n.value], s, cctx):
                    if isinstance(v, Raise):
                        out.append((s2, ("exc", v)))
                    else:
                        out += [(s3, NEXT) for s3 in self.dict_set(s2, acc, v[0], v[1])]
                return out
            for s2, v in self.ev(n.elt, s, cctx):
                if isinstance(v, Raise):
                    out.append((s2, ("exc", v)))
                elif kind == "list":
                    s2 = s2.copy()
                    o = s2.heap[acc.id]
                    s2.heap[acc.id] = o[:2] + (o[2] + (v,),) + o[3:]
                    out.append((s2, NEXT))
                else:
                    out += [(s3, NEXT) for s3 in self.set_add(s2, acc, v)]
            return out

        s0.tmp = s0.tmp + (acc,)
        res = []
        for s, sig in self.run_comp(n.generators, 0, s0, ctx, None, emit):
            s = s.copy()
            s.tmp = st.tmp
            res.append((s, sig[1] if sig[0] == "exc" else acc))
        return self.dedupe_vals(res)

    def set_add(self, st, ref, v):
        out, cur = [], [st]
        for x in st.heap[ref.id][1]:
            nxt = []
            for s in cur:
                for s2, t in self.eq(s, x, v):
                    (out.append(s2) if t else nxt.append(s2))
            cur = nxt
        for s in cur:
            s = s.copy()
            s.heap[ref.id] = ("set", s.heap[ref.id][1] + (v,))
            out.append(s)
        return out

    def dict_set(self, st, ref, k, v):
        out, cur = [], [st]
        for idx, (x, _) in enumerate(st.heap[ref.id][1]):
            nxt = []
            for s in cur:
                for s2, t in self.eq(s, x, k):
                    if t:
                        s2 = s2.copy()
                        items = list(s2.heap[ref.id][1])
                        items[idx] = (items[idx][0], v)
                        s2.heap[ref.id] = ("dict", tuple(items))
                        out.append(s2)
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            s = s.copy()
            s.heap[ref.id] = ("dict", s.heap[ref.id][1] + ((k, v),))
            out.append(s)
        return out

    def run_comp(self, gens, k, st, ctx, cctx, emit):
        """Run comprehension generators; emit(st, cctx) at the innermost level. Returns (st, sig)."""
        g = gens[k]
        out = []
        if cctx is None:
            names = set()
            for gg in gens:
                for x in ast.walk(gg.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            st = st.copy()
            fid = st.fresh()
            st.frames[fid] = {}
            st.stack = st.stack + (fid,)
            cctx = Ctx(fid, ctx.mod, ctx.func, ctx, names)
            iter_ctx = ctx
            top = True
        else:
            iter_ctx, top = cctx, False
        res = []
        for s, it in self.ev(g.iter, st, iter_ctx):
            if isinstance(it, Raise):
                res.append((s, ("exc", it)))
                continue
            for s2, ir in self.make_iter(s, it, g.iter, ctx):
                if isinstance(ir, Raise):
                    res.append((s2, ("exc", ir)))
                    continue

                def body(q, v):
                    o = []
                    for q2, sig in self.assign(g.target, v, q, cctx):
                        if sig is not NEXT:
                            o.append((q2, sig))
                            continue
                        cur = [q2]
                        for c in g.ifs:
                            nxt = []
                            for q3 in cur:
                                for q4, t in self.ev(c, q3, cctx):
                                    if isinstance(t, Raise):
                                        o.append((q4, ("exc", t)))
                                        continue
                                    for q5, b in self.truth(q4, t):
                                        (nxt if b else o).append(q5 if b else (q5, NEXT))
                            cur = nxt
                        for q3 in cur:
                            o += emit(q3, cctx) if k + 1 == len(gens) else self.run_comp(gens, k + 1, q3, ctx, cctx, emit)
                    return o

                res += self.loop_iter(s2, ir, body)
        if top:
            for s, sig in res:
                s = s.copy()
                if cctx.fid in s.stack:
                    s.stack = s.stack[: s.stack.index(cctx.fid)]
                s.frames.pop(cctx.fid, None)
                out.append((s, sig))
            return out
        return res

    # ------------------------------------------------------------------ iteration
    def make_iter(self, st, v, node, ctx):
        v = self.res(st, v)
        if self.is_choice(st, v):
            return [r for s, (c,) in self.concretise(st, (v,)) for r in self.make_iter(s, c, node, ctx)]
        s = st.copy()
        if isinstance(v, S):
            return [(s, s.alloc(("iter", "str", s.norm(v.e))))]
        if isinstance(v, Tup):
            return [(s, s.alloc(("iter", "vals", v, 0)))]
        if isinstance(v, K):
            return [(s, s.alloc(("iter", "const", v, 0)))]
        if isinstance(v, Ref):
            o = s.heap[v.id]
            if o[0] == "list":
                if o[1] is not None and o[1][0] == "cat":
                    return [(s, s.alloc(("iter", "cat", s.norm(o[1][1]), Tup(o[2]))))]
                if o[1] is not None:
                    return [(s, s.alloc(("iter", "opaque", Tup(o[2]))))]
                return [(s, s.alloc(("iter", "list", v, 0)))]
            if o[0] in ("dict", "set"):
                items = [k for k, _ in o[1]] if o[0] == "dict" else list(o[1])
                return [(s, s.alloc(("iter", "vals", Tup(items), 0)))]
            if o[0] == "iter":
                return [(s, v)]
        if isinstance(v, Op):
            return [(s, s.alloc(("iter", "opaque", Tup(()))))]
        if v is None or isinstance(v, (int, Lin)):
            return [(st, self.exc("TypeError", node, ctx))]
        raise Unsupported("iteration over %r" % (v,))

    def step_iter(self, st, ref):
        """-> list of (st, value) or (st, None-marker STOP)"""
        o = st.heap[ref.id]
        k = o[1]
        if k == "str":
            out = []
            for s, e in self.ensure_left(st, o[2], 1):
                s = s.copy()
                if e:
                    s.heap[ref.id] = ("iter", "str", e[1:])
                    out.append((s, S((e[0],))))
                else:
                    s.heap[ref.id] = ("iter", "str", ())
                    out.append((s, Stop))
            return out
        if k == "vals":
            items = o[2].items
            s = st.copy()
            if o[3] < len(items):
                s.heap[ref.id] = ("iter", "vals", o[2], o[3] + 1)
                return [(s, items[o[3]])]
            return [(s, Stop)]
        if k == "const":
            seq = o[2].v
            seq = seq if isinstance(seq, (list, tuple)) else list(seq)
            s = st.copy()
            if o[3] < len(seq):
                s.heap[ref.id] = ("iter", "const", o[2], o[3] + 1)
                return [(s, lift(seq[o[3]]))]
            return [(s, Stop)]
        if k == "list":
            out = []
            for s in self.force_list(st, o[2], o[3] + 1):
                lo = s.heap[o[2].id]
                s = s.copy()
                if o[3] < len(lo[2]):
                    s.heap[ref.id] = ("iter", "list", o[2], o[3] + 1)
                    out.append((s, lo[2][o[3]]))
                else:
                    out.append((s, Stop))
            return out
        if k == "cat":
            e = st.norm(o[2])
            out = []
            # end of the smashed part
            a = st.copy()
            ok = True
            for x in e:
                if x[0] == "g":
                    a.sub[x[1]] = ()
                else:
                    ok = False
            if ok:
                a.heap[ref.id] = ("iter", "vals", o[3], 0)
                out += self.step_iter(a, ref)
            if e:
                if len(e) == 1 and e[0][0] == "g":
                    b = st.copy()
                    cl = b.gs[e[0][1]]
                    p, r = b.new_gap(cl), b.new_gap(cl)
                    b.sub[e[0][1]] = (p, r)
                    b.heap[ref.id] = ("iter", "cat", (r,), o[3])
                    out.append((b, S((p,))))
                else:
                    b = st.copy()
                    cl = self.cat_class(b, e)
                    b.heap[ref.id] = ("iter", "opaque", o[3])
                    out.append((b, S((b.new_gap(cl),))))
            return out
        if k == "opaque":
            a, b = st.copy(), st.copy()
            return [(a, self.new_op(a, "any")), (b, Stop)]
        if k == "enum":
            out = []
            for s, v in self.step_iter(st, o[2]):
                if v is Stop:
                    out.append((s, v))
                    continue
                s = s.copy()
                cur = s.heap[ref.id][3]
                nxt = cur if isinstance(cur, Op) else s.nlin(lin_add(cur, 1))
                if isinstance(cur, Op):
                    c2 = self.new_op(s, "int")
                    s.facts[("rng", c2.id)] = s.facts.get(("rng", cur.id), (None, None))
                    nxt = c2
                s.heap[ref.id] = ("iter", "enum", o[2], nxt)
                out.append((s, Tup((cur, v))))
            return out
        if k == "zip":
            cur, out = [(st, ())], []
            for r in o[2].items:
                nxt = []
                for s, vals in cur:
                    for s2, v in self.step_iter(s, r):
                        (out.append((s2, Stop)) if v is Stop else nxt.append((s2, vals + (v,))))
                cur = nxt
            return out + [(s, Tup(v)) for s, v in cur]
        if k == "range":
            cur, end, step = o[2], o[3], o[4]
            out = []
            tests = self.cmp_num(st, "<", cur, end) if step > 0 else self.cmp_num(st, "<", end, cur)
            for s, t in tests:
                if t:
                    s = s.copy()
                    if isinstance(cur, Op):
                        nx = self.new_op(s, "int")
                    else:
                        nx = s.nlin(lin_add(cur, step))
                    s.heap[ref.id] = ("iter", "range", nx, end, step)
                    out.append((s, cur))
                else:
                    out.append((s, Stop))
            return out
        if k == "filter":
            raise Unsupported("filter iterator")
        raise Unsupported("iterator " + k)

    def loop_iter(self, st, it, body):
        """for v in it: body(st, v) -> (st, sig); runs to a fixpoint. Returns (st, sig): NEXT (exhausted), ('brk',), ret, exc."""
        return self.loop_iter_all([(st, it)], lambda pairs: [r for s, v in pairs for r in body(s, v)])

    def loop_iter_all(self, heads, body):
        self.stats["loops"] += 1
        cur = []
        marks = {len(s.tmp) for s, _ in heads}
        if len(marks) != 1:
            raise Unsupported("iteration contexts differ")
        mark = marks.pop()
        for st, it in heads:
            st = st.copy()
            st.tmp = st.tmp + (it,)
            cur.append(st)
        out, seen, n = [], Seen(self), 0

        def unpush(s):
            s = s.copy()
            s.tmp = s.tmp[:mark]
            return s

        while cur:
            pairs = []
            for s in cur:
                if n >= self.widen_after:
                    s = self.widen(s, n)
                if not seen.new(s):
                    self.stats["merged"] += 1
                    continue
                self.tick()
                for s2, v in self.step_iter(s, s.tmp[mark]):
                    if v is Stop:
                        out.append((unpush(s2), NEXT))
                    else:
                        pairs.append((s2, v))
            nxt = []
            for s3, sig in body(pairs) if pairs else []:
                if sig is NEXT or sig is CONT:
                    nxt.append(s3)
                else:
                    out.append((unpush(s3), sig))
            cur = self.dedupe(nxt)
            n += 1
            if n > 400:
                raise Budget("loop does not stabilise")
        return self.dedupe_sig(out)

    def dedupe_sig(self, pairs):
        if len(pairs) < 2:
            return pairs
        seen, out = set(), []
        sk = [(sig[0], self.sketch(s, (sig[1],) if len(sig) > 1 else ())) for s, sig in pairs]
        count = Counter(sk)
        for (s, sig), a in zip(pairs, sk):
            if count[a] > 1:
                k = (sig[0], self.canon(s, (sig[1],) if len(sig) > 1 else ()))
                if k in seen:
                    self.stats["merged"] += 1
                    continue
                seen.add(k)
            out.append((s, sig))
        if len(out) >= self.compress_from:
            out = [(x, sig) for x, (_, sig), _ in self.compress([(x, (sig[0], sig), (sig[1],) if len(sig) > 1 else ()) for x, sig in out])]
        return out

    # ------------------------------------------------------------------ widening
    def widen(self, st, n=0):
        """Forget detail so that loops stabilise: smash long lists, forget counters, fold travelling unknowns."""
        self.stats["widened"] += 1
        st = st.copy()
        # 1. lists of strings: keep the last item, smash the others
        refs, seen = [], set()

        def find(v):
            if isinstance(v, Tup):
                for x in v.items:
                    find(x)
            elif isinstance(v, Ref) and v.id not in seen:
                seen.add(v.id)
                refs.append(v.id)
                o = st.heap[v.id]
                if o[0] == "list":
                    for x in o[2]:
                        find(x)
                elif o[0] == "dict":
                    for a, b in o[1]:
                        find(a); find(b)
                elif o[0] == "iter":
                    for x in o[2:]:
                        find(x)
            elif isinstance(v, Fn):
                if isinstance(v.data, tuple):
                    for x in v.data:
                        find(x)
                else:
                    find(v.data)

        for fid in st.stack:
            for x in st.frames[fid].values():
                find(x)
        for x in st.tmp:
            find(x)
        iterated = {}
        for i in refs:
            o = st.heap[i]
            if o[0] == "iter" and o[1] == "list":
                iterated[o[2].id] = i
        for i in refs:
            o = st.heap[i]
            if o[0] == "list" and i in iterated and len(o) > 3:
                # a split being iterated: forget the parts already visited
                it = st.heap[iterated[i]]
                if it[3] >= 2 and (o[1] is None or o[1][0] == 'strs'):
                    # (the position of the iterator counts from the end of the smashed part)
                    cl = frozenset().union(*[self.cat_class(st, x.e) for x in o[2][: it[3] - 1] if st.norm(x.e)] or [ALL])
                    if o[1] is not None:
                        cl |= o[1][1]
                    st.heap[i] = ("list", ("strs", cl), o[2][it[3] - 1:]) + o[3:]
                    st.heap[iterated[i]] = ("iter", "list", it[2], 1)
            elif o[0] == "list" and i not in iterated and len(o[2]) > 2 and getattr(self, "smash", True):
                keep = 1
                head, tail = o[2][:-keep], o[2][-keep:]
                if all(isinstance(x, S) for x in head) and (o[1] is None or o[1][0] == "cat"):
                    pre = (st.norm(o[1][1]) if o[1] else ()) + tuple(y for x in head for y in st.norm(x.e))
                    nid = st.new_gap("#")
                    st.heap[i] = ("list", ("cat", pre, nid[1]), tail) + o[3:]
                elif o[1] is None or o[1][0] == "any":
                    st.heap[i] = ("list", ("any",), tail) + o[3:]
                elif o[1] is not None:
                    st.heap[i] = ("list", ("any",), tail) + o[3:]
        # 2. counters
        for i in refs:
            o = st.heap[i]
            if o[0] == "iter" and o[1] == "enum" and isinstance(o[3], int) and o[3] >= 2:
                c = self.new_op(st, "int")
                st.facts[("rng", c.id)] = (2, None)
                st.heap[i] = o[:3] + (c,)
            elif o[0] == "iter" and o[1] == "enum" and isinstance(o[3], Op):
                c = self.new_op(st, "int")
                st.facts[("rng", c.id)] = (2, None)
                st.heap[i] = o[:3] + (c,)
            elif o[0] == "iter" and o[1] == "range" and (isinstance(o[2], int) and abs(o[2]) >= 3 or isinstance(o[2], Op)) and not (
                    isinstance(o[3], int) and abs(o[3]) <= 64 and isinstance(o[2], int)):
                st.heap[i] = o[:2] + (self.new_op(st, "int"),) + o[3:]
        for fid in st.stack:
            fr = st.frames[fid]
            ch = {}
            for k, v in fr.items():
                if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 3 and abs(v) < 10 ** 6 and n >= self.widen_after:
                    ch[k] = self.new_op(st, "int")
                elif isinstance(v, Lin) and any(x[0] == "op" for x, _ in v.t):
                    ch[k] = self.new_op(st, "int")
                elif isinstance(v, Lin) and n >= self.widen_after + 6:
                    ch[k] = self.new_op(st, "int")
                elif isinstance(v, Op) and v.hint == "int" and st.facts.get(v.id, (0,))[0] != "dom":
                    pass
            if ch:
                fr = dict(fr)
                fr.update(ch)
                st.frames[fid] = fr
        if getattr(self, "segment", False):
            self.segment_state(st, refs)
        else:
            for i in refs:
                o = st.heap[i]
                if o[0] == "list" and o[1] is not None and o[1][0] == "cat":
                    self.generalise_prefix(st, i)
        return self.fold(st)

    def relax(self, st, ctx, level):
        """Forget, between statements, what a conservation argument does not need."""
        hull = self.hull
        st = st.copy()
        for k in [k for k in st.facts if isinstance(k, tuple)]:
            if k[0] == "orig":
                st.facts[k[1]] = ("dom", st.facts[k])
            elif k[0] in ("cmp", "lin"):
                del st.facts[k]
        fn = ctx.func.node
        if fn not in self._slice:
            self._slice[fn] = Slice(fn).forget
        fr, ch = st.frames[ctx.fid], {}
        for k in self._slice[fn]:
            v = fr.get(k, self)
            if v is self:
                continue
            if isinstance(v, S):
                e = st.norm(v.e)
                if all(st.classof(x) <= hull for x in e) and not (len(e) == 1 and e[0][0] == "g"):
                    ch[k] = S((st.new_gap(hull),))
            elif v is None or isinstance(v, (bool, int, Lin)):
                ch[k] = self.new_op(st, "any")
            elif isinstance(v, Op) and v.id in st.facts:
                ch[k] = self.new_op(st, "any")
        if ch:
            fr = dict(fr)
            fr.update(ch)
            st.frames[ctx.fid] = fr
        for i, cl in st.cs.items():
            if cl != hull and i not in st.sub and cl <= hull:
                st.cs[i] = hull
        for i, cl in st.gs.items():
            if cl != hull and i not in st.sub and cl <= hull:
                st.gs[i] = hull
        if st.rel:
            st.rel = {}
        if level >= 2:
            fc = getattr(self, "fold_chars", True)
            self.fold_chars = False
            try:
                st = self.fold(st, consts=False)
            finally:
                self.fold_chars = fc
        return st

    def segment_state(self, st, refs):
        """Keep only how live strings are cut into shared segments: lengths, character classes and settings are forgotten."""
        for k in [k for k in st.facts if isinstance(k, tuple) and k[0] == "orig"]:
            st.facts[k[1]] = ("dom", st.facts[k])
        for k in [k for k in st.facts if isinstance(k, tuple) and k[0] in ("cmp", "lin")]:
            del st.facts[k]
        hull = self.hull
        for i in refs:
            o = st.heap[i]
            if o[0] != "list" or len(o) > 3 or not all(isinstance(x, S) for x in o[2]) or not (o[1] is None or o[1][0] == "cat"):
                continue
            parts = ([st.norm(o[1][1])] if o[1] else []) + [st.norm(x.e) for x in o[2]]
            P = tuple(y for p in parts for y in p)
            if not all(st.classof(x) <= hull for x in P):
                continue
            segs = [(st.new_gap(hull),) if p else () for p in parts]
            H = tuple(y for g in segs for y in g)
            self._rewrite(st, lambda e: H + e[len(P):] if len(e) >= len(P) and e[:len(P)] == P else e, lambda l: l, skip=i)
            st.heap[i] = ("list", ("cat", segs[0]) + o[1][2:] if o[1] else None, tuple(S(g) for g in segs[len(parts) - len(o[2]):]))
        m = {}

        def single(e):
            out = []
            for x in e:
                if x[0] == "v" and st.cs[x[1]] <= hull:
                    if x not in m:
                        m[x] = st.new_gap(hull)
                    x = m[x]
                out.append(x)
            return tuple(out)

        self._rewrite(st, single, lambda l: l)

    def generalise_prefix(self, st, i):
        """The smashed leading part of a list, together with the strings that begin with the same text, becomes one unknown."""
        hull = getattr(self, "hull", None)
        P = st.norm(st.heap[i][1][1])
        if hull is None or not P or len(P) == 1 and P[0][0] == "g" and st.classof(P[0]) == hull:
            return
        cl = frozenset().union(*[st.classof(x) for x in P])
        if not cl <= hull:
            return
        h = st.new_gap(hull)
        self._rewrite(st, lambda e: (h,) + e[len(P):] if len(e) >= len(P) and e[:len(P)] == P else e, lambda l: l)

    def occurrences(self, st):
        """All live strings (normalised) and the unknowns mentioned by live integers."""
        occ, lins, seen = [], [], set()

        def val(v):
            if isinstance(v, S):
                occ.append(st.norm(v.e))
            elif isinstance(v, Lin):
                lins.append(v)
            elif isinstance(v, Tup):
                for x in v.items:
                    val(x)
            elif isinstance(v, Ref) and v.id not in seen:
                seen.add(v.id)
                o = st.heap[v.id]
                if o[0] == "list":
                    if o[1] is not None and o[1][0] == "cat":
                        occ.append(st.norm(o[1][1]))
                    for x in o[2]:
                        val(x)
                    if len(o) > 3 and o[3] is not None:
                        occ.append(st.norm(o[3][1]))
                elif o[0] == "dict":
                    for a, b in o[1]:
                        val(a); val(b)
                elif o[0] == "set":
                    for a in o[1]:
                        val(a)
                elif o[0] == "iter":
                    for x in o[2:]:
                        if isinstance(x, tuple) and (not x or isinstance(x[0], tuple)):
                            occ.append(st.norm(x))
                        else:
                            val(x)
            elif isinstance(v, Fn):
                if isinstance(v.data, tuple):
                    for x in v.data:
                        val(x)
                else:
                    val(v.data)

        for fid in st.stack:
            for v in st.frames[fid].values():
                val(v)
        for v in st.tmp:
            val(v)
        return occ, lins

    def fold(self, st, consts=True):
        """Fold maximal runs that occur as a unit in every live string into one unknown."""
        while True:
            occ, lins = self.occurrences(st)
            if any(isinstance(l, Lin) and any(v[0] in ("ind", "cnt") for v, _ in l.t) for l in lins):
                return st
            lids = set()
            for l in lins:
                l = st.nlin(l)
                if isinstance(l, Lin):
                    lids |= {v[1] for v, _ in l.t if v[0] == "len"}
            nxt, prv = {}, {}
            for o in occ:
                for i, x in enumerate(o):
                    r = o[i + 1] if i + 1 < len(o) else None
                    l = o[i - 1] if i else None
                    nxt.setdefault(x, set()).add(r)
                    prv.setdefault(x, set()).add(l)
            found = None
            for x in nxt:
                if x[0] == "c":
                    continue
                if len(nxt[x]) == 1:
                    y = next(iter(nxt[x]))
                    if y is not None and y != x and (y[0] == "c" and consts or y[0] != "c" and prv[y] == {x}):
                        if (x[0] == "g" or y[0] == "g" or getattr(self, "fold_chars", True)) and not ({x[1]} & lids and y[0] == "g" and y[1] in lids):
                            found = (x, y)
                            break
                if len(prv[x]) == 1:
                    y = next(iter(prv[x]))
                    if y is not None and y[0] == "c" and consts:
                        found = (y, x)
                        break
            if found is None:
                return st
            x, y = found
            st = st.copy()
            cl = frozenset()
            for z in (x, y):
                cl |= st.classof(z)
            hull = getattr(self, "hull", None)
            if hull is not None and cl <= hull:
                cl = hull               # forget which characters were folded
            h = st.new_gap(cl)
            # whoever is an identity-bearing unknown is replaced; constants are absorbed
            self._fold_into(st, x, y, h)

    def _fold_into(self, st, x, y, h):
        # keep substitution chains consistent: x becomes h, y disappears -- by rewriting every live string
        def rw(elems):
            e = st.norm(elems)
            out, i = [], 0
            while i < len(e):
                if i + 1 < len(e) and e[i] == x and e[i + 1] == y:
                    out.append(h)
                    i += 2
                else:
                    out.append(e[i])
                    i += 1
            return tuple(out)

        lx = 1 if x[0] != "g" else Lin(0, [(("len", x[1]), 1)])
        ly = 1 if y[0] != "g" else Lin(0, [(("len", y[1]), 1)])

        def rwl(l):
            l = st.nlin(l)
            if not isinstance(l, Lin):
                return l
            for a, b in ((x, ly), (y, lx)):
                if a[0] == "g":
                    c = dict(l.t).get(("len", a[1]))
                    if c:
                        k, d = lin_parts(l)
                        del d[("len", a[1])]
                        l = lin_add(mk_lin(k, d), lin_mul(lin_add(Lin(0, [(("len", h[1]), 1)]), b, -1), c))
                        if not isinstance(l, Lin):
                            return l
            return l

        self._rewrite(st, rw, rwl)

    def _rewrite(self, st, rwn, rwl, skip=None):
        """Apply a rewriting of normalised strings (and of integers) to every live value."""
        def rw(elems):
            return rwn(st.norm(elems))

        done = {skip: True}

        def val(v):
            if isinstance(v, S):
                return S(rw(v.e))
            if isinstance(v, Lin):
                return rwl(v)
            if isinstance(v, Tup):
                return Tup(val(z) for z in v.items)
            if isinstance(v, Ref):
                if v.id not in done:
                    done[v.id] = True
                    st.heap[v.id] = obj(st.heap[v.id])
                return v
            if isinstance(v, Fn) and isinstance(v.data, (S, Ref, Tup)):
                return Fn(v.kind, v.name, val(v.data))
            if isinstance(v, Fn) and isinstance(v.data, tuple):
                return Fn(v.kind, v.name, tuple(val(z) if isinstance(z, (S, Ref, Tup, Lin)) else z for z in v.data))
            return v

        def obj(o):
            if o[0] == "list":
                pre = o[1]
                if pre is not None and pre[0] == "cat":
                    pre = ("cat", rw(pre[1])) + pre[2:]
                r = o[3:]
                if len(o) > 3 and o[3] is not None:
                    r = (("split", rw(o[3][1]), o[3][2], o[3][3]),)
                return ("list", pre, tuple(val(z) for z in o[2])) + r
            if o[0] == "dict":
                return ("dict", tuple((val(a), val(b)) for a, b in o[1]))
            if o[0] == "set":
                return ("set", tuple(val(a) for a in o[1]))
            if o[0] == "iter":
                return o[:2] + tuple(rw(z) if isinstance(z, tuple) and (not z or isinstance(z[0], tuple)) else val(z) for z in o[2:])
            return o

        for fid in st.stack:
            st.frames[fid] = {k: val(v) for k, v in st.frames[fid].items()}
        st.tmp = tuple(val(v) for v in st.tmp)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, n, st, ctx):
        # consumers of a generator expression stop early, so they are evaluated together with it
        if isinstance(n.func, ast.Name) and n.args and isinstance(n.args[0], ast.GeneratorExp) and n.func.id in ("any", "all", "next"):
            f = self.lookup(n.func.id, st, ctx, n)
            if isinstance(f, Fn) and f.kind == "builtin":
                return self.lazy_consume(n, st, ctx)
        if isinstance(n.func, ast.Name) and n.func.id == "sum" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            r = self.count_letters(n, st, ctx)
            if r is not None:
                return r
        nodes, kwnames = [], []
        func = n.func
        recv = isinstance(func, ast.Attribute)
        star = any(isinstance(a, ast.Starred) for a in n.args)
        nodes = [func] + [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        out = []
        for s, vals in self.ev_many(nodes, st, ctx):
            if isinstance(vals, Raise):
                out.append((s, vals))
                continue
            f = vals[0]
            pos = []
            for a, v in zip(n.args, vals[1:]):
                if isinstance(a, ast.Starred):
                    q = self.as_seq(s, v)
                    if q is None:
                        self.unsup("call with unknown *args", n, ctx)
                    pos.extend(q[1])
                else:
                    pos.append(v)
            kw = {}
            for k, v in zip(n.keywords, vals[1 + len(n.args):]):
                if k.arg is None:
                    o = s.heap[v.id] if isinstance(v, Ref) else None
                    if o is None or o[0] != "dict":
                        self.unsup("call with unknown **kwargs", n, ctx)
                    for a, b in o[1]:
                        kw[self.pystr(s, a)] = b
                else:
                    kw[k.arg] = v
            out += self.call(s, f, pos, kw, n, ctx)
        return out

    def count_letters(self, n, st, ctx):
        """sum(1 for c in text if test(c)) or sum(test(c) for c in text): the text's letters that pass the test, counted."""
        e = n.args[0]
        if len(e.generators) != 1 or not isinstance(e.generators[0].target, ast.Name):
            return None
        g = e.generators[0]
        tests = list(g.ifs)
        if isinstance(e.elt, ast.Constant) and e.elt.value in (1, True):
            pass
        elif isinstance(e.elt, (ast.Compare, ast.Call, ast.BoolOp, ast.UnaryOp)):
            tests.append(e.elt)
        else:
            return None
        f = self.lookup("sum", st, ctx, n)
        if not tests or not (isinstance(f, Fn) and f.kind == "builtin"):
            return None
        out = []
        for s, it in self.ev(g.iter, st, ctx):
            if isinstance(it, Raise):
                out.append((s, it))
                continue
            it = self.res(s, it)
            if not isinstance(it, S):
                return None
            elems = s.norm(it.e)
            if not any(x[0] == "g" for x in elems):
                return None
            letters = set().union(*[s.classof(x) for x in elems])
            name, good = g.target.id, set()
            q = s.copy()
            fid = q.fresh()
            q.frames[fid] = {}
            q.stack = q.stack + (fid,)
            cctx = Ctx(fid, ctx.mod, ctx.func, ctx, {name})
            for ch in sorted(letters, key=str):
                if ch == OTHER:
                    q2 = q.copy()
                    v = S((q2.new_char((OTHER,)),))
                else:
                    v, q2 = lit(ch), q
                cur = [(q2, True)]
                for i, t in enumerate(tests):
                    nxt = []
                    for q3, b in cur:
                        if not b:
                            nxt.append((q3, False))
                            continue
                        q3 = q3.copy()
                        q3.frames[fid] = {name: v}
                        for q4, tv in self.ev(t, q3, cctx):
                            if isinstance(tv, Raise) or i == len(tests) - 1 and t is e.elt and not isinstance(tv, bool):
                                return None
                            nxt += self.truth(q4, tv)
                    cur = nxt
                if len({b for _, b in cur}) != 1:
                    return None
                if cur[0][1]:
                    if ch == OTHER:
                        return None
                    good.add(ch)
            acc = 0
            for x in elems:
                for ch in sorted(good):
                    acc = lin_add(acc, s.count_elem(x, ch))
            out.append((s, acc))
        return out

    def lazy_consume(self, n, st, ctx):
        g, name = n.args[0], n.func.id
        default = n.args[1] if len(n.args) > 1 else None
        s0 = st.copy()

        def emit(s, cctx):
            out = []
            for s2, v in self.ev(g.elt, s, cctx):
                if isinstance(v, Raise):
                    out.append((s2, ("exc", v)))
                elif name == "next":
                    out.append((s2, ("got", v)))
                else:
                    for s3, t in self.truth(s2, v):
                        if t == (name == "any"):
                            out.append((s3, ("got", t)))
                        else:
                            out.append((s3, NEXT))
            return out

        out = []
        for s, sig in self.run_comp(g.generators, 0, s0, ctx, None, emit):
            if sig[0] in ("got", "exc"):
                out.append((s, sig[1]))
            elif name == "next":
                if default is None:
                    out.append((s, self.exc("StopIteration", n, ctx)))
                else:
                    out += self.ev(default, s, ctx)
            else:
                out.append((s, name == "all"))
        return self.dedupe_vals(out)

    def call(self, st, f, pos, kw, node, ctx):
        self.stats["calls"] += 1
        f = self.res(st, f)
        if isinstance(f, Op):
            return [(st, self.new_op(st, "any"))]
        if not isinstance(f, Fn):
            return [(st, self.exc("TypeError", node, ctx))]
        if f.kind == "def":
            h = self.hooks.get(f.data[0].qual) if f.data[1] is None else None
            if h is not None and not ctx.spec:      # harness code calls the real function
                if callable(h):
                    return h(self, st, pos, kw, node, ctx)
                return self.call_model(st, f.data[0], h, pos, kw, node, ctx)
            return self.call_func(st, f.data[0], f.data[1], pos, kw, node, ctx)
        if f.kind == "lambda":
            return self.call_lambda(st, f.data[0], f.data[1], pos, kw, node, ctx)
        if f.kind == "method":
            return self.call_method(st, f.data, f.name, pos, kw, node, ctx)
        if f.kind == "class":
            if f.name in self.envs.exc:
                return [(st, ExcVal(f.name, pos))]
            fields = self.tuple_classes().get(f.name)
            if fields is not None:
                args = list(pos) + [None] * (len(fields) - len(pos))
                known = set(range(len(pos)))
                names = [n for n, _ in fields]
                if len(pos) > len(fields) or any(k not in names or names.index(k) < len(pos) for k in kw):
                    return [(st, self.exc("TypeError", node, ctx))]
                for k, v in kw.items():
                    args[names.index(k)] = v
                    known.add(names.index(k))
                for i, (_, d) in enumerate(fields):
                    if i not in known:
                        if d is None:
                            return [(st, self.exc("TypeError", node, ctx))]
                        if not isinstance(d, ast.Constant):
                            self.unsup("default of %s" % f.name, node, ctx)
                        args[i] = lift(d.value)
                return [(st, Tup(args))]
            self.unsup("instantiating class %s" % f.name, node, ctx)
        if f.kind == "intrinsic":
            return getattr(self, "ix_" + f.name)(st, pos, kw, node, ctx)
        if f.kind == "ext":
            return self.call_ext(st, f.name, pos, kw, node, ctx)
        if f.kind == "builtin":
            m = getattr(self, "bi_" + f.name, None)
            if m is None:
                if f.name in self.envs.exc:
                    return [(st, ExcVal(f.name, pos))]
                self.unsup("builtin %s" % f.name, node, ctx)
            return m(st, pos, kw, node, ctx)
        self.unsup("call of %r" % (f,), node, ctx)

    def call_model(self, st, real, model, pos, kw, node, ctx):
        """A model stands in for a library function: arguments are bound by the library's own signature, then handed
        to the model by parameter name, the remaining ones in order."""
        ra, ma = real.node.args, model.node.args
        if ra.vararg or ra.kwarg or ra.kwonlyargs:
            return self.call_func(st, model, None, pos, kw, node, ctx)
        out = []
        names = [a.arg for a in ra.posonlyargs + ra.args]
        want = [a.arg for a in ma.posonlyargs + ma.args]
        for s, env in self.bind(st, real.node, pos, kw, node, ctx, Ctx(None, real.mod, real, None, frozenset())):
            if isinstance(env, Raise):
                out.append((s, env))
                continue
            rest = [n for n in names if n not in want]
            args = {}
            for n in want:
                if n in names:
                    args[n] = env[n]
                elif rest:
                    args[n] = env[rest.pop(0)]
            out += self.call_func(s, model, None, [], args, node, ctx)
        return out

    def bind(self, st, func, pos, kw, node, ctx, defctx):
        """-> list of (st, dict) or (st, Raise)"""
        a = func.args
        params = a.posonlyargs + a.args
        env = {}
        if len(pos) > len(params) and not a.vararg:
            return [(st, self.exc("TypeError", node, ctx))]
        for p, v in zip(params, pos):
            env[p.arg] = v
        if a.vararg:
            env[a.vararg.arg] = Tup(pos[len(params):])
        extra = {}
        names = {p.arg for p in a.args + a.kwonlyargs}
        for k, v in kw.items():
            if k in env or (k not in names and not a.kwarg):
                return [(st, self.exc("TypeError", node, ctx))]
            (env if k in names else extra)[k] = v
        if a.kwarg:
            st = st.copy()
            env[a.kwarg.arg] = st.alloc(("dict", tuple((lit(k), v) for k, v in extra.items())))
        cur = [(st, env)]
        dflt = list(zip(params[len(params) - len(a.defaults):], a.defaults)) + [
            (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        dd = {p.arg: d for p, d in dflt}
        for p in params + a.kwonlyargs:
            nxt = []
            for s, e in cur:
                if isinstance(e, Raise) or p.arg in e:
                    nxt.append((s, e))
                elif p.arg in dd:
                    for s2, v in self.ev(dd[p.arg], s, defctx):
                        e2 = dict(e)
                        e2[p.arg] = v
                        nxt.append((s2, e2))
                else:
                    nxt.append((s, self.exc("TypeError", node, ctx)))
            cur = nxt
        return cur

    def call_func(self, st, func, outer, pos, kw, node, ctx):
        fn = func.node
        self.funcs_seen[(func.mod.rel, func.qual)] = self.funcs_seen.get((func.mod.rel, func.qual), 0) + 1
        if self.depth > 40:
            raise Unsupported("recursion through %s (no summary)" % func.qual)
        gctx = Ctx(None, func.mod, func, None, frozenset())
        out = []
        for s, env in self.bind(st, fn, pos, kw, node, ctx, outer or gctx):
            if isinstance(env, Raise):
                out.append((s, env))
                continue
            s = s.copy()
            fid = s.fresh()
            s.frames[fid] = env
            s.stack = s.stack + (fid,)
            c2 = Ctx(fid, func.mod, func, outer, self.locals_of(fn))
            self.depth += 1
            try:
                res = self.exec_block(fn.body, s, c2)
            finally:
                self.depth -= 1
            for s2, sig in res:
                s2 = s2.copy()
                s2.stack = s2.stack[:-1]
                if not has_inner(fn):
                    s2.frames.pop(fid, None)
                if sig is NEXT:
                    v, line = None, fn.lineno
                elif sig[0] == "ret":
                    v, line = sig[1], sig[2]
                elif sig[0] == "exc":
                    v, line = sig[1], None
                else:
                    self.unsup("signal %s at function end" % (sig,), fn, c2)
                if ctx.spec and not c2.spec and line:
                    s2.note = (s2.note + ("%s:%d %s" % (func.mod.rel, line, func.qual),))[-6:]
                elif ctx.spec and isinstance(v, Raise) and not c2.spec:
                    w = v.where or ("?", 0, "?")
                    s2.note = (s2.note + ("%s:%d %s raises %s" % (w[0], w[1], w[2], v.cls),))[-6:]
                out.append((s2, v))
        return self.dedupe_vals(out)

    def call_lambda(self, st, n, dctx, pos, kw, node, ctx):
        out = []
        for s, env in self.bind(st, n, pos, kw, node, ctx, dctx):
            if isinstance(env, Raise):
                out.append((s, env))
                continue
            s = s.copy()
            fid = s.fresh()
            s.frames[fid] = env
            s.stack = s.stack + (fid,)
            c2 = Ctx(fid, dctx.mod, dctx.func, dctx, self.locals_of(n))
            for s2, v in self.ev(n.body, s, c2):
                s2 = s2.copy()
                s2.stack = s2.stack[:-1]
                s2.frames.pop(fid, None)
                out.append((s2, v))
        return self.dedupe_vals(out)

    # -- external functions
    def call_ext(self, st, name, pos, kw, node, ctx):
        if name in ("re.fullmatch", "re.match", "re.search"):
            pat = self.pystr(st, pos[0]) if isinstance(pos[0], S) else None
            if pat is None or len(pos) > 2 or kw or not isinstance(pos[1], S):
                self.unsup("regular expression call", node, ctx)
            out = []
            for s, t in self.re_bool(st, pat, pos[1].e, name[3:]):
                if t:
                    s = s.copy()
                    out.append((s, self.new_op(s, "match")))
                else:
                    out.append((s, None))
            return self.dedupe_vals(out)
        if name == "re.sub":
            pat, rep = (self.pystr(st, x) if isinstance(x, S) else None for x in pos[:2])
            if pat is not None and rep is not None and len(pos) == 3 and not kw and isinstance(pos[2], S):
                return self.re_sub(st, pat, rep, pos[2], node, ctx)
            self.unsup("re.sub call", node, ctx)
        if name == "re.compile":
            return [(st, Fn("method", "pattern", pos[0]))]
        if name == "functools.reduce" and len(pos) == 3 and self.as_seq(st, pos[1]) is not None:
            cur = [(st, pos[2])]
            out = []
            for x in self.as_seq(st, pos[1])[1]:
                nxt = []
                for s, acc in cur:
                    for s2, v in self.call(s, pos[0], [acc, x], {}, node, ctx):
                        (out if isinstance(v, Raise) else nxt).append((s2, v))
                cur = nxt
            return out + cur
        if name == "itertools.product" and not kw:
            seqs = [self.as_seq(st, p) for p in pos]
            if all(q is not None for q in seqs):
                import itertools
                s = st.copy()
                return [(s, s.alloc(("list", None, tuple(Tup(t) for t in itertools.product(*[q[1] for q in seqs])))))]
        if name == "itertools.chain.from_iterable" or name == "itertools.chain":
            seqs = [pos[0]] if name.endswith("iterable") else pos
            if name.endswith("iterable"):
                q = self.as_seq(st, pos[0])
                seqs = q[1] if q else None
            if seqs is not None and all(self.as_seq(st, p) is not None for p in seqs):
                s = st.copy()
                return [(s, s.alloc(("list", None, tuple(x for p in seqs for x in self.as_seq(s, p)[1]))))]
        if name in ("itertools.takewhile", "itertools.dropwhile") and len(pos) == 2:
            return self.take_while(st, pos[0], pos[1], name.endswith("takewhile"), node, ctx)
        if name == "itertools.accumulate" and len(pos) in (1, 2):
            init = kw.get("initial")
            if isinstance(pos[0], Ref) and st.heap[pos[0].id][0] == "iter":
                return [r if isinstance(r[1], Raise) else x for r in self.bi_list(st, [pos[0]], {}, node, ctx)
                        for x in ([r] if isinstance(r[1], Raise) else self.call_ext(r[0], name, [r[1]] + list(pos[1:]), kw, node, ctx))]
            q = self.as_seq(st, pos[0])
            if q is not None:
                cur, out = [(st, () if init is None else (init,))], []
                for x in q[1]:
                    nxt = []
                    for s, acc in cur:
                        if not acc:
                            nxt.append((s, (x,)))
                            continue
                        r = self.call(s, pos[1], [acc[-1], x], {}, node, ctx) if len(pos) == 2 else self.binop(ast.Add(), s, acc[-1], x, node, ctx)
                        for s2, v in r:
                            if isinstance(v, Raise):
                                out.append((s2, v))
                            else:
                                nxt.append((s2, acc + (v,)))
                    cur = nxt
                for s, acc in cur:
                    s = s.copy()
                    out.append((s, s.alloc(("list", None, acc))))
                return out
        if name == "itertools.pairwise" and len(pos) == 1 and self.as_seq(st, pos[0]) is not None:
            xs = self.as_seq(st, pos[0])[1]
            s = st.copy()
            return [(s, s.alloc(("list", None, tuple(Tup(t) for t in zip(xs, xs[1:])))))]
        self.unsup("external function %s" % name, node, ctx)

    def take_while(self, st, pred, seq, taking, node, ctx):
        v = self.res(st, seq)
        if not isinstance(v, S) and self.as_seq(st, v) is None:
            self.unsup("takewhile over an unknown sequence", node, ctx)
        out, cur = [], [(st, 0)]

        def done(s, xs):
            s = s.copy()
            if isinstance(v, S) and any(x[0] == "g" for x in xs):
                self.unsup("dropwhile over a text of unknown length", node, ctx)
            out.append((s, s.alloc(("list", None, tuple(S((x,)) for x in xs) if isinstance(v, S) else tuple(xs)))))
        while cur:
            s, i = cur.pop()
            todo = [(s, s.norm(v.e))] if isinstance(v, S) else [(s, self.as_seq(s, v)[1])]
            if isinstance(v, S):
                todo = self.ensure_left(s, v.e, i + 1)
            for s2, e in todo:
                if i >= len(e):
                    done(s2, e if taking else ())
                    continue
                for s3, t in self.call(s2, pred, [S((e[i],)) if isinstance(v, S) else e[i]], {}, node, ctx):
                    if isinstance(t, Raise):
                        out.append((s3, t))
                        continue
                    for s4, b in self.truth(s3, t):
                        if b:
                            cur.append((s4, i + 1))
                        else:
                            e4 = s4.norm(v.e) if isinstance(v, S) else e
                            done(s4, e4[:i] if taking else e4[i:])
        return out

    def re_sub(self, st, pat, rep, v, node, ctx):
        tree = sre_parse.parse(pat)
        alts = list(tree)
        if len(alts) == 1 and alts[0][0] == sre_c.BRANCH:
            alts = [list(a) for a in alts[0][1][1]]
        else:
            alts = [alts]

        def cset(item):
            op, a = item
            if op == sre_c.LITERAL:
                return {chr(a)}
            if op == sre_c.IN and all(o == sre_c.LITERAL for o, _ in a):
                return {chr(x) for _, x in a}
            return None

        left = right = left1 = right1 = None
        ok = rep == ""
        for a in alts:
            a = list(a)
            rp = None
            if len(a) == 2 and a[0][0] == sre_c.AT and a[0][1] in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                rp, side = a[1], "l"
            elif len(a) == 2 and a[1][0] == sre_c.AT and a[1][1] in (sre_c.AT_END, sre_c.AT_END_STRING):
                rp, side = a[0], "r"
            if rp is not None and (cset(rp) is not None or rp[0] == sre_c.MAX_REPEAT and rp[1][1] == 1 and len(rp[1][2]) == 1 and cset(rp[1][2][0]) is not None):
                one = cset(rp) if cset(rp) is not None else cset(rp[1][2][0])
                if side == "l":
                    left1 = one
                else:
                    right1 = one
                continue
            if rp is None or rp[0] != sre_c.MAX_REPEAT or rp[1][1] != sre_c.MAXREPEAT or len(rp[1][2]) != 1 or cset(rp[1][2][0]) is None:
                ok = False
                break
            if side == "l":
                left = cset(rp[1][2][0])
            else:
                right = cset(rp[1][2][0])
        if ok and len(alts) <= 2:
            cur = [(st, v)]
            if left:
                cur = [r for s, x in cur for r in self.strip(s, x, left, True, False)]
            if right:
                cur = [r for s, x in cur for r in self.strip(s, x, right, False, True)]
            if left1:
                cur = [r for s, x in cur for r in self.strip_one(s, x, left1, "l")]
            if right1:
                cur = [r for s, x in cur for r in self.strip_one(s, x, right1, "r")]
            return cur
        # single-character substitution
        if len(alts) == 1 and len(alts[0]) == 1:
            it = alts[0][0]
            if it[0] == sre_c.MAX_REPEAT and rep == "" and len(it[1][2]) == 1:
                it = it[1][2][0]
            cs_ = cset(it)
            if cs_ is not None and "\\" not in rep:
                cur = [(st, v)]
                for ch in sorted(cs_):
                    cur = [r for s, x in cur for r in self.replace(s, x, ch, rep, None, node, ctx)]
                return cur
        self.unsup("re.sub pattern", node, ctx)

    def strip_one(self, st, v, chars, side):
        """Remove one character of `chars` at the given end, if there is one."""
        out, work = [], [(st, st.norm(v.e))]
        while work:
            s, e = work.pop()
            e = s.norm(e)
            if not e:
                out.append((s, EMPTY))
                continue
            x = e[0] if side == "l" else e[-1]
            rest = e[1:] if side == "l" else e[:-1]
            if x[0] == "g":
                self.stats["splits"] += 1
                work += [(n, e) for n in s.expand(x[1], left=(side == "l"))]
                continue
            cl = s.classof(x)
            inn = cl & chars
            if not inn:
                out.append((s, S(e)))
            elif inn == cl:
                out.append((s, S(rest)))
            else:
                self.stats["splits"] += 1
                for part, val in ((inn, rest), (cl - inn, e)):
                    n = s.set_class(x[1], part)
                    if n:
                        out.append((n, S(n.norm(val))))
        return out

    # -- string methods
    def strip(self, st, v, chars, left=True, right=True):
        out = []
        for side in (("l",) if left else ()) + (("r",) if right else ()):
            cur = [(st, v)] if not out else out
            out = []
            work = [(s, s.norm(x.e)) for s, x in cur]
            while work:
                s, e = work.pop()
                e = s.norm(e)
                if not e:
                    out.append((s, EMPTY))
                    continue
                x = e[0] if side == "l" else e[-1]
                rest = e[1:] if side == "l" else e[:-1]
                cl = s.classof(x)
                inn = cl & chars
                if inn == cl and not (x[0] != "c" and OTHER in cl):
                    work.append((s, rest))
                elif not inn and x[0] != "g":
                    out.append((s, S(e)))
                elif x[0] == "v":
                    self.stats["splits"] += 1
                    n = s.set_class(x[1], inn)
                    if n:
                        work.append((n, e))
                    n = s.set_class(x[1], cl - inn)
                    if n:
                        work.append((n, e))
                elif not inn:
                    a, b = s.expand(x[1], left=(side == "l"))
                    self.stats["splits"] += 1
                    work += [(a, e), (b, e)]
                else:
                    # gap: a run to strip, then a character that stays
                    self.stats["splits"] += 1
                    a = s.copy()
                    r = a.new_gap(inn)
                    a.sub[x[1]] = (r,)
                    work.append((a, rest))
                    b = s.copy()
                    r, c, q = b.new_gap(inn), b.new_char(cl - inn), b.new_gap(cl)
                    b.sub[x[1]] = (r, c, q) if side == "l" else (q, c, r)
                    out.append((b, S(b.norm(((c, q) + rest) if side == "l" else (rest + (q, c))))))
        return out

    def replace(self, st, v, a, b, count, node, ctx):
        """str.replace with a constant pattern."""
        e = st.norm(v.e)
        p = self.pystr(st, v)
        if p is not None:
            return [(st, lit(p.replace(a, b, -1 if count is None else count)))]
        if len(a) != 1:
            if any(not any(ch in st.classof(x) for x in e) for ch in a):
                return [(st, v)]
            n = st.copy()
            return [(n, S((n.new_gap(ALL),)))]
        if not any(a in st.classof(x) for x in e):
            return [(st, S(e))]
        out = []
        work = [(st, (), e, count)]
        while work:
            s, done, rest, k = work.pop()
            rest = s.norm(rest)
            if not rest or k == 0:
                out.append((s, S(s.norm(done + rest))))
                continue
            x = rest[0]
            cl = s.classof(x)
            if a not in cl:
                work.append((s, done + (x,), rest[1:], k))
            elif x[0] == "c":
                work.append((s, done + lit(b).e, rest[1:], None if k is None else k - 1))
            elif x[0] == "v":
                for s2, t in self.eq_char(s, x, ("c", a)):
                    if t:
                        work.append((s2, done + lit(b).e, rest[1:], None if k is None else k - 1))
                    else:
                        work.append((s2, done + (x,), rest[1:], k))
            else:
                # unknown text that may contain the pattern: its image is another unknown, remembered
                n = s.copy()
                key = ("map", "replace", a, b, k, (x[1],))
                if key not in n.facts:
                    cl2 = (cl - {a}) | frozenset(c if c in ALL else OTHER for c in b)
                    n.facts[key] = (n.new_gap(cl2),) if cl2 else ()
                work.append((n, done + n.facts[key], rest[1:], k))
        return out

    def map_chars(self, st, v, f, opname):
        out, s = [], st.copy()
        for x in s.norm(v.e):
            if x[0] == "c":
                y = f(x[1])
                out += [("c", c) if c in ALL else ("c", c) for c in y]
                continue
            cl = s.classof(x)
            if all(f(c) == c for c in cl):
                out.append(x)
                continue
            key = ("map", opname, (x[1],))
            if key not in s.facts:
                img = frozenset(f(c) if f(c) in ALL else OTHER for c in cl)
                if x[0] == "v":
                    y = s.new_char(img)
                    if y[0] == "v":
                        t = s.add_rel((x[1], y[1]), {(c, f(c)) for c in cl})
                        s = t if t is not None else s
                else:
                    y = s.new_gap(img)
                s.facts[key] = (y,)
            out += s.facts[key]
        return [(s, S(s.norm(tuple(out))))]

    def call_method(self, st, o, name, pos, kw, node, ctx):
        o = self.res(st, o)
        if self.is_choice(st, o) or any(self.is_choice(st, p) for p in pos) and isinstance(o, S):
            out = []
            for s, vals in self.concretise(st, (o,) + tuple(pos)):
                out += self.call_method(s, vals[0], name, list(vals[1:]), kw, node, ctx)
            return out
        if isinstance(o, S):
            return self.str_method(st, o, name, pos, kw, node, ctx)
        if isinstance(o, Ref):
            k = st.heap[o.id][0]
            return getattr(self, k + "_method")(st, o, name, pos, kw, node, ctx)
        if isinstance(o, K):
            return self.const_method(st, o, name, pos, kw, node, ctx)
        if isinstance(o, Tup):
            if name in ("index", "count"):
                return [(st, self.new_op(st, "int"))]
            self.unsup("tuple method %s" % name, node, ctx)
        if isinstance(o, Op):
            return [(st, self.new_op(st, "any"))]
        if isinstance(o, Fn) and o.kind == "method" and o.name == "pattern":
            return self.call_ext(st, "re." + name, [o.data] + pos if name != "sub" else [o.data] + pos, kw, node, ctx)
        if o is None or isinstance(o, (bool, int, Lin)):
            return [(st, self.exc("AttributeError", node, ctx))]
        if isinstance(o, Fn) and o.kind == "builtin" and o.name == "str":
            return self.call_method(st, pos[0], name, pos[1:], kw, node, ctx)
        if isinstance(o, Fn) and o.kind == "ext":
            return self.call_ext(st, o.name + "." + name, pos, kw, node, ctx)
        self.unsup("method %s of %r" % (name, o), node, ctx)

    def str_method(self, st, v, name, pos, kw, node, ctx):
        pos = [self.res(st, p) for p in pos]
        if name in ("startswith", "endswith"):
            opts = [pos[0]] if isinstance(pos[0], S) else (self.as_seq(st, pos[0]) or (0, None))[1]
            if opts is None or len(pos) > 1:
                self.unsup("str.%s" % name, node, ctx)
            out, cur = [], [st]
            for o in opts:
                nxt = []
                for s in cur:
                    p = s.norm(o.e)
                    if any(x[0] == "g" for x in p):
                        # unknown prefix: only identity can be decided
                        e = s.norm(v.e)
                        if name == "startswith" and e[:len(p)] == p or name == "endswith" and len(p) <= len(e) and e[len(e) - len(p):] == p:
                            out.append((s, True))
                        else:
                            out.append((s.copy(), True))
                            nxt.append(s.copy())
                        continue
                    k = len(p)
                    for s2, e in (self.ensure_left if name == "startswith" else self.ensure_right)(s, v.e, k):
                        if len(e) < k:
                            nxt.append(s2)
                            continue
                        part = e[:k] if name == "startswith" else e[len(e) - k:]
                        for s3, t in self.eq_elems(s2, part, p):
                            (out.append((s3, True)) if t else nxt.append(s3))
                cur = nxt
            return self.dedupe_vals(out + [(s, False) for s in cur])
        if name in ("lower", "casefold"):
            return self.map_chars(st, v, lambda c: c.lower() if c != OTHER else c, "lower")
        if name == "upper":
            return self.map_chars(st, v, lambda c: c.upper() if c != OTHER else c, "upper")
        if name in ("strip", "lstrip", "rstrip"):
            chars = frozenset(" \t\n") if not pos or pos[0] is None else frozenset(self.need_str(st, pos[0], node, ctx))
            return self.dedupe_vals(self.strip(st, v, chars, name != "rstrip", name != "lstrip"))
        if name in ("removeprefix", "removesuffix"):
            pre = name == "removeprefix"
            p = self.need_str(st, pos[0], node, ctx)
            out = []
            for s, t in self.str_method(st, v, "startswith" if pre else "endswith", pos, {}, node, ctx):
                if t:
                    out += self.slice_str(s, v, len(p) if pre else None, None if pre else -len(p) or None)
                else:
                    out.append((s, v))
            return out
        if name == "replace":
            a, b = self.need_str(st, pos[0], node, ctx), self.need_str(st, pos[1], node, ctx)
            cnt = pos[2] if len(pos) > 2 else kw.get("count")
            return self.dedupe_vals(self.replace(st, v, a, b, cnt if isinstance(cnt, int) and cnt >= 0 else None, node, ctx))
        if name == "count":
            ch = self.need_str(st, pos[0], node, ctx)
            hay = self.pystr(st, v)
            if hay is not None and len(ch) == 1 and ch[0][0] == "v" and len(pos) == 1:
                return self.by_position(st, ch[0], hay.count, 0, node)
            if len(ch) != 1:
                return [(st, self.new_op(st, "int"))]
            acc = 0
            for x in st.norm(v.e):
                acc = lin_add(acc, st.count_elem(x, ch))
            return [(st, acc)]
        if name == "join":
            return self.str_join(st, v, pos[0], node, ctx)
        if name == "split":
            return self.str_split(st, v, pos, node, ctx)
        if name in ("partition",):
            sep = self.need_str(st, pos[0], node, ctx)
            if len(sep) != 1:
                self.unsup("partition", node, ctx)
            return [(s, Tup((S(h), lit(sep) if t is not None else EMPTY, S(t) if t is not None else EMPTY)))
                    for s, (h, t) in self.split_first(st, v.e, sep)]
        if name in ("find", "index"):
            ch = self.pystr(st, pos[0]) if isinstance(pos[0], S) else None
            if ch is not None and len(ch) == 1 and len(pos) == 1:
                out = []
                for s, (h, t) in self.split_first(st, v.e, ch):
                    out.append((s, s.length(h) if t is not None else (-1 if name == "find" else self.exc("ValueError", node, ctx))))
                return out
        if name in ("find", "index", "rfind", "rindex") and len(pos) == 1 and isinstance(pos[0], S):
            hay, e = self.pystr(st, v), st.norm(pos[0].e)
            if hay is not None and len(e) == 1 and e[0][0] == "v":
                res = self.by_position(st, e[0], hay.find if name in ("find", "index") else hay.rfind, -1, node)
                return [(q, k if k >= 0 or name in ("find", "rfind") else self.exc("ValueError", node, ctx)) for q, k in res]
            if hay is not None and all(x[0] == "c" for x in e):
                k = (hay.find if name in ("find", "index") else hay.rfind)("".join(x[1] for x in e))
                return [(st, k if k >= 0 or name in ("find", "rfind") else self.exc("ValueError", node, ctx))]
        if name in ("find", "index", "rfind", "rindex"):
            return [(st, self.new_op(st, "int"))]
        if name in ("isalpha", "isdigit", "isspace", "islower", "isupper", "isalnum"):
            return [(st, self.new_op(st, "bool"))]
        if name == "format":
            n = st.copy()
            return [(n, S((n.new_gap(ALL),)))]
        if name == "splitlines":
            return [(st, self.new_op(st, "any"))]
        if name == "translate":
            if isinstance(pos[0], K) and isinstance(pos[0].v, dict):
                self.unsup("translate", node, ctx)
        self.unsup("str.%s" % name, node, ctx)

    def need_str(self, st, v, node, ctx):
        p = self.pystr(st, v) if isinstance(v, S) else None
        if p is None:
            self.unsup("string method with an unknown argument", node, ctx)
        return p

    def str_join(self, st, sep, seq, node, ctx):
        seq = self.res(st, seq)
        q = self.as_seq(st, seq)
        sp = st.norm(sep.e)
        if q is not None:
            e = ()
            for i, x in enumerate(q[1]):
                x = self.res(st, x)
                if isinstance(x, Op):
                    st = st.copy()
                    x = S((st.new_gap(ALL),))
                if not isinstance(x, S):
                    return [(st, self.exc("TypeError", node, ctx))]
                e += (sp if i else ()) + st.norm(x.e)
            return [(st, S(e))]
        if isinstance(seq, S):
            if not sp:
                return [(st, seq)]
        if isinstance(seq, Ref):
            o = st.heap[seq.id]
            if o[0] == "list" and o[1] is not None and o[1][0] == "cat" and not sp and (len(o) < 4 or o[3] is None):
                e = st.norm(o[1][1])
                for x in o[2]:
                    e += st.norm(x.e)
                return [(st, S(e))]
            if o[0] == "list" and o[1] is None and len(o) > 3 and o[3] is not None and self.pystr(st, sep) == o[3][2]:
                e = ()
                for x in o[2]:
                    e += st.norm(x.e) + sp
                return [(st, S(e + st.norm(o[3][1])))]
        n = st.copy()
        return [(n, S((n.new_gap(ALL),)))]

    def str_split(self, st, v, pos, node, ctx):
        if not pos or pos[0] is None:
            return self.ws_split(st, v, node, ctx)
        sep = self.need_str(st, pos[0], node, ctx)
        if len(sep) != 1 or len(pos) > 1:
            self.unsup("split", node, ctx)
        e = st.norm(v.e)
        if not any(x[0] == "g" and sep in st.classof(x) for x in e):
            out, work = [], [(st, (), e)]
            while work:
                s, parts, rest = work.pop()
                for s2, (h, t) in self.split_first(s, rest, sep):
                    p2 = parts + (S(s2.norm(h)),)
                    if t is None:
                        s2 = s2.copy()
                        out.append((s2, s2.alloc(("list", None, p2))))
                    else:
                        work.append((s2, p2, t))
            return out
        s = st.copy()
        g = s.new_gap("#")
        rid = s.new_gap("#")
        s.sub[rid[1]] = (("c", "#"), g)
        return [(s, s.alloc(("list", None, (), ("split", e, sep, rid[1]))))]

    def ws_split(self, st, v, node, ctx):
        p = self.pystr(st, v)
        if p is not None:
            s = st.copy()
            return [(s, s.alloc(("list", None, tuple(lit(w) for w in p.split()))))]
        WS = frozenset(" \t\n")
        e = st.norm(v.e)
        words, cur, s = [], (), st
        for x in e:
            cl = s.classof(x)
            if cl <= WS and x[0] != "g":
                if cur:
                    words.append(cur)
                cur = ()
            elif not (cl & WS):
                cur += (x,)
            elif cl <= WS:
                if not cur:
                    continue            # already between words
                # a gap of whitespace: decide emptiness
                a, b = s.expand(x[1])
                return [r for q in (a, b) for r in self.ws_split(q, v, node, ctx)]
            else:
                n = st.copy()
                return [(n, n.alloc(("list", ("strs", cl - WS), ())))]
        if cur:
            words.append(cur)
        # words made of gaps only may be empty: decide
        for w in words:
            if all(x[0] == "g" for x in w):
                a, b = s.expand(w[0][1])
                return [r for q in (a, b) for r in self.ws_split(q, v, node, ctx)]
        s = s.copy()
        return [(s, s.alloc(("list", None, tuple(S(w) for w in words))))]

    # -- lists, dicts, sets
    def list_obj(self, st, v):
        if isinstance(v, K) and isinstance(v.v, (list, tuple)):
            return ("list", None, tuple(lift(x) for x in v.v))
        if isinstance(v, Tup):
            return ("list", None, v.items)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o[0] == "list":
                return o
            if o[0] == "dict":
                return ("list", None, tuple(k for k, _ in o[1]))
            if o[0] == "set":
                return ("list", None, tuple(o[1]))
        return None

    def list_concat(self, st, a, b):
        ra, rb = (len(a) > 3 and a[3] is not None), (len(b) > 3 and b[3] is not None)
        if ra or rb:
            return ("list", ("any",), ())
        if b[1] is None:
            return ("list", a[1], a[2] + b[2])
        if b[1][0] == "cat" and (a[1] is None or a[1][0] == "cat") and all(isinstance(x, S) for x in a[2]):
            pre = (st.norm(a[1][1]) if a[1] else ()) + tuple(y for x in a[2] for y in st.norm(x.e)) + st.norm(b[1][1])
            return ("list", ("cat", pre, st.new_gap("#")[1]), b[2])
        return ("list", ("any",), b[2])

    def list_method(self, st, ref, name, pos, kw, node, ctx):
        o = st.heap[ref.id]
        rest = len(o) > 3 and o[3] is not None
        s = st.copy()
        if name == "append":
            if rest:
                self.unsup("append to a pending split", node, ctx)
            s.heap[ref.id] = ("list", o[1], o[2] + (pos[0],))
            return [(s, None)]
        if name == "extend":
            lb = self.list_obj(s, pos[0])
            if lb is None:
                if isinstance(pos[0], S):
                    if not any(x[0] == "g" for x in s.norm(pos[0].e)):
                        lb = ("list", None, tuple(S((x,)) for x in s.norm(pos[0].e)))
                if lb is None:
                    lb = ("list", ("any",), ())
            s.heap[ref.id] = self.list_concat(s, o, lb)
            return [(s, None)]
        if name == "insert" and not rest:
            if isinstance(pos[0], int) and o[1] is None:
                items = list(o[2])
                items.insert(pos[0], pos[1])
                s.heap[ref.id] = ("list", None, tuple(items))
                return [(s, None)]
            if pos[0] == 0 and o[1][0] == "cat" and isinstance(pos[1], S):
                s.heap[ref.id] = ("list", ("cat", s.norm(pos[1].e) + s.norm(o[1][1]), s.new_gap("#")[1]), o[2])
                return [(s, None)]
            s.heap[ref.id] = ("list", ("any",), ())
            return [(s, None)]
        if name == "pop" and not rest:
            i = pos[0] if pos else -1
            if isinstance(i, int):
                if o[1] is None:
                    if -len(o[2]) <= i < len(o[2]):
                        items = list(o[2])
                        v = items.pop(i)
                        s.heap[ref.id] = ("list", None, tuple(items))
                        return [(s, v)]
                    return [(s, self.exc("IndexError", node, ctx))]
                if i == -1 and o[2]:
                    s.heap[ref.id] = ("list", o[1], o[2][:-1])
                    return [(s, o[2][-1])]
            self.unsup("list.pop on a smashed list", node, ctx)
        if name == "copy":
            return [(s, s.alloc(o))]
        if name == "clear":
            s.heap[ref.id] = ("list", None, ())
            return [(s, None)]
        if name == "reverse" and o[1] is None and not rest:
            s.heap[ref.id] = ("list", None, o[2][::-1])
            return [(s, None)]
        if name == "index":
            cur, out = [s], []
            if o[1] is None and not rest:
                for i, x in enumerate(o[2]):
                    nxt = []
                    for q in cur:
                        for s2, t in self.eq(q, x, pos[0]):
                            (out.append((s2, i)) if t else nxt.append(s2))
                    cur = nxt
                return out + [(q, self.exc("ValueError", node, ctx)) for q in cur]
            return [(s, self.new_op(s, "int"))]
        if name == "count":
            return [(s, self.new_op(s, "int"))]
        if name in ("sort", "remove"):
            self.unsup("list.%s" % name, node, ctx)
        self.unsup("list.%s" % name, node, ctx)

    def by_position(self, st, x, f, absent, node):
        """One outcome per value of f(letter) for the letters the unknown letter x can be (per truth value, if that is all that is used)."""
        key = self.only_truth.get(node, lambda i: i)
        groups = {}
        for ch in st.classof(x):
            i = f(ch) if ch != OTHER else absent
            g = groups.setdefault(key(i), [i, set()])
            g[1].add(ch)
        self.stats["splits"] += len(groups) - 1
        out = []
        for i, chs in groups.values():
            n = st.set_class(x[1], frozenset(chs)) if len(groups) > 1 else st
            if n:
                out.append((n, i))
        return out

    def dict_method(self, st, ref, name, pos, kw, node, ctx):
        items = st.heap[ref.id][1]
        s = st.copy()
        if name == "get":
            out, cur = [], [st]
            for k, v in items:
                nxt = []
                for q in cur:
                    for s2, t in self.eq(q, k, pos[0]):
                        (out.append((s2, v)) if t else nxt.append(s2))
                cur = nxt
            return out + [(q, pos[1] if len(pos) > 1 else None) for q in cur]
        if name == "items":
            return [(s, s.alloc(("list", None, tuple(Tup(kv) for kv in items))))]
        if name == "keys":
            return [(s, s.alloc(("list", None, tuple(k for k, _ in items))))]
        if name == "values":
            return [(s, s.alloc(("list", None, tuple(v for _, v in items))))]
        if name == "copy":
            return [(s, s.alloc(("dict", items)))]
        if name == "setdefault":
            out, cur = [], [st]
            for k, v in items:
                nxt = []
                for q in cur:
                    for s2, t in self.eq(q, k, pos[0]):
                        (out.append((s2, v)) if t else nxt.append(s2))
                cur = nxt
            for q in cur:
                q = q.copy()
                q.heap[ref.id] = ("dict", q.heap[ref.id][1] + ((pos[0], pos[1]),))
                out.append((q, pos[1]))
            return out
        if name == "update":
            o2 = st.heap[pos[0].id] if isinstance(pos[0], Ref) else None
            if o2 and o2[0] == "dict":
                cur = [s]
                for k, v in o2[1]:
                    cur = [x for q in cur for x in self.dict_set(q, ref, k, v)]
                return [(q, None) for q in cur]
        self.unsup("dict.%s" % name, node, ctx)

    def set_method(self, st, ref, name, pos, kw, node, ctx):
        if name == "add":
            return [(s, None) for s in self.set_add(st, ref, pos[0])]
        self.unsup("set.%s" % name, node, ctx)

    def iter_method(self, st, ref, name, pos, kw, node, ctx):
        self.unsup("iterator method %s" % name, node, ctx)

    def const_method(self, st, o, name, pos, kw, node, ctx):
        if isinstance(o.v, dict):
            if name == "get":
                out = []
                d = pos[1] if len(pos) > 1 else None
                for s, v in self.index_const(st, o, pos[0], node, ctx):
                    out.append((s, d if isinstance(v, Raise) else v))
                return out
            if name in ("items", "keys", "values"):
                return [(st, K([tuple(x) if isinstance(x, tuple) else x for x in getattr(o.v, name)()]))]
        if name in ("copy",):
            return [(st, o)]
        if name in ("index", "count"):
            return [(st, self.new_op(st, "int"))]
        if name in ("append", "extend", "insert", "update", "setdefault", "pop", "add", "clear", "remove", "sort"):
            self.unsup("mutation of a module-level constant (.%s)" % name, node, ctx)
        self.unsup("method %s of a constant" % name, node, ctx)

    # ------------------------------------------------------------------ builtins
    def bi_len(self, st, pos, kw, node, ctx):
        v = self.res(st, pos[0])
        if self.is_choice(st, v):
            return [r for s, (c,) in self.concretise(st, (v,)) for r in self.bi_len(s, [c], kw, node, ctx)]
        if isinstance(v, S):
            return [(st, st.length(v.e))]
        if isinstance(v, Tup):
            return [(st, len(v.items))]
        if isinstance(v, K):
            return [(st, len(v.v))]
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o[0] == "list":
                n = len(o[2])
                if len(o) > 3 and o[3] is not None:
                    n = lin_add(n, st.length((("g", o[3][3]),)))
                if o[1] is not None:
                    if o[1][0] == "cat":
                        n = lin_add(n, st.length((("g", o[1][2]),)))
                    else:
                        st = st.copy()
                        u = self.new_op(st, "int")
                        st.facts[("rng", u.id)] = (0, None)
                        n = lin_add(n, self.to_lin(st, u))
                return [(st, st.nlin(n) if isinstance(n, Lin) else n)]
            if o[0] in ("dict", "set"):
                return [(st, len(o[1]))]
        if isinstance(v, Op):
            s = st.copy()
            u = self.new_op(s, "int")
            s.facts[("rng", u.id)] = (0, None)
            return [(s, u)]
        return [(st, self.exc("TypeError", node, ctx))]

    def bi_bool(self, st, pos, kw, node, ctx):
        return self.truth(st, pos[0]) if pos else [(st, False)]

    def bi_int(self, st, pos, kw, node, ctx):
        v = self.res(st, pos[0]) if pos else 0
        if isinstance(v, bool):
            return [(st, int(v))]
        if isinstance(v, (int, Lin)):
            return [(st, v)]
        if isinstance(v, Op) and v.hint in ("bool", "int"):
            return [(s, int(c) if isinstance(c, bool) else c) for s, (c,) in self.concretise(st, (v,))]
        if isinstance(v, Op) and v.hint == "match":
            return [(st, self.exc("TypeError", node, ctx))]
        return [(st, self.new_op(st, "int"))]

    def bi_str(self, st, pos, kw, node, ctx):
        v = self.res(st, pos[0]) if pos else EMPTY
        if isinstance(v, S):
            return [(st, v)]
        if isinstance(v, (bool, int)) or v is None:
            return [(st, lit(str(v)))]
        s = st.copy()
        return [(s, S((s.new_gap(ALL),)))]

    bi_repr = bi_str

    def bi_list(self, st, pos, kw, node, ctx):
        s = st.copy()
        if not pos:
            return [(s, s.alloc(("list", None, ())))]
        v = self.res(s, pos[0])
        o = self.list_obj(s, v)
        if o is not None:
            return [(s, s.alloc(o))]
        if isinstance(v, S) and not any(x[0] == "g" for x in s.norm(v.e)):
            return [(s, s.alloc(("list", None, tuple(S((x,)) for x in s.norm(v.e)))))]
        if isinstance(v, S):
            return [(s, s.alloc(("list", ("cat", s.norm(v.e), s.new_gap("#")[1]), ())))]
        if isinstance(v, K):
            return [(s, s.alloc(("list", None, tuple(lift(x) for x in v.v))))]
        if isinstance(v, Ref) and s.heap[v.id][0] == "iter":
            acc = s.alloc(("list", None, ()))
            s.tmp = s.tmp + (acc,)

            def body(q, x):
                q = q.copy()
                oo = q.heap[acc.id]
                q.heap[acc.id] = oo[:2] + (oo[2] + (x,),) + oo[3:]
                return [(q, NEXT)]
            out = []
            for q, sig in self.loop_iter(s, v, body):
                q = q.copy()
                q.tmp = st.tmp
                out.append((q, acc))
            return out
        if isinstance(v, Op):
            return [(s, s.alloc(("list", ("any",), ())))]
        return [(st, self.exc("TypeError", node, ctx))]

    def bi_tuple(self, st, pos, kw, node, ctx):
        out = []
        for s, v in self.bi_list(st, pos, kw, node, ctx):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            q = self.as_seq(s, v)
            out.append((s, Tup(q[1]) if q is not None else v))
        return out

    def bi_set(self, st, pos, kw, node, ctx):
        s = st.copy()
        r = s.alloc(("set", ()))
        if not pos:
            return [(s, r)]
        o = self.list_obj(s, pos[0])
        if isinstance(pos[0], S) and not any(x[0] == "g" for x in s.norm(pos[0].e)):
            o = ("list", None, tuple(S((x,)) for x in s.norm(pos[0].e)))
        if isinstance(pos[0], K):
            return [(s, K(set(pos[0].v)))]
        if o is None or o[1] is not None:
            return [(s, self.new_op(s, "any"))]
        cur = [s]
        for x in o[2]:
            cur = [q2 for q in cur for q2 in self.set_add(q, r, x)]
        return [(q, r) for q in cur]

    bi_frozenset = bi_set

    def bi_dict(self, st, pos, kw, node, ctx):
        s = st.copy()
        items = tuple((lit(k), v) for k, v in kw.items())
        if pos:
            if isinstance(pos[0], Ref) and s.heap[pos[0].id][0] == "dict":
                items = s.heap[pos[0].id][1] + items
            else:
                q = self.as_seq(s, pos[0])
                if q is None or not all(isinstance(x, Tup) and len(x.items) == 2 for x in q[1]):
                    self.unsup("dict()", node, ctx)
                items = tuple(x.items for x in q[1]) + items
        return [(s, s.alloc(("dict", items)))]

    def bi_range(self, st, pos, kw, node, ctx):
        out = []
        for s, vals in self.concretise(st, tuple(pos)):
            a = [self.res(s, v) for v in vals]
            start, end, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            if not isinstance(step, int) or step == 0:
                self.unsup("range step", node, ctx)
            s = s.copy()
            if isinstance(start, int) and isinstance(end, int) and abs(end - start) <= 64:
                out.append((s, s.alloc(("list", None, tuple(range(start, end, step))))))
            else:
                out.append((s, s.alloc(("iter", "range", start, end, step))))
        return out

    def bi_enumerate(self, st, pos, kw, node, ctx):
        out = []
        start = pos[1] if len(pos) > 1 else kw.get("start", 0)
        for s, ir in self.make_iter(st, pos[0], node, ctx):
            if isinstance(ir, Raise):
                out.append((s, ir))
            else:
                s = s.copy()
                out.append((s, s.alloc(("iter", "enum", ir, start))))
        return out

    def bi_zip(self, st, pos, kw, node, ctx):
        cur = [(st, ())]
        out = []
        for p in pos:
            nxt = []
            for s, acc in cur:
                for s2, ir in self.make_iter(s, p, node, ctx):
                    (out.append((s2, ir)) if isinstance(ir, Raise) else nxt.append((s2, acc + (ir,))))
            cur = nxt
        for s, acc in cur:
            s = s.copy()
            out.append((s, s.alloc(("iter", "zip", Tup(acc)))))
        return out

    def bi_iter(self, st, pos, kw, node, ctx):
        return self.make_iter(st, pos[0], node, ctx)

    def bi_next(self, st, pos, kw, node, ctx):
        out = []
        if not isinstance(pos[0], Ref) or st.heap[pos[0].id][0] != "iter":
            # a generator already evaluated to a list
            q = self.as_seq(st, pos[0])
            if q is None:
                self.unsup("next()", node, ctx)
            if q[1]:
                return [(st, q[1][0])]
            return [(st, pos[1] if len(pos) > 1 else self.exc("StopIteration", node, ctx))]
        for s, v in self.step_iter(st, pos[0]):
            if v is Stop:
                out.append((s, pos[1] if len(pos) > 1 else self.exc("StopIteration", node, ctx)))
            else:
                out.append((s, v))
        return out

    def bi_reversed(self, st, pos, kw, node, ctx):
        v = pos[0]
        if isinstance(v, S):
            e = st.norm(v.e)
            s = st.copy()
            return [(s, s.alloc(("iter", "str", e[::-1])))]    # (a gap reversed is still only its class)
        q = self.as_seq(st, v)
        if q is None and isinstance(v, K):
            q = (0, tuple(lift(x) for x in v.v))
        s = st.copy()
        if q is None:
            return [(s, s.alloc(("list", ("any",), ())))]
        return [(s, s.alloc(("list", None, tuple(q[1][::-1]))))]

    def bi_sum(self, st, pos, kw, node, ctx):
        v = pos[0]
        start = pos[1] if len(pos) > 1 else kw.get("start", 0)
        q = self.as_seq(st, v)
        if q is None:
            if isinstance(v, Ref) and st.heap[v.id][0] == "iter":
                return [r for s, l in self.bi_list(st, [v], {}, node, ctx) for r in self.bi_sum(s, [l, start], {}, node, ctx)]
            return [(st, self.new_op(st, "int"))]
        out = []
        for s, vals in self.concretise(st, q[1] + (start,)):
            acc = 0
            for x in vals:
                if isinstance(x, (Tup, S)) or x is None:
                    return [(st, self.exc("TypeError", node, ctx))]
                acc = lin_add(acc, self.to_lin(s, x))
            out.append((s, acc))
        return out

    def minmax(self, st, pos, kw, node, ctx, lt):
        items = pos
        if len(pos) == 1:
            q = self.as_seq(st, pos[0])
            if q is None and isinstance(pos[0], K):
                q = (0, tuple(lift(x) for x in pos[0].v))
            if q is None:
                if isinstance(pos[0], Ref) and st.heap[pos[0].id][0] == "iter":
                    return [r for s, l in self.bi_list(st, pos, {}, node, ctx) for r in self.minmax(s, [l], kw, node, ctx, lt)]
                return [(st, self.new_op(st, "any"))]
            items = list(q[1])
            if not items:
                return [(st, kw["default"] if "default" in kw else self.exc("ValueError", node, ctx))]
        key = kw.get("key")
        cur = []
        out = []
        states = [(st, None, None, 0)]
        for i, x in enumerate(items):
            nxt = []
            for s, best, bk, _ in states:
                ks = self.call(s, key, [x], {}, node, ctx) if key is not None else [(s, x)]
                for s2, k in ks:
                    if isinstance(k, Raise):
                        out.append((s2, k))
                        continue
                    if i == 0:
                        nxt.append((s2, x, k, 0))
                        continue
                    for s3, t in self.compare(ast.Lt() if lt else ast.Gt(), s2, k, bk, node, ctx):
                        if isinstance(t, Raise):
                            out.append((s3, t))
                        else:
                            nxt.append((s3, x, k, 0) if t else (s3, best, bk, 0))
            states = nxt
        return out + [(s, b) for s, b, _, _ in states]

    def bi_min(self, st, pos, kw, node, ctx):
        return self.minmax(st, pos, kw, node, ctx, True)

    def bi_max(self, st, pos, kw, node, ctx):
        return self.minmax(st, pos, kw, node, ctx, False)

    def bi_any(self, st, pos, kw, node, ctx, stop=True):
        out = []
        for s, ir in self.make_iter(st, pos[0], node, ctx):
            if isinstance(ir, Raise):
                out.append((s, ir))
                continue

            def body(q, v):
                return [(q2, ("got", t) if t == stop else NEXT) for q2, t in self.truth(q, v)]
            for s2, sig in self.loop_iter(s, ir, body):
                out.append((s2, stop if sig[0] == "got" else not stop))
        return out

    def bi_all(self, st, pos, kw, node, ctx):
        return self.bi_any(st, pos, kw, node, ctx, stop=False)

    def bi_abs(self, st, pos, kw, node, ctx):
        out = []
        for s, t in self.cmp_num(st, "<", pos[0], 0):
            out.append((s, lin_mul(self.to_lin(s, pos[0]), -1) if t else self.res(s, pos[0])))
        return out

    def bi_isinstance(self, st, pos, kw, node, ctx):
        v = self.res(st, pos[0])
        cls = [pos[1]] if isinstance(pos[1], Fn) else list((self.as_seq(st, pos[1]) or (0, ()))[1])
        names = [c.name for c in cls if isinstance(c, Fn)]
        if self.is_choice(st, v):
            return [r for s, (c,) in self.concretise(st, (v,)) for r in self.bi_isinstance(s, [c, pos[1]], kw, node, ctx)]
        if isinstance(v, S):
            return [(st, "str" in names)]
        if isinstance(v, bool):
            return [(st, "bool" in names or "int" in names)]
        if isinstance(v, (int, Lin)):
            return [(st, "int" in names)]
        if v is None:
            return [(st, False)]
        if isinstance(v, Tup):
            return [(st, "tuple" in names)]
        if isinstance(v, K):
            return [(st, type(v.v).__name__ in names)]
        if isinstance(v, Ref):
            return [(st, st.heap[v.id][0] in names)]
        if isinstance(v, ExcVal):
            return [(st, any(n in self.envs.exc_supers(v.cls) for n in names))]
        return [(st.copy(), True), (st.copy(), False)]

    def bi_type(self, st, pos, kw, node, ctx):
        return [(st, self.new_op(st, "any"))]

    def bi_sorted(self, st, pos, kw, node, ctx):
        q = self.as_seq(st, pos[0])
        if q is None and isinstance(pos[0], K):
            q = (0, tuple(lift(x) for x in pos[0].v))
        if q is not None and len(q[1]) <= 1:
            s = st.copy()
            return [(s, s.alloc(("list", None, q[1])))]
        if q is not None and len(q[1]) <= 6:
            # insertion by comparison
            key = kw.get("key")
            rev = kw.get("reverse", False)
            cur = [(st, ())]
            for x in q[1]:
                nxt = []
                for s, acc in cur:
                    ks = self.call(s, key, [x], {}, node, ctx) if key is not None else [(s, x)]
                    for s2, k in ks:
                        if isinstance(k, Raise):
                            nxt.append((s2, k))
                            continue
                        pend = [(s2, len(acc))]
                        while pend:
                            s3, i = pend.pop()
                            if i == 0:
                                nxt.append((s3, ((k, x),) + acc))
                                continue
                            for s4, t in self.compare(ast.Lt() if not rev else ast.Gt(), s3, k, acc[i - 1][0], node, ctx):
                                if t:
                                    pend.append((s4, i - 1))
                                else:
                                    nxt.append((s4, acc[:i] + ((k, x),) + acc[i:]))
                cur = nxt
            out = []
            for s, acc in cur:
                if isinstance(acc, Raise):
                    out.append((s, acc))
                else:
                    s = s.copy()
                    out.append((s, s.alloc(("list", None, tuple(x for _, x in acc)))))
            return out
        s = st.copy()
        return [(s, s.alloc(("list", ("any",), ())))]

    def bi_map(self, st, pos, kw, node, ctx):
        q = self.as_seq(st, pos[1])
        if q is None or len(pos) != 2:
            self.unsup("map()", node, ctx)
        cur, out = [(st, ())], []
        for x in q[1]:
            nxt = []
            for s, acc in cur:
                for s2, v in self.call(s, pos[0], [x], {}, node, ctx):
                    (out.append((s2, v)) if isinstance(v, Raise) else nxt.append((s2, acc + (v,))))
            cur = nxt
        for s, acc in cur:
            s = s.copy()
            out.append((s, s.alloc(("list", None, acc))))
        return out

    def bi_filter(self, st, pos, kw, node, ctx):
        q = self.as_seq(st, pos[1])
        if q is None:
            self.unsup("filter()", node, ctx)
        cur, out = [(st, ())], []
        for x in q[1]:
            nxt = []
            for s, acc in cur:
                for s2, v in (self.call(s, pos[0], [x], {}, node, ctx) if pos[0] is not None else [(s, x)]):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                        continue
                    for s3, t in self.truth(s2, v):
                        nxt.append((s3, acc + (x,) if t else acc))
            cur = nxt
        for s, acc in cur:
            s = s.copy()
            out.append((s, s.alloc(("list", None, acc))))
        return out

    def bi_print(self, st, pos, kw, node, ctx):
        return [(st, None)]

    def bi_ord(self, st, pos, kw, node, ctx):
        return [(st, self.new_op(st, "int"))]

    # ------------------------------------------------------------------ harness intrinsics
    def ix_text(self, st, pos, kw, node, ctx):
        """Unknown text of unknown length over the given characters."""
        s = st.copy()
        cl = frozenset(self.pystr(s, pos[0])) if pos else ALL
        return [(s, S((s.new_gap(cl),)))]

    def ix_char(self, st, pos, kw, node, ctx):
        s = st.copy()
        cl = frozenset(self.pystr(s, pos[0])) if pos else ALL
        return [(s, S((s.new_char(cl),)))]

    def ix_anychar(self, st, pos, kw, node, ctx):
        s = st.copy()
        cl = ALL - (frozenset(self.pystr(s, pos[0])) if pos else frozenset())
        return [(s, S((s.new_char(cl),)))]

    def ix_choose(self, st, pos, kw, node, ctx):
        s = st.copy()
        vals = [self.pystr(s, p) if isinstance(p, S) else p for p in pos]
        if all(v is None or isinstance(v, (str, int, bool)) for v in vals):
            return [(s, self.new_op(s, "any" if not all(isinstance(v, bool) for v in vals) else "bool", dom=vals))]
        return [(s.copy(), p) for p in pos]

    def ix_pick(self, st, pos, kw, node, ctx):
        """Eager choice."""
        return [(st.copy(), p) for p in pos]

    def ix_flip(self, st, pos, kw, node, ctx):
        return [(st.copy(), True), (st.copy(), False)]

    def ix_unknown_bool(self, st, pos, kw, node, ctx):
        s = st.copy()
        return [(s, self.new_op(s, "bool", dom=(True, False)))]

    def ix_unknown_int(self, st, pos, kw, node, ctx):
        s = st.copy()
        o = self.new_op(s, "int")
        if len(pos) == 2:
            s.facts[("rng", o.id)] = (pos[0], pos[1])
        return [(s, o)]

    def ix_pieces(self, st, pos, kw, node, ctx):
        """A list of unknown many strings whose concatenation is the argument; the last one is not empty unless the text is."""
        s = st.copy()
        return [(s, s.alloc(("list", ("cat", s.norm(pos[0].e), s.new_gap("#")[1]), ())))]

    def ix_words(self, st, pos, kw, node, ctx):
        """choose among constant strings, as characters (relational)."""
        s = st.copy()
        words = [self.pystr(s, x) for x in (self.as_seq(s, pos[0]) or (0, [lift(w) for w in pos[0].v]))[1]]
        out = []
        for L in sorted({len(w) for w in words}):
            ws = [w for w in words if len(w) == L]
            n = st.copy()
            els = [n.new_char({w[i] for w in ws}) for i in range(L)]
            ids = [x[1] for x in els if x[0] == "v"]
            if ids:
                n = n.add_rel(ids, {tuple(w[i] for i, x in enumerate(els) if x[0] == "v") for w in ws})
            out.append((n, S(n.norm(tuple(els)))))
        return out

    def ix_require(self, st, pos, kw, node, ctx):
        return [(s, None if t else Raise("$infeasible")) for s, t in self.truth(st, pos[0])]

    def ix_infeasible(self, st, pos, kw, node, ctx):
        return [(st, Raise("$infeasible"))]

    def ix_check(self, st, pos, kw, node, ctx):
        rule = self.pystr(st, pos[1])
        out = []
        v = self.res(st, pos[0])
        self.obl[rule] = self.obl.get(rule, 0)
        if isinstance(v, Op) and not self.is_choice(st, v):
            raise Unsupported("obligation '%s' could not be decided (%r)" % (rule, v), node, ctx.mod)
        for s, t in self.truth(st, v):
            self.stats["obligations"] += 1
            self.obl[rule] += 1
            if t:
                out.append((s, None))
            elif self.feasible(s):
                extra = pos[2:]
                self.report(rule, s, node, ctx, extra)
                out.append((s, Raise("$infeasible")))
        return out

    def report(self, rule, st, node, ctx, extra=()):
        where = st.note[-1] if st.note else "%s:%d" % (ctx.mod.rel, node.lineno)
        key = (rule, where)
        if key in self.findings:
            self.findings[key].count += 1
            return
        f = Finding(rule, where, "harness %s" % (ctx.func.qual if ctx.func else "?"), self.witness(st, ctx))
        f.count = 1
        f.trace = st.note
        self.findings[key] = f

    def show_val(self, st, v, depth=0):
        v = self.res(st, v)
        if isinstance(v, S):
            out = []
            for x in st.norm(v.e):
                if x[0] == "c":
                    out.append(x[1])
                else:
                    cl = st.classof(x)
                    t = "".join(sorted(c for c in cl if c != OTHER)) if len(cl) <= 24 else "any" if len(cl) > 60 else "%d chars" % len(cl)
                    out.append("[%s]%s#%d" % (t, "*" if x[0] == "g" else "", x[1]))
            return '"' + "".join(out) + '"'
        if isinstance(v, Tup):
            return "(" + ", ".join(self.show_val(st, x, depth + 1) for x in v.items) + ")"
        if isinstance(v, Ref) and depth < 4:
            o = st.heap[v.id]
            if o[0] == "list":
                return "[" + ("... + " if o[1] is not None else "") + ", ".join(self.show_val(st, x, depth + 1) for x in o[2]) + "]"
            if o[0] == "dict":
                return "{" + ", ".join("%s: %s" % (self.show_val(st, a, depth + 1), self.show_val(st, b, depth + 1)) for a, b in o[1]) + "}"
            return o[0]
        if isinstance(v, Op):
            f = st.facts.get(v.id)
            return "one of %s" % (f[1],) if f and f[0] == "dom" else "unknown " + v.hint
        if isinstance(v, Lin):
            return repr(v)
        return repr(v)

    def witness(self, st, ctx):
        c = ctx
        out = {}
        while c is not None and c.fid is not None:
            for k, v in st.frames.get(c.fid, {}).items():
                if not isinstance(v, Fn):
                    out.setdefault(k, self.show_val(st, v))
            c = c.parent
        return out

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st, ctx):
        """Run a block from one state or a list of states -> list of (state, signal)."""
        cur, out = st if isinstance(st, list) else [st], []
        live, relax = None, 0
        if ctx.func is not None and not ctx.spec and isinstance(ctx.func.node, ast.FunctionDef):
            live = self.live_of(ctx.func.node).live
            relax = getattr(self, "relax_level", 0)
        for stmt in body:
            if not cur:
                break
            nxt = []
            m = getattr(self, "exs_" + type(stmt).__name__, None)
            if m is not None:
                self.tick()
                res = m(stmt, cur, ctx)
            else:
                res = [x for s in cur for x in self.exec(stmt, s, ctx)]
            for s2, sig in res:
                if sig is NEXT:
                    if live is not None and stmt in live:
                        fr = s2.frames[ctx.fid]
                        lv = live[stmt]
                        if any(n not in lv and n[0] != '$' for n in fr):
                            s2 = s2.copy()
                            s2.frames[ctx.fid] = {n: v for n, v in fr.items() if n in lv or n[0] == '$'}
                        if relax:
                            s2 = self.relax(s2, ctx, relax)
                    nxt.append(s2)
                else:
                    out.append((s2, sig))
            cur = self.dedupe(nxt)
            self.stats["states"] += len(cur)
            if self.prof is not None:
                pk = (ctx.mod.rel, stmt.lineno)
                o = self.prof.get(pk, (0, 0, 0))
                self.prof[pk] = (o[0] + 1, max(o[1], len(nxt)), max(o[2], len(cur)))
        return self.dedupe_sig(out) + [(s, NEXT) for s in cur]

    def exec(self, n, st, ctx):
        self.tick()
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self.unsup("statement %s" % type(n).__name__, n, ctx)
        return m(n, st, ctx)

    def ex_Pass(self, n, st, ctx):
        return [(st, NEXT)]

    ex_Global = ex_Nonlocal = ex_Pass

    def ex_Expr(self, n, st, ctx):
        return [(s, ("exc", v) if isinstance(v, Raise) else NEXT) for s, v in self.ev(n.value, st, ctx)]

    def ex_Assign(self, n, st, ctx):
        cur = []
        out = []
        for s, v in self.ev(n.value, st, ctx):
            if isinstance(v, Raise):
                out.append((s, ("exc", v)))
                continue
            todo = [(s, NEXT)]
            for t in n.targets:
                todo = [r for q, sig in todo for r in (self.assign(t, v, q, ctx) if sig is NEXT else [(q, sig)])]
            out += todo
        return out

    def ex_AnnAssign(self, n, st, ctx):
        if n.value is None:
            return [(st, NEXT)]
        out = []
        for s, v in self.ev(n.value, st, ctx):
            out += [(s, ("exc", v))] if isinstance(v, Raise) else self.assign(n.target, v, s, ctx)
        return out

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            s = st.copy()
            self.setvar(s, ctx, t.id, v)
            return [(s, NEXT)]
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.res(st, v)
            if isinstance(v, S) and any(True for _ in t.elts):
                out = []
                for s, e in self.ensure_left(st, v.e, len(t.elts) + 1):
                    if len(e) == len(t.elts) and not any(x[0] == "g" for x in e):
                        todo = [(s, NEXT)]
                        for x, y in zip(t.elts, e):
                            todo = [r for q, sig in todo for r in (self.assign(x, S((y,)), q, ctx) if sig is NEXT else [(q, sig)])]
                        out += todo
                    else:
                        out.append((s, ("exc", self.exc("ValueError", t, ctx))))
                return out
            q = self.as_seq(st, v)
            if q is None and isinstance(v, Op):
                s = st.copy()
                q = (0, tuple(self.new_op(s, "any") for _ in t.elts))
                st = s
            if q is None and isinstance(v, Ref) and st.heap[v.id][0] == "list":
                s = st.copy()
                q = (0, tuple(self.new_op(s, "any") for _ in t.elts))
                st = s
            if q is None:
                if v is None or isinstance(v, (int, Lin)):
                    return [(st, ("exc", self.exc("TypeError", t, ctx)))]
                self.unsup("unpacking %r" % (v,), t, ctx)
            items = q[1]
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            elts = t.elts
            if star is not None:
                k = len(items) - (len(elts) - 1)
                if k < 0:
                    return [(st, ("exc", self.exc("ValueError", t, ctx)))]
                s = st.copy()
                mid = s.alloc(("list", None, items[star:star + k]))
                st = s
                items = items[:star] + (mid,) + items[star + k:]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in elts]
            if len(items) != len(elts):
                return [(st, ("exc", self.exc("ValueError", t, ctx)))]
            todo = [(st, NEXT)]
            for x, y in zip(elts, items):
                todo = [r for s, sig in todo for r in (self.assign(x, y, s, ctx) if sig is NEXT else [(s, sig)])]
            return todo
        if isinstance(t, ast.Subscript):
            out = []
            nodes = [t.value] + ([] if isinstance(t.slice, ast.Slice) else [t.slice])
            for s, vals in self.ev_many(nodes, st, ctx, done=(v,)):
                if isinstance(vals, Raise):
                    out.append((s, ("exc", vals)))
                    continue
                v2, o = vals[0], vals[1]
                if isinstance(o, K):
                    self.unsup("assignment into a module-level constant", t, ctx)
                if not isinstance(o, Ref) or isinstance(t.slice, ast.Slice):
                    if isinstance(o, Op):
                        out.append((s, NEXT))
                        continue
                    self.unsup("item assignment", t, ctx)
                k = vals[2]
                if s.heap[o.id][0] == "dict":
                    out += [(q, NEXT) for q in self.dict_set(s, o, k, v2)]
                    continue
                for s2, (j,) in self.concretise(s, (k,)):
                    h = s2.heap[o.id]
                    s2 = s2.copy()
                    if isinstance(j, int) and h[1] is None and (len(h) < 4 or h[3] is None):
                        if -len(h[2]) <= j < len(h[2]):
                            items = list(h[2])
                            items[j] = v2
                            s2.heap[o.id] = ("list", None, tuple(items))
                            out.append((s2, NEXT))
                        else:
                            out.append((s2, ("exc", self.exc("IndexError", t, ctx))))
                    else:
                        s2.heap[o.id] = ("list", ("any",), ())
                        out.append((s2, NEXT))
            return out
        self.unsup("assignment target", t, ctx)

    def ex_AugAssign(self, n, st, ctx):
        out = []
        t = n.target
        load = ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else \
            ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t) if isinstance(t, ast.Subscript) else None
        if load is None:
            self.unsup("augmented assignment", n, ctx)
        for s, v in self.ev_many([load, n.value], st, ctx):
            if isinstance(v, Raise):
                out.append((s, ("exc", v)))
                continue
            a, b = v
            if isinstance(n.op, ast.Add) and isinstance(a, Ref) and s.heap[a.id][0] == "list":
                for s2, r in self.list_method(s, a, "extend", [b], {}, n, ctx):
                    out.append((s2, ("exc", r) if isinstance(r, Raise) else NEXT))
                continue
            if isinstance(a, K) and isinstance(n.op, ast.Add) and isinstance(a.v, list):
                self.unsup("in-place extension of a module-level constant", n, ctx)
            for s2, r in self.binop(n.op, s, a, b, n, ctx):
                out += [(s2, ("exc", r))] if isinstance(r, Raise) else self.assign(t, r, s2, ctx)
        return out

    def ex_Return(self, n, st, ctx):
        if n.value is None:
            return [(st, ("ret", None, n.lineno))]
        return [(s, ("exc", v) if isinstance(v, Raise) else ("ret", v, n.lineno)) for s, v in self.ev(n.value, st, ctx)]

    def branch(self, test, st, ctx):
        """-> (true states, false states, exceptional)"""
        T, F, X = [], [], []
        for s, v in self.ev(test, st, ctx):
            if isinstance(v, Raise):
                X.append((s, ("exc", v)))
                continue
            for s2, t in self.truth(s, v):
                (T if t else F).append(s2)
        return self.dedupe(T), self.dedupe(F), X

    def branch_all(self, test, states, ctx):
        T, F, X = [], [], []
        for s in states:
            t, f, x = self.branch(test, s, ctx)
            T += t
            F += f
            X += x
        return self.dedupe(T), self.dedupe(F), X

    def exs_If(self, n, states, ctx):
        T, F, out = self.branch_all(n.test, states, ctx)
        out = out + self.exec_block(n.body, T, ctx) if T else out
        out = out + self.exec_block(n.orelse, F, ctx) if F else out
        return self.dedupe_sig(out)

    def exs_While(self, n, states, ctx):
        self.stats["loops"] += 1
        out, seen, cur, k = [], Seen(self), list(states), 0
        exits = []
        while cur:
            new = []
            for s in cur:
                if k >= self.widen_after:
                    s = self.widen(s, k)
                if not seen.new(s):
                    self.stats["merged"] += 1
                    continue
                new.append(s)
            if not new:
                break
            nxt = []
            T, F, X = self.branch_all(n.test, new, ctx)
            out += X
            exits += F
            for s3, sig in self.exec_block(n.body, T, ctx) if T else []:
                if sig is NEXT or sig is CONT:
                    nxt.append(s3)
                elif sig is BRK:
                    out.append((s3, NEXT))
                else:
                    out.append((s3, sig))
            cur = self.dedupe(nxt)
            k += 1
            if k > 400:
                raise Budget("loop does not stabilise at %s:%d" % (ctx.mod.rel, n.lineno))
        exits = self.dedupe(exits)
        out += self.exec_block(n.orelse, exits, ctx) if n.orelse and exits else [(s, NEXT) for s in exits]
        return self.dedupe_sig(out)

    def exs_For(self, n, states, ctx):
        out, heads = [], []
        for st in states:
            for s, v in self.ev(n.iter, st, ctx):
                if isinstance(v, Raise):
                    out.append((s, ("exc", v)))
                    continue
                for s2, ir in self.make_iter(s, v, n.iter, ctx):
                    if isinstance(ir, Raise):
                        out.append((s2, ("exc", ir)))
                    else:
                        heads.append((s2, ir))

        def body(pairs):
            o, nx = [], []
            for q, x in pairs:
                for q2, sig in self.assign(n.target, x, q, ctx):
                    if sig is NEXT:
                        nx.append(q2)
                    else:
                        o.append((q2, sig))
            nx = self.dedupe(nx)
            return o + self.exec_block(n.body, nx, ctx) if nx else o

        done = []
        for s3, sig in self.loop_iter_all(heads, body) if heads else []:
            if sig is NEXT:
                done.append(s3)
            elif sig is BRK:
                out.append((s3, NEXT))
            else:
                out.append((s3, sig))
        done = self.dedupe(done)
        out += self.exec_block(n.orelse, done, ctx) if n.orelse and done else [(s, NEXT) for s in done]
        return self.dedupe_sig(out)

    def ex_Break(self, n, st, ctx):
        return [(st, BRK)]

    def ex_Continue(self, n, st, ctx):
        return [(st, CONT)]

    def ex_Raise(self, n, st, ctx):
        if n.exc is None:
            v = st.frames[ctx.fid].get("$exc")
            if v is None:
                self.unsup("bare raise outside a handler", n, ctx)
            return [(st, ("exc", Raise(v.cls, v.args, (ctx.mod.rel, n.lineno, ctx.func.qual))))]
        out = []
        for s, v in self.ev(n.exc, st, ctx):
            if isinstance(v, Raise):
                out.append((s, ("exc", v)))
            elif isinstance(v, ExcVal):
                out.append((s, ("exc", Raise(v.cls, v.args, (ctx.mod.rel, n.lineno, ctx.func.qual)))))
            elif isinstance(v, Fn) and v.name in self.envs.exc:
                out.append((s, ("exc", Raise(v.name, (), (ctx.mod.rel, n.lineno, ctx.func.qual)))))
            else:
                out.append((s, ("exc", self.exc("TypeError", n, ctx))))
        return out

    def handler_classes(self, h, st, ctx):
        if h.type is None:
            return ["BaseException"]
        res = []
        for s, v in self.ev(h.type, st, ctx):
            items = v.items if isinstance(v, Tup) else [v]
            for x in items:
                if not isinstance(x, Fn):
                    self.unsup("handler type", h, ctx)
                res.append(x.name)
        return res

    def exs_Try(self, n, states, ctx):
        out, normal, caught = [], [], {}
        for s, sig in self.exec_block(n.body, states, ctx):
            if sig[0] == "exc" and not sig[1].cls.startswith("$"):
                sup = self.envs.exc_supers(sig[1].cls)
                for h in n.handlers:
                    if any(c in sup for c in self.handler_classes(h, s, ctx)):
                        s = s.copy()
                        fr = dict(s.frames[ctx.fid])
                        ev = ExcVal(sig[1].cls, sig[1].args)
                        fr["$exc"] = ev
                        if h.name:
                            fr[h.name] = ev
                        s.frames[ctx.fid] = fr
                        caught.setdefault(id(h), []).append(s)
                        break
                else:
                    out.append((s, sig))
            elif sig is NEXT:
                normal.append(s)
            else:
                out.append((s, sig))
        for h in n.handlers:
            c = self.dedupe(caught.get(id(h), []))
            for s2, sg in self.exec_block(h.body, c, ctx) if c else []:
                s2 = s2.copy()
                s2.frames[ctx.fid] = {k: v for k, v in s2.frames[ctx.fid].items() if k != "$exc" and k != h.name}
                out.append((s2, sg))
        if n.orelse and normal:
            out += self.exec_block(n.orelse, normal, ctx)
        else:
            out += [(s, NEXT) for s in normal]
        if n.finalbody:
            groups = {}
            for s, sig in out:
                groups.setdefault(repr(sig), (sig, []))[1].append(s)
            res = []
            for sig, ss in groups.values():
                for s2, sg in self.exec_block(n.finalbody, ss, ctx):
                    res.append((s2, sig if sg is NEXT else sg))
            out = res
        return self.dedupe_sig(out)

    def ex_Assert(self, n, st, ctx):
        T, F, out = self.branch(n.test, st, ctx)
        return out + [(s, NEXT) for s in T] + [(s, ("exc", self.exc("AssertionError", n, ctx))) for s in F]

    def ex_FunctionDef(self, n, st, ctx):
        s = st.copy()
        self.setvar(s, ctx, n.name, Fn("def", n.name, (n._func, ctx)))
        return [(s, NEXT)]

    def ex_Import(self, n, st, ctx):
        s = st.copy()
        for a in n.names:
            self.setvar(s, ctx, a.asname or a.name.split(".")[0], Fn("mod", a.name if a.asname else a.name.split(".")[0]))
        return [(s, NEXT)]

    def ex_ImportFrom(self, n, st, ctx):
        e = {}
        self.envs.import_names(ctx.mod, n, e)
        s = st.copy()
        for a in n.names:
            nm = a.asname or a.name
            if a.name == "*":
                continue
            if nm not in e:
                return [(st, ("exc", self.exc("ImportError", n, ctx)))]
            self.setvar(s, ctx, nm, self.ent(e[nm], a.name, s))
        return [(s, NEXT)]

    def ex_Delete(self, n, st, ctx):
        s = st.copy()
        for t in n.targets:
            if not isinstance(t, ast.Name):
                self.unsup("del", n, ctx)
            fr = dict(s.frames[ctx.fid])
            fr.pop(t.id, None)
            s.frames[ctx.fid] = fr
        return [(s, NEXT)]

    def ex_Match(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.subject, st, ctx):
            if isinstance(v, Raise):
                out.append((s, ("exc", v)))
                continue
            cur = [s]
            for c in n.cases:
                nxt = []
                for q in cur:
                    for q2, t in self.pattern(c.pattern, v, q, ctx):
                        if t and c.guard is not None:
                            T, F, X = self.branch(c.guard, q2, ctx)
                            out += X
                            nxt += F
                            for z in T:
                                out += self.exec_block(c.body, z, ctx)
                        elif t:
                            out += self.exec_block(c.body, q2, ctx)
                        else:
                            nxt.append(q2)
                cur = nxt
            out += [(q, NEXT) for q in cur]
        return self.dedupe_sig(out)

    def pattern(self, p, v, st, ctx):
        if isinstance(p, ast.MatchValue):
            return [r for s, w in self.ev(p.value, st, ctx) for r in self.eq(s, v, w)]
        if isinstance(p, ast.MatchSingleton):
            return self.is_(st, v, p.value)
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, t in self.pattern(q, v, s, ctx):
                        (out.append((s2, True)) if t else nxt.append(s2))
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                s = st.copy()
                if p.name:
                    self.setvar(s, ctx, p.name, v)
                return [(s, True)]
            out = []
            for s, t in self.pattern(p.pattern, v, st, ctx):
                if t and p.name:
                    s = s.copy()
                    self.setvar(s, ctx, p.name, v)
                out.append((s, t))
            return out
        self.unsup("match pattern", p, ctx)

    # ------------------------------------------------------------------ running a harness
    def run(self, name):
        f = self.spec.funcs.get(name)
        if f is None:
            raise AnalysisBroken("harness %s is missing" % name)
        st = Store()
        root = Ctx(None, self.spec, f, None, frozenset())
        self.cur = name
        res = self.call_func(st, f, None, [], {}, f.node, root)
        bad = []
        for s, v in res:
            if isinstance(v, Raise) and v.cls != "$infeasible":
                bad.append((s, v))
        return res, bad
