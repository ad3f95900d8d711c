"""Abstract domain: strings over character classes, linear integers, heap objects, stores.

A string is a sequence of elements:
    ('c', ch)   a known character
    ('v', id)   one unknown character; the store bounds it by a character class
    ('g', id)   an unknown substring of unknown length; the store bounds its characters
Unknowns are shared between values, so the domain is relational: two values that
mention the same unknown denote overlapping text.  A store records, per unknown,
its class, a set of admissible tuples for related characters (cluster tables),
and its refinement when a test has looked inside it.
"""
from __future__ import annotations

OTHER = "\uffff"          # stands for every character outside ALPHA
ALPHA = ("abcdefghijklmnopqrstuvwxyz" "ABCDEFGHIJKLMNOPQRSTUVWXYZ" "0123456789" "'.,- _\t\n" + OTHER)
ALL = frozenset(ALPHA)


class Unsupported(Exception):
    """The analysis met a construct it has no transfer function for."""

    def __init__(self, msg, node=None, mod=None):
        self.node, self.mod = node, mod
        super().__init__(msg)


class Budget(Unsupported):
    pass


class S:
    __slots__ = ("e", "_h")

    def __init__(self, elems):
        self.e = tuple(elems)
        self._h = hash(("S", self.e))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, S) and self.e == o.e

    def __repr__(self):
        return "S" + show(self.e)


def lit(s):
    return S(tuple(("c", c) for c in s))


EMPTY = lit("")


def show(elems):
    out = []
    for k, x in elems:
        out.append(x if k == "c" else ("?%s" % x if k == "v" else "*%s" % x))
    return "<" + " ".join(out) + ">"


class Lin:
    """const + sum(coef * var); vars: ('len',g) ('cnt',g,c) ('ind',v,c) ('op',id)"""
    __slots__ = ("k", "t", "_h")

    def __init__(self, k, terms):
        self.k = k
        self.t = tuple(sorted((v, c) for v, c in terms if c != 0))
        self._h = hash((k, self.t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.t == o.t

    def __repr__(self):
        return "Lin(%r %r)" % (self.k, self.t)


def lin_parts(x):
    if isinstance(x, bool):
        return int(x), {}
    if isinstance(x, int):
        return x, {}
    return x.k, dict(x.t)


def mk_lin(k, d):
    d = {v: c for v, c in d.items() if c != 0}
    return Lin(k, d.items()) if d else k


def lin_add(a, b, sb=1):
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    d = dict(da)
    for v, c in db.items():
        d[v] = d.get(v, 0) + sb * c
    return mk_lin(ka + sb * kb, d)


def lin_mul(a, n):
    k, d = lin_parts(a)
    return mk_lin(k * n, {v: c * n for v, c in d.items()})


class Tup:
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("T", self.items))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items and list(map(type, self.items)) == list(map(type, o.items))

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(("R", self.id))

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __repr__(self):
        return "Ref(%s)" % (self.id,)


class Op:
    """Opaque value; hint in any/bool/int/str/list."""
    __slots__ = ("id", "hint")

    def __init__(self, id, hint="any"):
        self.id, self.hint = id, hint

    def __hash__(self):
        return hash(("O", self.id))

    def __eq__(self, o):
        return isinstance(o, Op) and o.id == self.id

    def __repr__(self):
        return "Op(%s:%s)" % (self.id, self.hint)


class Fn:
    """kind: 'def' (data = FuncInfo, frame id), 'builtin', 'method' (name, self), 'class', 'mod', 'hook'"""
    __slots__ = ("kind", "name", "data")

    def __init__(self, kind, name, data=None):
        self.kind, self.name, self.data = kind, name, data

    def __hash__(self):
        return hash((self.kind, self.name, id(self.data) if not isinstance(self.data, (S, Ref, Op, Tup, Lin)) else self.data))

    def __eq__(self, o):
        if not isinstance(o, Fn) or self.kind != o.kind or self.name != o.name:
            return False
        if isinstance(self.data, (S, Ref, Op, Tup, Lin)):
            return self.data == o.data
        if isinstance(self.data, tuple):
            return isinstance(o.data, tuple) and len(self.data) == len(o.data) and all(
                x is y or x == y for x, y in zip(self.data, o.data))
        return self.data is o.data

    def __repr__(self):
        return "Fn(%s %s)" % (self.kind, self.name)


class Raise:
    """An exception in flight."""
    __slots__ = ("cls", "args", "where")

    def __init__(self, cls, args=(), where=None):
        self.cls, self.args, self.where = cls, args, where

    def __repr__(self):
        return "Raise(%s @%s)" % (self.cls, self.where)


class ExcVal:
    """An exception object bound to a name."""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __hash__(self):
        return hash(("E", self.cls))

    def __eq__(self, o):
        return isinstance(o, ExcVal) and o.cls == self.cls and o.args == self.args

    def __repr__(self):
        return "ExcVal(%s)" % self.cls


# ---- heap objects (immutable tuples; replaced on mutation) -------------------
# ('list', prefix, items)      prefix: None | ('cat', elems) | ('any',)   -- smashed leading part
# ('dict', items)              items: tuple of (key, value)
# ('odict', tag)               opaque dict
# ('set', items)
# ('iter', kind, data)         iterator
# ('olist', tag)               opaque list
# ('frame', ((name, value), ...))


_PROJ = {}


def projections(rows):
    """The values of each column of a relation."""
    p = _PROJ.get(rows)
    if p is None:
        if len(_PROJ) > 20000:
            _PROJ.clear()
        n = len(next(iter(rows), ()))
        p = _PROJ[rows] = tuple(frozenset(t[j] for t in rows) for j in range(n))
    return p


class Store:
    __slots__ = ("cs", "gs", "sub", "rel", "heap", "frames", "stack", "tmp", "facts", "ctr", "note")

    def __init__(self):
        self.cs, self.gs, self.sub, self.rel = {}, {}, {}, {}
        self.heap, self.frames = {}, {}
        self.stack, self.tmp = (), ()
        self.facts = {}
        self.ctr = 0
        self.note = ()

    def copy(self):
        n = Store.__new__(Store)
        n.cs, n.gs, n.sub, n.rel = dict(self.cs), dict(self.gs), dict(self.sub), dict(self.rel)
        n.heap, n.frames = dict(self.heap), dict(self.frames)
        n.stack, n.tmp, n.facts, n.ctr, n.note = self.stack, self.tmp, dict(self.facts), self.ctr, self.note
        return n

    # -- creation
    def fresh(self):
        self.ctr += 1
        return self.ctr

    def new_char(self, cls=ALL):
        cls = frozenset(cls)
        if len(cls) == 1 and OTHER not in cls:
            return ("c", next(iter(cls)))
        i = self.fresh()
        self.cs[i] = cls
        return ("v", i)

    def new_gap(self, cls=ALL):
        i = self.fresh()
        self.gs[i] = frozenset(cls)
        return ("g", i)

    def alloc(self, obj):
        i = self.fresh()
        self.heap[i] = obj
        return Ref(i)

    # -- normalisation
    def norm(self, elems):
        sub = self.sub
        out = None
        for idx, x in enumerate(elems):
            if x[0] != "c" and x[1] in sub:
                if out is None:
                    out = list(elems[:idx])
                out.extend(self.norm(sub[x[1]]))
            elif out is not None:
                out.append(x)
        return tuple(elems) if out is None else tuple(out)

    def classof(self, el):
        if el[0] == "c":
            return frozenset((el[1],)) if el[1] in ALL else frozenset((el[1],))
        return self.cs[el[1]] if el[0] == "v" else self.gs[el[1]]

    def nlin(self, x):
        if not isinstance(x, Lin):
            return x
        sub, cs = self.sub, self.cs
        for v, _ in x.t:
            if v[0] == "op":
                continue
            if v[1] in sub or v[0] == "cnt":
                break
            if v[0] == "ind":
                cl = cs[v[1]]
                if len(cl) == 1 or v[2] not in cl:
                    break
        else:
            return x
        k, d = x.k, {}
        for v, c in x.t:
            if v[0] == "op":
                d[v] = d.get(v, 0) + c
                continue
            n = self._nvar(v)
            if isinstance(n, int):
                k += c * n
            else:
                k += c * n.k
                for w, m in n.t:
                    d[w] = d.get(w, 0) + c * m
        return mk_lin(k, d)

    def _nvar(self, v):
        if v[0] == "op":
            return Lin(0, [(v, 1)])
        if v[0] == "len":
            if v[1] in self.sub:
                return self.length(self.sub[v[1]])
            return Lin(0, [(v, 1)])
        if v[0] == "ind":
            if v[1] in self.sub:
                e = self.sub[v[1]][0]
                return self.count_elem(e, v[2])
            return self.count_elem(("v", v[1]), v[2])
        if v[1] in self.sub:
            acc = 0
            for e in self.norm(self.sub[v[1]]):
                acc = lin_add(acc, self.count_elem(e, v[2]))
            return acc
        return self.count_elem(("g", v[1]), v[2])

    def count_elem(self, e, ch):
        if e[0] == "c":
            return 1 if e[1] == ch else 0
        cl = self.classof(e)
        if ch not in cl:
            return 0
        if e[0] == "v":
            return 1 if len(cl) == 1 else Lin(0, [(("ind", e[1], ch), 1)])
        if len(cl) == 1:
            return Lin(0, [(("len", e[1]), 1)])
        return Lin(0, [(("cnt", e[1], ch), 1)])

    def length(self, elems):
        elems = self.norm(elems)
        k, d = 0, {}
        for x in elems:
            if x[0] == "g":
                v = ("len", x[1])
                d[v] = d.get(v, 0) + 1
            else:
                k += 1
        return mk_lin(k, d)

    # -- refinement (each returns a new store or None when empty)
    def set_class(self, i, cls):
        n = self.copy()
        return n if n._restrict(i, cls) else None

    def _restrict(self, i, cls):
        cls = frozenset(cls)
        if not cls:
            return False
        self.cs[i] = cls
        if len(cls) == 1 and OTHER not in cls:
            self.sub[i] = (("c", next(iter(cls))),)
        return self._filter_rels(i)

    def _filter_rels(self, changed=None):
        """Re-establish class/relation consistency."""
        work = True
        while work:
            work = False
            for key in list(self.rel):
                tuples = self.rel[key]
                if not tuples:
                    return False
                ps = projections(tuples)
                if not any(v in self.sub for v in key) and all(self.cs[v] == ps[j] for j, v in enumerate(key)):
                    continue
                keep = []
                cl = []
                for v in key:
                    if v in self.sub:
                        e = self.norm(self.sub[v])[0]
                        cl.append(frozenset((e[1],)) if e[0] == "c" else self.cs[e[1]])
                    else:
                        cl.append(self.cs[v])
                keep = [t for t in tuples if all(t[j] in cl[j] for j in range(len(key)))]
                if not keep:
                    return False
                resolved = [self.norm((("v", v),))[0] for v in key]
                if any(r != ("v", v) for r, v in zip(resolved, key)):
                    # re-key on the remaining unknowns
                    ids, rows = [], set()
                    for r in resolved:
                        if r[0] == "v" and r[1] not in ids:
                            ids.append(r[1])
                    for t in keep:
                        row, ok = {}, True
                        for r, ch in zip(resolved, t):
                            if r[0] == "v":
                                if row.setdefault(r[1], ch) != ch:
                                    ok = False
                        if ok:
                            rows.add(tuple(row[i] for i in ids))
                    if not rows:
                        return False
                    del self.rel[key]
                    work = True
                    if ids:
                        nk = tuple(ids)
                        if len(nk) == 1:
                            nc = self.cs[nk[0]] & {r[0] for r in rows}
                            if not nc:
                                return False
                            if nc != self.cs[nk[0]]:
                                self.cs[nk[0]] = nc
                                if len(nc) == 1 and OTHER not in nc:
                                    self.sub[nk[0]] = (("c", next(iter(nc))),)
                        else:
                            rows = frozenset(rows)
                            self.rel[nk] = rows & self.rel[nk] if nk in self.rel else rows
                    break
                if len(keep) != len(tuples):
                    self.rel[key] = frozenset(keep)
                for j, v in enumerate(key):
                    proj = frozenset(t[j] for t in keep)
                    if not self.cs[v] <= proj:
                        self.cs[v] = self.cs[v] & proj
                        work = True
                        if len(self.cs[v]) == 1 and OTHER not in self.cs[v]:
                            self.sub[v] = (("c", next(iter(self.cs[v]))),)
        return True

    def add_rel(self, ids, rows):
        n = self.copy()
        ids = tuple(ids)
        if len(ids) == 1:
            return n if n._restrict(ids[0], self.cs[ids[0]] & {r[0] for r in rows}) else None
        rows = frozenset(rows)
        n.rel[ids] = rows & n.rel[ids] if ids in n.rel else rows
        return n if n._filter_rels() else None

    def bind_gap(self, g, elems):
        n = self.copy()
        n.sub[g] = tuple(elems)
        return n

    def expand(self, g, left=True):
        """gap -> empty | one character plus a gap."""
        a = self.bind_gap(g, ())
        b = self.copy()
        c = b.new_char(self.gs[g])
        r = b.new_gap(self.gs[g])
        b.sub[g] = (c, r) if left else (r, c)
        return a, b

    def candidates(self, ids):
        """All assignments to the unknown characters `ids` the store admits (projection-exact per relation)."""
        ids = list(ids)
        rows = [()]
        rels = [(k, v) for k, v in self.rel.items() if any(i in k for i in ids)]
        for n, i in enumerate(ids):
            rows = [r + (c,) for r in rows for c in self.cs[i]]
            if len(rows) > 60000:
                raise Budget("character tuple product too large")
            have = ids[: n + 1]
            for k, tuples in rels:
                if i in k:
                    pos = [(j, have.index(v)) for j, v in enumerate(k) if v in have]
                    proj = {tuple(t[j] for j, _ in pos) for t in tuples}
                    rows = [r for r in rows if tuple(r[p] for _, p in pos) in proj]
        return rows
