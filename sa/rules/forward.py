"""P03: a caller's option reaches every inner step that has that option.

For every internal call whose callee takes one of the six options, the argument bound to it must be the option
value the calling function itself received (through aliases, helper parameters, option dictionaries and closures).
A function introduced between two reviewed functions is judged on behalf of the reviewed functions that reach it.
"""
from __future__ import annotations
import ast
from .base import Result, loc
from ..constfold import UNKNOWN
from ..model import AnalysisBroken

OPTIONS = ["generate_cmevla", "y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz"]

# (reviewed caller, callee, option) -> how many call sites pass something else, and why that is the design
# (the TypeScript and Rust ports make the same choice at the same call).
REVIEWED = {
    ("get_rafsi_list_list", "analyse_brivla", "consonants"): (3, "a component is analysed on its own; consonant rules apply to the whole lujvo"),
    ("get_rafsi_list_list", "analyse_brivla", "glides"): (3, "as for consonants"),
    ("check_zihevla_or_rafsi", "is_brivla", "exp_rafsi_shapes"): (2, "the remainder is tested as a plain word"),
    ("check_zihevla_or_rafsi", "is_brivla", "allow_mz"): (2, "the remainder is tested as a plain word"),
    ("analyse_brivla", "analyse_brivla", "exp_rafsi_shapes"): (1, "only the plain-lujvo verdict of the part is used"),
    ("analyse_brivla", "analyse_brivla", "consonants"): (1, "only the plain-lujvo verdict of the part is used"),
    ("analyse_brivla", "analyse_brivla", "glides"): (1, "only the plain-lujvo verdict of the part is used"),
    ("analyse_brivla", "jvokaha", "consonants"): (1, "tosmabru test uses the standard consonant rule"),
    ("analyse_brivla", "jvokaha", "glides"): (1, "tosmabru test uses the standard glide rule"),
    ("analyse_brivla", "is_valid_rafsi", "allow_mz"): (1, "tosmabru test of the remainder"),
    ("jvokaha", "get_lujvo_from_list", "generate_cmevla"): (1, "derived from the last letter of the word"),
}
KNOWN = ["score", "tiebreak", "process_tanru", "get_rafsi_for_rafsi", "get_rafsi_list_list", "combine", "update_current_best",
         "get_lujvo_from_list", "get_lujvo_with_analytics", "get_lujvo", "search_selrafsi_from_rafsi",
         "selrafsi_list_from_rafsi_list", "compare_lujvo_pieces", "jvokaha", "jvokaha_2", "score_lujvo", "get_veljvo",
         "normalise", "is_gismu_or_lujvo", "is_slinkuhi", "check_zihevla_or_rafsi", "is_brivla", "analyse_brivla",
         "get_rafsi_indices", "is_gismu", "is_valid_rafsi", "is_gismu_shape"]


class Forward:
    def __init__(self, tree):
        self.tree = tree
        self.callers = tree.callers()
        self.known = set(KNOWN)
        self.label_memo = {}

    def reassigned(self, f, name):
        """The parameter is rebound somewhere in its function."""
        for n in self.tree.own_nodes(f):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                return True
        return False

    def labels(self, f, e, depth=0):
        """What option value(s) an expression carries: set of option names and '?'."""
        if depth > 8:
            return {"?"}
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.all_params():
                    if self.reassigned(g, e.id):
                        return self.reassigned_labels(g, e.id, depth)
                    return self.param_labels(g, e.id, depth)
                stores = [n for n in self.tree.own_nodes(g) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)]
                if stores:
                    v = self.tree.single_value(g, e.id)
                    return self.labels(g, v, depth + 1) if v is not None else {"?"}
                g = g.parent
            return {"?"}
        if isinstance(e, ast.IfExp):
            return self.labels(f, e.body, depth + 1) | self.labels(f, e.orelse, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.labels(f, e.args[0], depth + 1)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            d = self.as_dict(f, e.value)
            if d is not None and e.slice.value in d:
                return self.labels(f, d[e.slice.value], depth + 1)
        return {"?"}

    def reassigned_labels(self, f, name, depth):
        """x = x / x = bool(x) keeps the value; anything else does not."""
        for n in self.tree.own_nodes(f):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                ok = False
                for m in self.tree.own_nodes(f):
                    if isinstance(m, ast.Assign) and len(m.targets) == 1 and m.targets[0] is n:
                        v = m.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "bool" and v.args:
                            v = v.args[0]
                        ok = isinstance(v, ast.Name) and v.id == name
                if not ok:
                    return {"?"}
        return self.param_labels(f, name, depth)

    def param_labels(self, f, name, depth):
        if name in OPTIONS and (f.qual in self.known or f.qual not in self.known):
            return {name}
        if f.qual in self.known:
            return {"?"}
        key = (f, name)
        if key in self.label_memo:
            return self.label_memo[key]
        self.label_memo[key] = set()
        out = set()
        for c in self.callers.get(f, ()):
            for call, g in self.tree.calls(c):
                if g is f:
                    b = self.bind(c, call, f)
                    out |= self.labels(c, b[name], depth + 1) if name in b and b[name] is not None else {"?"}
        self.label_memo[key] = out or {"?"}
        return self.label_memo[key]

    def as_dict(self, f, e, depth=0):
        """str -> expression for an option dictionary, None when it is not one."""
        if depth > 4:
            return None
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.as_dict(f, v, depth + 1)
                    if d is None:
                        return None
                    out.update(d)
                elif isinstance(k, ast.Constant):
                    out[k.value] = v
                else:
                    return None
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict":
            out = {}
            for a in e.args:
                d = self.as_dict(f, a, depth + 1)
                if d is None:
                    return None
                out.update(d)
            for k in e.keywords:
                if k.arg is None:
                    d = self.as_dict(f, k.value, depth + 1)
                    if d is None:
                        return None
                    out.update(d)
                else:
                    out[k.arg] = k.value
            return out
        if isinstance(e, ast.Name):
            v = self.tree.single_value(f, e.id)
            if v is not None:
                return self.as_dict(f, v, depth + 1)
        return None

    def as_tuple(self, f, e):
        if isinstance(e, ast.Name):
            e = self.tree.single_value(f, e.id)
        return list(e.elts) if isinstance(e, (ast.Tuple, ast.List)) else None

    def bind(self, f, call, g):
        """param -> expression, or None where nothing is passed; missing key: cannot be told."""
        pos = g.params()
        out = {p: None for p in g.all_params()}
        i, open_star = 0, False
        for a in call.args:
            if isinstance(a, ast.Starred):
                t = self.as_tuple(f, a.value)
                if t is None:
                    open_star = True
                    break
                for x in t:
                    if i < len(pos):
                        out[pos[i]] = x
                    i += 1
            else:
                if i < len(pos):
                    out[pos[i]] = a
                i += 1
        if open_star:
            for p in pos[i:]:
                out[p] = ast.Constant(Ellipsis)
        for k in call.keywords:
            if k.arg is not None:
                out[k.arg] = k.value
            else:
                d = self.as_dict(f, k.value)
                if d is None:
                    # **kwargs of the caller: every option arrives under its own name
                    for p in out:
                        if out[p] is None and p in OPTIONS:
                            out[p] = ast.Constant(Ellipsis)
                else:
                    out.update(d)
        return out

    def owners(self, f, seen=None):
        """Reviewed functions on whose behalf f runs."""
        g = f
        while g.parent is not None and g.qual not in self.known:
            g = g.parent
        if g.qual in self.known:
            return {g.qual}
        seen = seen or set()
        if g in seen:
            return set()
        seen.add(g)
        out = set()
        for c in self.callers.get(f, set()) | self.callers.get(g, set()):
            out |= self.owners(c, seen)
        return out


def has_option(tree, f, s):
    g = f
    while g is not None:
        if s in g.all_params():
            return True
        g = g.parent
    return False


def check(tree, tier="quick"):
    r = Result("option-forwarded")
    tree.require(*KNOWN)
    fw = Forward(tree)
    sites = obligations = 0
    off = {}
    for f in tree.funcs:
        for call, g in tree.calls(f):
            opts = [p for p in g.all_params() if p in OPTIONS]
            if not opts:
                continue
            sites += 1
            own = fw.owners(f)
            b = fw.bind(f, call, g)
            for s in opts:
                # reviewed functions, on whose behalf the call is made, that have the option themselves
                resp = [o for o in own if has_option(tree, tree.pkg.find(o), s)]
                if not resp:
                    continue
                obligations += 1
                e = b.get(s)
                if isinstance(e, ast.Constant) and e.value is Ellipsis:
                    continue        # forwarded wholesale
                lab = {"?"} if e is None else fw.labels(f, e)
                if lab != {s}:
                    for o in resp:
                        tgt = g.qual
                        off.setdefault((o, tgt, s), []).append((f, call, e, lab))
    used = 0
    for (o, g, s), hits in sorted(off.items()):
        n, why = REVIEWED.get((o, g, s), (0, ""))
        wrong = [h for h in hits if h[2] is not None and h[3] - {"?"} and h[3] != {s}]
        if len(hits) > n or wrong:
            for f, call, e, lab in (wrong or hits):
                how = "is not passed" if e is None else "receives something other than the caller's own value (%s)" % ast.unparse(e)
                r.add("%s->%s:%s" % (o, g, s), loc(f, call), "%s calls %s: option %s %s (%d such calls, %d reviewed)" % (f.qual, g, s, how, len(hits), n))
        else:
            used += len(hits)
    # a helper with an option-named parameter must receive that very option
    r.count(call_sites=sites, obligations=obligations, reviewed_exceptions_used=used)
    if sites < 20:
        raise AnalysisBroken("only %d calls take options; the rule expects at least 20" % sites)
    return r
