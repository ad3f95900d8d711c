"""P04: the documented call shape of every public function: parameter order, defaults, exports, option values."""
from __future__ import annotations
import ast
from .base import Result, loc
from ..constfold import UNKNOWN
from ..model import AnalysisBroken

OPTS = [("y_hyphens", "STANDARD"), ("exp_rafsi_shapes", False), ("consonants", "CLUSTER"), ("glides", False), ("allow_mz", False)]
API = {
    "get_lujvo": [("tanru", None), ("generate_cmevla", False)] + OPTS,
    "get_lujvo_with_analytics": [("tanru", None), ("generate_cmevla", False)] + OPTS,
    "get_veljvo": [("lujvo", None)] + OPTS,
    "score_lujvo": [("lujvo", None)] + OPTS,
    "is_brivla": [("valsi", None)] + OPTS,
    "analyse_brivla": [("valsi", None)] + OPTS,
    "get_rafsi_indices": [("rafsi_list", None)],
}
EXC = ["DecompositionError", "InvalidClusterError", "NoLujvoFoundError", "NonLojbanCharacterError", "NotBrivlaError", "NotZihevlaError"]
CONSTANTS = ["GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO", "RAFSI", "CMEVLA", "STANDARD", "ALLOW_Y", "FORCE_Y", "CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"]
# inner functions that take the options: same defaults, so a direct caller gets the documented behaviour
INNER = ["get_lujvo_from_list", "get_rafsi_list_list", "combine", "jvokaha", "jvokaha_2", "check_zihevla_or_rafsi", "is_slinkuhi",
         "is_gismu_or_lujvo", "is_gismu", "is_valid_rafsi", "get_rafsi_for_rafsi", "selrafsi_list_from_rafsi_list"]
DEFAULTS = dict(OPTS + [("generate_cmevla", False)])


def check(tree, tier="quick"):
    r = Result("documented-call-shape")
    root = tree.pkg.mod("")
    env = tree.envs.env(root)
    n = 0
    for name, want in API.items():
        e = env.get(name)
        if e is None or e.kind != "func":
            r.add(name + ":export", root.rel + ":1", "the package does not export %s" % name)
            continue
        f = e.val
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = f.defaults()
        if a.vararg or a.kwarg:
            raise AnalysisBroken("%s takes *args or **kwargs: call shape not readable" % name)
        for i, (p, v) in enumerate(want):
            n += 1
            if i >= len(pos):
                r.add("%s:%s" % (name, p), f.where, "%s has no positional parameter %s at place %d" % (name, p, i + 1))
                continue
            if pos[i] != p:
                r.add("%s:%s" % (name, p), f.where, "parameter %d of %s is %s, documented as %s" % (i + 1, name, pos[i], p))
                continue
            if p in [x.arg for x in a.posonlyargs]:
                r.add("%s:%s" % (name, p), f.where, "parameter %s of %s cannot be passed by name" % (p, name))
            if i == 0:
                if p in d:
                    continue
            else:
                got = tree.envs.fold(d[p], tree.envs.env(f.mod)) if p in d else "<no default>"
                if got is UNKNOWN or got != v or type(got) is not type(v):
                    r.add("%s:%s" % (name, p), f.where, "default of %s in %s is %r, documented as %r" % (p, name, got, v))
        for p in pos[len(want):] + [x.arg for x in a.kwonlyargs]:
            if p not in d:
                r.add("%s:%s" % (name, p), f.where, "%s needs an undocumented argument %s" % (name, p))
    for x in EXC:
        n += 1
        e = env.get(x)
        if e is None or e.kind != "class":
            r.add("export:" + x, root.rel + ":1", "the package does not export exception %s" % x)
        else:
            sup = tree.envs.exc_supers(x)
            if "Exception" not in sup or len([y for y in sup if y in EXC]) > 1:
                r.add("class:" + x, root.rel + ":1", "%s derives from %s: catching one documented error would catch another" % (x, sup[1:]))
    tarmi = tree.envs.env(tree.pkg.mod("tarmi"))
    for c in CONSTANTS:
        n += 1
        e = tarmi.get(c)
        if e is None or e.kind != "const":
            raise AnalysisBroken("constant %s of tarmi.py cannot be folded" % c)
        if e.val != c:
            r.add("constant:" + c, tree.pkg.mod("tarmi").rel, "constant %s is %r, documented as %r" % (c, e.val, c))
    for name in INNER:
        f = tree.pkg.find(name)
        for p, dflt in f.defaults().items():
            if p in DEFAULTS:
                n += 1
                got = tree.envs.fold(dflt, tree.envs.env(f.mod))
                if got is UNKNOWN or got != DEFAULTS[p] or type(got) is not type(DEFAULTS[p]):
                    r.add("%s:%s" % (name, p), f.where, "default of %s in %s is %r, documented as %r" % (p, name, got, DEFAULTS[p]))
    r.count(entry_points=len(API), obligations=n, inner_functions=len(INNER))
    return r
