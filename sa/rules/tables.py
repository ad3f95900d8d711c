"""P05/P06/P07: the linguistic tables, read from the declarations of all four code bases.

Python tables are folded from the module's syntax tree; TypeScript, published JavaScript and Rust tables are read
with a token scanner of the declaration that binds the table's name.
"""
from __future__ import annotations
import os
import re
from .base import Result
from ..model import AnalysisBroken

CLUSTERS = ["VALID", "MZ_VALID", "INITIAL", "ZIHEVLA_INITIAL", "BANNED_TRIPLES", "START_VOWEL_CLUSTERS", "FOLLOW_VOWEL_CLUSTERS", "HYPHENS"]
PYNAME = {"ZIHEVLA_INITIAL": "ZIhEVLA_INITIAL"}
V, C = "aeiou", "bcdfgjklmnprstvxz"

TOK = re.compile(r"""//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\\n])*'|`[^`]*`|'[A-Za-z_]\w*\b|[A-Za-z_$][\w$]*|\S""", re.S)


def tokens(src, rust):
    out = []
    for m in TOK.finditer(src):
        t = m.group(0)
        if t.startswith("//") or t.startswith("/*"):
            continue
        if rust and t[0] == "'" and (len(t) < 3 or t[-1] != "'"):
            continue            # lifetime
        line = src.count("\n", 0, m.start()) + 1
        out.append((t, line))
    return out


def unquote(t):
    return re.sub(r"\\(.)", r"\1", t[1:-1])


def is_str(t):
    return t[0] in "\"'`" and len(t) >= 2 and t[-1] == t[0]


class Source:
    def __init__(self, repo, rel):
        self.rel = rel
        path = os.path.join(repo, rel)
        if not os.path.exists(path):
            raise AnalysisBroken(rel + " is gone")
        with open(path, encoding="utf-8") as f:
            self.rust = rel.endswith(".rs")
            src = f.read()
            if self.rust:
                src = re.sub(r"&'[a-z_]+\b", "&", src)
            self.toks = tokens(src, self.rust)

    def decl(self, name):
        """Tokens of the initialiser of the declaration binding `name`."""
        t = self.toks
        for i, (x, line) in enumerate(t):
            if x == name and i and t[i - 1][0] in ("const", "let", "var", "static"):
                j, depth = i + 1, 0
                while t[j][0] != "=" or t[j + 1][0] == "=":
                    j += 1
                k = j + 1
                while k < len(t) and not (depth == 0 and (t[k][0] == ";" or t[k][0] in ("const", "let", "var", "export", "function", "module"))):
                    if t[k][0] in "([{":
                        depth += 1
                    elif t[k][0] in ")]}":
                        depth -= 1
                    k += 1
                return t[j + 1:k], line
        raise AnalysisBroken("%s declares no %s" % (self.rel, name))

    def strings(self, name, alias):
        body, line = self.decl(alias.get(name, name))
        out = []
        rev = {alias.get(n, n): n for n in CLUSTERS}
        for x, _ in body:
            if is_str(x):
                out.append(unquote(x))
            elif x in rev and rev[x] != name:
                out += self.strings(rev[x], alias)[0]
        return out, line

    def dictionary(self, name):
        body, line = self.decl(name)
        pos = 0

        def nested():
            nonlocal pos
            out = []
            while pos < len(body):
                x = body[pos][0]
                pos += 1
                if x in "([":
                    out.append(nested())
                elif x in ")]":
                    return out
                elif is_str(x):
                    out.append(unquote(x))
            return out
        tree = nested()
        entries, dups = {}, []

        def walk(n):
            if isinstance(n, list):
                if len(n) == 2 and isinstance(n[0], str) and isinstance(n[1], list):
                    if n[0] in entries:
                        dups.append(n[0])
                    entries[n[0]] = n[1]
                else:
                    for x in n:
                        walk(x)
        walk(tree)
        return entries, dups, line


def py_table(tree, name):
    m = tree.pkg.mod("data")
    e = tree.envs.env(m).get(PYNAME.get(name, name))
    if e is None or e.kind != "const":
        raise AnalysisBroken("cannot fold %s of %s" % (name, m.rel))
    return list(e.val)


def py_dict(tree):
    m = tree.pkg.mod("rafsi")
    e = tree.envs.env(m).get("RAFSI_LIST")
    if e is None or e.kind != "const" or not isinstance(e.val, dict):
        raise AnalysisBroken("cannot fold RAFSI_LIST of " + m.rel)
    return e.val


def line_of(m, name):
    import ast
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name) and t.id == name:
                    return "%s:%d" % (m.rel, n.lineno)
    return m.rel


def check_agree(tree, tier="quick"):
    r = Result("tables-agree")
    repo = tree.pkg.repo
    alias = {"ZIHEVLA_INITIAL": "ZIhEVLA_INITIAL"}
    ports = [(Source(repo, "js/src/data.ts"), alias), (Source(repo, "js/docs/data.js"), alias), (Source(repo, "rs/src/data.rs"), {})]
    cmp_ = 0
    for name in CLUSTERS:
        base = py_table(tree, name)
        for s, al in ports:
            got, line = s.strings(name, al)
            cmp_ += 1
            miss, extra = sorted(set(base) - set(got)), sorted(set(got) - set(base))
            if miss or extra:
                r.add("%s:%s" % (s.rel, name), "%s:%d" % (s.rel, line),
                      "%s differs from %s: missing %s, extra %s" % (name, line_of(tree.pkg.mod("data"), PYNAME.get(name, name)), miss[:8], extra[:8]))
    base = py_dict(tree)
    n_entries = 0
    for rel, nm in (("js/src/rafsi.ts", "RAFSI_LIST"), ("js/docs/rafsi.js", "RAFSI_LIST"), ("rs/src/rafsi.rs", "RAFSI")):
        s = Source(repo, rel)
        got, dups, line = s.dictionary(nm)
        n_entries += len(got)
        for k in dups:
            r.add("%s:%s" % (rel, k), "%s:%d" % (rel, line), "word %s is listed twice" % k)
        for k in sorted(set(base) | set(got)):
            cmp_ += 1
            if k not in got or k not in base:
                r.add("%s:%s" % (rel, k), "%s:%d" % (rel, line), "word %s is only in %s" % (k, rel if k in got else "the Python table"))
            elif list(base[k]) != got[k]:
                r.add("%s:%s" % (rel, k), "%s:%d" % (rel, line), "rafsi of %s: %s, Python has %s" % (k, got[k], list(base[k])))
    if n_entries < 6000:
        raise AnalysisBroken("only %d rafsi entries read from the other ports" % n_entries)
    r.count(tables=len(CLUSTERS) + 1, ports=4, comparisons=cmp_, dictionary_entries_read=n_entries + len(base))
    return r


INITIAL_CLL = ("bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr sf sk sl sm sn sp sr st "
               "tc tr ts vl vr xl xr zb zd zg zm zv").split()


def permissible(p):
    """CLL 3.6: which consonant pairs are permissible."""
    a, b = p
    voiced, unvoiced, son = set("bdgvjz"), set("ptkfcsx"), set("lmnr")
    if a == b:
        return False
    if (a in voiced and b in unvoiced) or (a in unvoiced and b in voiced):
        return False
    if a in "cjsz" and b in "cjsz":
        return False
    return p not in ("cx", "kx", "xc", "xk", "mz")


def check_phono(tree, tier="quick"):
    r = Result("cluster-tables-follow-phonotactics")
    T = {n: py_table(tree, n) for n in CLUSTERS}
    m = tree.pkg.mod("data")

    def want(name, expected):
        got = T[name]
        miss, extra = sorted(set(expected) - set(got)), sorted(set(got) - set(expected))
        r.count(entries=len(got))
        if miss or extra:
            r.add(name, line_of(m, PYNAME.get(name, name)), "%s: missing %s, not permitted %s" % (name, miss[:10], extra[:10]))
    valid = [a + b for a in C for b in C if permissible(a + b)]
    want("VALID", valid)
    want("MZ_VALID", valid + ["mz"])
    want("INITIAL", INITIAL_CLL)
    want("BANNED_TRIPLES", ["ndj", "ndz", "ntc", "nts"])
    start = list(V) + ["ai", "ei", "oi", "au"]
    want("START_VOWEL_CLUSTERS", start)
    want("FOLLOW_VOWEL_CLUSTERS", [g + v for g in "iu" for v in start])
    want("HYPHENS", ["r", "n", "y", "'y", "y'", "'y'"])
    for p in T["ZIHEVLA_INITIAL"]:
        r.count(laws=1)
        if p not in INITIAL_CLL:
            r.add("ZIHEVLA_INITIAL:" + p, line_of(m, "ZIhEVLA_INITIAL"), "%s cannot end an initial triple: it is not an initial pair" % p)
    r.count(tables=len(CLUSTERS))
    return r


def shape(s):
    return "".join("V" if c in V else "C" if c in C else c for c in s)


def from_letters(w, x):
    """A gismu's short rafsi takes its letters in order (C1 C2 V may take the gismu's first or last vowel)."""
    y = x.replace("'", "")
    it = iter(w)
    if all(any(c == k for k in it) for c in y):
        return True
    return shape(x) == "CCV" and y[0] == w[0] and y[1] in w[2:4] and y[2] in (w[1], w[4])


def check_rafsi(tree, tier="quick"):
    r = Result("rafsi-dictionary-laws")
    d = py_dict(tree)
    m = tree.pkg.mod("rafsi")
    import ast
    where = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict):
            for k in n.keys:
                if isinstance(k, ast.Constant):
                    if k.value in where:
                        r.add("duplicate:" + str(k.value), "%s:%d" % (m.rel, k.lineno), "word %s is listed twice: the first entry is lost" % k.value)
                    where[k.value] = "%s:%d" % (m.rel, k.lineno)
    init, valid = set(py_table(tree, "INITIAL")), set(py_table(tree, "VALID"))
    owner, n = {}, 0
    for w, rs in d.items():
        at = where.get(w, m.rel)
        if not isinstance(w, str) or not w or any(c not in V + C + "'" for c in w.lower()):
            r.add("word:%s" % w, at, "dictionary word %r has non-Lojban letters" % w)
            continue
        if shape(w) in ("CVCCV", "CCVCV"):
            bad = w[2:4] not in valid if w[1] in V else w[:2] not in init
            if bad:
                r.add("word:" + w, at, "gismu %s has an impermissible cluster" % w)
        if not isinstance(rs, list):
            r.add("entry:" + w, at, "entry of %s is not a list" % w)
            continue
        for x in rs:
            n += 1
            if shape(x) not in ("CVC", "CVV", "CCV", "CV'V"):
                r.add("rafsi:%s" % x, at, "rafsi %s of %s has no CLL short-rafsi shape" % (x, w))
            elif shape(x) == "CCV" and x[:2] not in init:
                r.add("rafsi:%s" % x, at, "rafsi %s of %s starts with an impermissible pair" % (x, w))
            elif shape(x) == "CVV" and x[1:] not in ("ai", "ei", "oi", "au"):
                r.add("rafsi:%s" % x, at, "rafsi %s of %s has no diphthong" % (x, w))
            if x in owner and owner[x] != w or rs.count(x) > 1:
                r.add("rafsi:%s" % x, at, "rafsi %s is assigned to both %s and %s" % (x, owner.get(x), w))
            owner[x] = w
            if shape(w) in ("CVCCV", "CCVCV") and not from_letters(w, x):
                r.add("letters:%s" % x, at, "rafsi %s is not made of the letters of gismu %s in order" % (x, w))
    r.count(words=len(d), rafsi=n)
    if len(d) < 1300 or n < 1000:
        raise AnalysisBroken("only %d words and %d rafsi read" % (len(d), n))
    return r
