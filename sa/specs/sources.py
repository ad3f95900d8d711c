"""Where rafsi come from: the dictionary in both directions, and the forms each tanru component may take."""
LETTERS = "abcdefgijklmnoprstuvxyz'"
CORE = "abcdefgijklmnoprstuvxz'"
CV = "abcdefgijklmnoprstuvxz"
CL = "bcdfgjklmnprstvxz"
VL = "aeiou"
CONS = list(CL)
stand_in_RAFSI_LIST = {"bacru": ["bac", "ba'u"], "broda": ["rod", "brod"], "brode": ["bo'e"], "datka": ["dat"], "gerku": [], "zi'evla": ["zev", "a'u"], "bu'a": ["bul"], "gacri": ["gai", "i'i"]}
CONFIG = {"check_search": {"summaries": [], "widen_after": 60},
          "*": {"widen_after": 60, "summaries": ["analyse_brivla", "jvokaha_2", "check_zihevla_or_rafsi", "get_rafsi_for_rafsi"]}}


def check_search():
    """The word that has the rafsi: by its list, or by the four letters it begins with."""
    n = pick(0, 2, 3, 4, 5)
    r = ""
    for i in range(n):
        r += char(LETTERS)
    if n == 5:
        r += text(LETTERS)
    got = search_selrafsi_from_rafsi(r)
    if got is None:
        for w, rs in stand_in_RAFSI_LIST.items():
            check(r not in rs, "known-rafsi-found")
            if len(r) == 4 and r != "brod":
                check(w[:4] != r or len(w) != 5, "stem-found")
    else:
        check(r in stand_in_RAFSI_LIST[got] or r != "brod" and len(r) == 4 and len(got) == 5 and got[:4] == r, "found-word-has-the-rafsi")


# ---------------------------------------------------------------- forms offered for a component
def model_analyse_brivla(valsi, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    check(y_hyphens == "FORCE_Y" and allow_mz == "mz", "options-reach-analysis")
    if valsi[0] == "g":
        return "GISMU", [valsi]
    if valsi[0] == "z":
        return "ZIhEVLA", [valsi]
    if valsi[0] == "l":
        return "LUJVO", [valsi]
    raise NotBrivlaError("no")


def model_jvokaha_2(lujvo, y_hyphens="STANDARD", allow_mz=False):
    check(y_hyphens == "FORCE_Y" and allow_mz == "mz", "options-reach-analysis")
    if lujvo[-1] == "k":
        return [lujvo]
    if lujvo[-1] == "t":
        raise InvalidClusterError("no")
    raise DecompositionError("no")


def model_check_zihevla_or_rafsi(s, require_zihevla=False, y_hyphens="STANDARD", exp_rafsi_shapes=False, allow_mz=False):
    check(not require_zihevla and exp_rafsi_shapes and y_hyphens == "FORCE_Y" and allow_mz == "mz", "experimental-shape-test")
    if s[0] == "u":
        return "RAFSI"
    if s[0] == "i":
        return "ZIhEVLA"
    raise NotZihevlaError("no")


def model_get_rafsi_for_rafsi(rafsi, r_type, is_first, is_last, consonants="CLUSTER", glides=False):
    return [((rafsi, r_type, is_first, is_last, consonants, glides), 0)]


def offered(comps, exp):
    return get_rafsi_list_list(comps, "FORCE_Y", exp, "cons", "glides", "mz")


def place(comp):
    """The component at some place of a tanru of one to three."""
    n = pick(1, 2, 3)
    at = pick(0, 1, 2)
    require(at < n)
    comps = []
    for i in range(n):
        comps.append(comp if i == at else "gacru")
    return comps, at, at == 0, at == n - 1


def same(got, want, first, last):
    check(len(got) == len(want), "exactly-its-rafsi-offered")
    for i in range(len(want)):
        g = got[i][0]
        check(g[0] == want[i][0] and g[1] == want[i][1], "exactly-its-rafsi-offered")
        check(g[2] == first and g[3] == last, "place-in-tanru")
        check(g[4] == "cons" and g[5] == "glides", "options-reach-forms")


def check_words():
    """A word offers its dictionary rafsi, and, if it is a gismu or zi'evla, its stem (gismu only) and itself."""
    w = pick("gacru", "gacri", "gerku", "broda", "zi'evla", "bu'a", char("glzb") + char(CORE) + text(CORE) + char(VL))
    exp = choose(True, False)
    comps, at, first, last = place(w)
    lists = offered(comps, exp)
    check(len(lists) == len(comps), "one-list-per-component")
    want = []
    table = {"bacru": ["bac", "ba'u"], "broda": ["rod", "brod"], "brode": ["bo'e"], "datka": ["dat"], "gerku": [], "zi'evla": ["zev", "a'u"], "bu'a": ["bul"], "gacri": ["gai", "i'i"]}
    for k in table:
        if w == k:
            for r in table[k]:
                if rafsi_tarmi(r) != OTHER_RAFSI or exp:
                    want.append((r, rafsi_tarmi(r)))
    if w[0] == "g":
        want.append((w[:-1], "SHORT BRIVLA"))
    if w[0] in ["g", "z"]:
        want.append((w, "LONG BRIVLA"))
    same(lists[at], want, first, last)


def check_word_letters():
    """Foreign letters are refused, in every kind of component."""
    bad = char("yqwh -.8")
    w = text(CORE) + bad + text(CORE)
    form = pick("w", "r", "s")
    if form == "w":
        require(bad != "-")
        comp = "g" + w + "a"
    elif form == "r":
        comp = "-g" + w + "a-"
    else:
        comp = "g" + w + "n-"
    comps, at, first, last = place(comp)
    try:
        offered(comps, choose(True, False))
        ok = True
    except NonLojbanCharacterError:
        ok = False
    check(not ok, "foreign-letter-refused")


def check_short_brivla():
    """xxx- stands for the stem of a gismu or zi'evla."""
    w = char("gzlb") + char(CORE) + char(CORE)
    if flip():
        w += char(CORE) + char(CORE) + text(CORE)
    w += char("aktr'")
    comps, at, first, last = place(w + "-")
    try:
        lists = offered(comps, choose(True, False))
    except NonLojbanCharacterError:
        check(w[-1] == "'", "good-component-not-refused")
        infeasible()
    except NoLujvoFoundError:
        check(w[0] in ["l", "b"] or len(w) >= 6 and w[-1] == "k", "good-component-not-refused")
        infeasible()
    check(w[-1] != "'", "rafsi-not-ending-in-apostrophe")
    check(w[0] in ["g", "z"], "stem-of-gismu-or-zihevla-only")
    check(not (len(w) >= 6 and w[-1] == "k"), "decomposable-stem-refused")
    check(len(lists) == len(comps), "one-list-per-component")
    same(lists[at], [(w, "SHORT BRIVLA")], first, last)


def check_rafsi():
    """-xxx- stands for just that rafsi: a CLL rafsi with a permitted pair, a zi'evla, or with the option an experimental shape."""
    n = pick(2, 3, 4, 5, 6)
    r = char("gzlbuia")
    for i in range(n - 1):
        r += char(CORE)
    if n == 6:
        r += text(CORE)
        r += char(CORE)
    exp = choose(True, False)
    comps, at, first, last = place("-" + r + "-")
    shape = rafsi_tarmi(r)
    end = r[-1]
    try:
        lists = offered(comps, exp)
    except NonLojbanCharacterError:
        check(end == "'", "good-component-not-refused")
        infeasible()
    except InvalidClusterError:
        check(shape != OTHER_RAFSI and not is_valid_rafsi(r, "mz"), "good-component-not-refused")
        infeasible()
    except NotZihevlaError:
        check(shape == OTHER_RAFSI and r[0] != "z", "good-component-not-refused")
        check(not (exp and r[0] == "u"), "good-component-not-refused")
        infeasible()
    except NoLujvoFoundError:
        check(shape == OTHER_RAFSI and exp and r[0] in ["a", "b"], "good-component-not-refused")
        infeasible()
    check(end != "'", "rafsi-not-ending-in-apostrophe")
    check(len(lists) == len(comps), "one-list-per-component")
    if shape != OTHER_RAFSI:
        check(is_valid_rafsi(r, "mz"), "rafsi-with-permitted-pair")
        same(lists[at], [(r, shape)], first, last)
    elif r[0] == "z":
        same(lists[at], [(r, "LONG BRIVLA")], first, last)
    else:
        check(exp and r[0] == "u", "experimental-rafsi-only-with-option")
        same(lists[at], [(r, "EXPERIMENTAL RAFSI")], first, last)
