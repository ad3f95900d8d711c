"""Rafsi shape classifier and word-shape predicates, for every string."""
ALL26 = "abcdefghijklmnopqrstuvwxyz'"
VOWELS = list("aeiou")
CONSONANTS = list("bcdfgjklmnprstvxz")


def is_c(x):
    return x in CONSONANTS


def is_v(x):
    return x in VOWELS


def want_shape(s):
    """The documented classification: what each letter must be, position by position."""
    n = len(s)
    if n == 1:
        if is_v(s[0]):
            return OTHER_RAFSI
        return HYPHEN
    if n == 2:
        if s == "'y":
            return HYPHEN
        return OTHER_RAFSI
    if n == 3:
        a, b, c = s[0], s[1], s[2]
        if is_c(a) and is_v(b) and is_c(c):
            return CVC
        if is_c(a) and is_c(b) and is_v(c):
            return CCV
        if is_c(a) and is_v(b) and is_v(c):
            return CVV
        return OTHER_RAFSI
    if n == 4:
        a, b, c, d = s[0], s[1], s[2], s[3]
        if is_c(a) and is_v(b) and is_c(c) and is_c(d):
            return CVCC
        if is_c(a) and is_c(b) and is_v(c) and is_c(d):
            return CCVC
        if is_c(a) and is_v(b) and c == "'" and is_v(d):
            return CVhV
        return OTHER_RAFSI
    if n == 5:
        a, b, c, d, e = s[0], s[1], s[2], s[3], s[4]
        if is_c(a) and is_v(b) and is_c(c) and is_c(d) and is_v(e):
            return CVCCV
        if is_c(a) and is_c(b) and is_v(c) and is_c(d) and is_v(e):
            return CCVCV
        return OTHER_RAFSI
    return OTHER_RAFSI


def of_length(n):
    s = ""
    for i in range(n):
        s += char()
    return s


def any_string():
    """Every string: each length up to five, and six or more."""
    n = pick(0, 1, 2, 3, 4, 5, 6)
    if n == 6:
        return of_length(6) + text()
    return of_length(n)


def check_tarmi():
    s = any_string()
    check(rafsi_tarmi(s) == want_shape(s), "shape-of-rafsi")


def check_gismu_shape():
    s = any_string()
    w = want_shape(s)
    check(is_gismu_shape(s) == (w == CVCCV or w == CCVCV), "gismu-shape")


def valid_pair(p, mz):
    if p == "mz":
        return mz
    return p in VALID


def check_gismu():
    s = any_string()
    mz = choose(True, False)
    w = want_shape(s)
    expected = False
    if w == CVCCV:
        expected = valid_pair(s[2:4], mz)
    elif w == CCVCV:
        expected = s[:2] in INITIAL
    check(is_gismu(s, allow_mz=mz) == expected, "gismu-iff-shape-and-cluster")


def check_valid_rafsi():
    s = any_string()
    mz = choose(True, False)
    w = want_shape(s)
    if w == CVCCV or w == CVCC:
        expected = valid_pair(s[2:4], mz)
    elif w == CCVCV or w == CCVC or w == CCV:
        expected = s[:2] in INITIAL
    else:
        expected = w == CVC or w == CVV or w == CVhV
    check(is_valid_rafsi(s, allow_mz=mz) == expected, "valid-rafsi-iff-shape-and-cluster")


def check_letters():
    c = char()
    check(is_vowel(c) == is_v(c), "vowel-letters")
    check(is_consonant(c) == is_c(c), "consonant-letters")


def check_glide():
    s = any_string()
    expected = False
    if len(s) >= 2:
        expected = (s[0] == "i" or s[0] == "u") and is_v(s[1])
    check(is_glide(s) == expected, "glide-is-i-or-u-before-vowel")


def check_lojban_characters():
    before = text("abcdefgijklmnoprstuvxz'")
    c = char()
    after = text("abcdefgijklmnoprstuvxz'")
    ok = is_c(c) or is_v(c) or c == "'"
    check(is_only_lojban_characters(before + c + after) == ok, "lojban-letters-only")
    check(not is_only_lojban_characters(""), "lojban-letters-only")


def check_contains_consonant():
    before = text("aehiouqwy'")
    c = char()
    s = before + c + text("aehiouqwy'")
    check(contains_consonant(s) == is_c(c), "contains-consonant")


def check_initial_cluster():
    n = pick(0, 1, 2, 3, 4)
    s = ""
    for i in range(n):
        s += char("bcdfgjklmnprstvxz")
    if n == 4:
        s += text("bcdfgjklmnprstvxz")
        check(not is_zihevla_initial_cluster(s), "initial-cluster")
    elif n == 3:
        check(is_zihevla_initial_cluster(s) == (s[:2] in INITIAL and s[1:] in ZIhEVLA_INITIAL), "initial-cluster")
    elif n == 2:
        check(is_zihevla_initial_cluster(s) == (s in INITIAL), "initial-cluster")
    else:
        check(is_zihevla_initial_cluster(s), "initial-cluster")


def check_strip():
    core = char("abcdefghijklmnopqrstuvwxz")
    if flip():
        core = char("abcdefghijklmnopqrstuvwxz") + text() + char("abcdefghijklmnopqrstuvwxz")
    s = text("'y") + core + text("'y")
    check(strip_hyphens(s) == core, "strip-only-edge-hyphens")
    check(tarmi_ignoring_hyphen(s) == rafsi_tarmi(core), "shape-ignoring-hyphens")
