"""Which kind of word a string is: the classifier's stages, for words without y, and the predicates built on it."""
LETTERS = "abcdefgijklmnoprstuvxyz'"
CORE = "abcdefgijklmnoprstuvxz'"
CONS = list("bcdfgjklmnprstvxz")
VOWELS = list("aeiou")
CONFIG = {"check_plain": {"summaries": ["normalise", "is_gismu", "jvokaha", "check_zihevla_or_rafsi"]},
          "check_empty": {"summaries": ["normalise", "is_gismu", "jvokaha", "check_zihevla_or_rafsi"]},
          "check_is_brivla": {"summaries": ["analyse_brivla"]},
          "check_is_gismu_or_lujvo": {"summaries": ["is_gismu", "jvokaha"]}}


def model_normalise(word):
    return word[1:]


def model_is_gismu(valsi, allow_mz=False):
    check(allow_mz == "mz", "options-reach-stage")
    return valsi[0] == "g"


def model_jvokaha(lujvo, y_hyphens="STANDARD", consonants="CLUSTER", glides=False, allow_mz=False):
    check(y_hyphens == "FORCE_Y" and allow_mz == "mz", "options-reach-stage")
    if lujvo[0] == "l":
        return ["l", lujvo[1:]]
    if lujvo[0] == "k":
        raise InvalidClusterError("no")
    raise DecompositionError("no")


def model_check_zihevla_or_rafsi(s, require_zihevla=False, y_hyphens="STANDARD", exp_rafsi_shapes=False, allow_mz=False):
    check(require_zihevla == True, "only-zihevla-without-y")
    check(y_hyphens == "FORCE_Y" and exp_rafsi_shapes == "exp" and allow_mz == "mz", "options-reach-stage")
    if s[0] in ["z", "a"]:
        return "ZIhEVLA"
    raise NotZihevlaError("no")


def check_plain():
    """A word without y: gismu, else lujvo (or cmevla) if it decomposes, else zi'evla, else not a word."""
    w = pick(char(LETTERS), char(LETTERS) + text(CORE) + char(LETTERS))
    require("y" not in w)
    try:
        kind, parts = analyse_brivla("q" + w, "FORCE_Y", "exp", "ONE_CONSONANT", "glides", "mz")
        ok = True
    except NotBrivlaError:
        ok = False
        kind = ""
        parts = []
    name = w[-1] in CONS
    if not name and w[-1] not in VOWELS:
        check(not ok, "ends-in-consonant-or-vowel")
    elif w[0] == "g":
        check(ok == (not name), "gismu-recognised")
        check(name or kind == "GISMU" and parts == [w], "gismu-recognised")
    elif w[0] == "l":
        check(ok, "lujvo-recognised")
        check(kind == ("CMEVLA" if name else "LUJVO"), "cmevla-exactly-when-consonant-final")
        check(parts == ["l", w[1:]], "lujvo-pieces")
    elif w[0] in ["z", "a"] and not name:
        check(ok and kind == "ZIhEVLA" and parts == [w], "zihevla-recognised")
    else:
        check(not ok, "other-strings-refused")


def check_empty():
    try:
        analyse_brivla("q", "FORCE_Y", "exp", "ONE_CONSONANT", "glides", "mz")
        ok = True
    except NotBrivlaError:
        ok = False
    check(not ok, "empty-string-refused")


def model_analyse_brivla(valsi, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    check(y_hyphens == "FORCE_Y" and exp_rafsi_shapes == "exp" and consonants == "cons" and glides == "glides" and allow_mz == "mz", "options-reach-analysis")
    if valsi[0] == "g":
        return "GISMU", [valsi]
    if valsi[0] == "l":
        return "LUJVO", [valsi]
    if valsi[0] == "z":
        return "ZIhEVLA", [valsi]
    if valsi[0] == "e":
        return "EXTENDED_LUJVO", [valsi]
    if valsi[0] == "c":
        return "CMEVLA", [valsi]
    raise NotBrivlaError("no")


def check_is_brivla():
    w = char("glzecxa") + text(LETTERS)
    if flip():
        got = is_brivla(w, "FORCE_Y", "exp", "cons", "glides", "mz")
    else:
        got = is_brivla(w, y_hyphens="FORCE_Y", exp_rafsi_shapes="exp", consonants="cons", glides="glides", allow_mz="mz")
    check(got == (w[0] in ["g", "l", "z", "e"]), "brivla-exactly-the-four-kinds")


def check_is_gismu_or_lujvo():
    w = text(LETTERS)
    got = is_gismu_or_lujvo(w, y_hyphens="FORCE_Y", allow_mz="mz")
    if len(w) < 5:
        check(not got, "gismu-or-lujvo")
    elif w[-1] not in VOWELS:
        check(not got, "gismu-or-lujvo")
    elif w[0] == "g":
        check(got, "gismu-or-lujvo")
    elif w[0] == "k":
        check(not got, "gismu-or-lujvo")
    elif w[0] != "l":
        check(not got, "gismu-or-lujvo")
