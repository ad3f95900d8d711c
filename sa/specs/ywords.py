"""analyse_brivla on words held together by y, one harness per shape of the first unit."""
LETTERS = "abcdefgijklmnoprstuvxyz'"
CL = "bcdfgjklmnprstvxz"
VL = "aeiou"
CONS = list(CL)
VOWELS = list(VL)
KINDS = ["CVC", "CVV", "CVhV", "CCV", "V", "VhV", "GV", "CVCC", "CVCCVC", "CVVCVC", "CCVCV", "LONGV", "LONGC"]
CONFIG = {"*": {"widen_after": 40, "summaries": ["normalise", "jvokaha", "jvokaha_2", "check_zihevla_or_rafsi", "is_slinkuhi", "analyse_brivla"]}}


def model_normalise(s):
    return s


def model_is_slinkuhi(s, y_hyphens="STANDARD", allow_mz=False):
    return s[-1] == "e"


def clustered(s):
    for i in range(len(s) - 1):
        if s[i] in CONS and s[i + 1] in CONS:
            return True
    return False


def model_check_zihevla_or_rafsi(s, require_zihevla=False, y_hyphens="STANDARD", exp_rafsi_shapes=False, allow_mz=False):
    check(require_zihevla or exp_rafsi_shapes, "short-rafsi-shapes-only-with-option")
    if s[0] == "x":
        raise NotZihevlaError("no")
    if clustered(s):
        return "ZIhEVLA"
    if require_zihevla:
        raise NotZihevlaError("no")
    return "RAFSI"


def model_analyse_brivla(s, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    if s[0] == "l" and s[-1] == "a":
        return "LUJVO", [s]
    raise NotBrivlaError("no")


def model_jvokaha(s, y_hyphens="STANDARD", consonants="CLUSTER", glides=False, allow_mz=False):
    if s[0] == "t" and "y" not in s:
        return [s]
    raise DecompositionError("no")


def model_jvokaha_2(s, y_hyphens="STANDARD", allow_mz=False):
    if s[0] == "x":
        raise DecompositionError("no")
    if s[0] == "z" and len(s) > 4:
        if s[-1] == "a" and s[-2] == "k":
            return [s[:3], s[3:]]
        raise DecompositionError("no")
    if 1 <= rafsi_tarmi(s) and rafsi_tarmi(s) <= 8:
        return [s]
    if len(s) > 5:
        return [s[:3], s[3:]]
    raise DecompositionError("no")


def body(kind):
    if kind == "CVC":
        return char(CL) + char(VL) + char(CL)
    if kind == "CVV":
        return char(CL) + char(VL) + char(VL)
    if kind == "CVhV":
        return char(CL) + char(VL) + "'" + char(VL)
    if kind == "CCV":
        return char(CL) + char(CL) + char(VL)
    if kind == "V":
        return char(VL)
    if kind == "VhV":
        return char(VL) + "'" + char(VL)
    if kind == "GV":
        return char("iu") + char(VL)
    if kind == "CVCC":
        return char(CL) + char(VL) + char(CL) + char(CL)
    if kind == "CVCCVC":
        return char(CL) + char(VL) + char(CL) + char(CL) + char(VL) + char(CL)
    if kind == "CVVCVC":
        return char(CL) + char(VL) + char(VL) + char(CL) + char(VL) + char(CL)
    if kind == "CCVCV":
        return char(CL) + char(CL) + char(VL) + char(CL) + char(VL)
    if kind == "LONGV":
        return char(CL) + char(CL) + char(VL) + char(CL) + char(VL) + char(CL) + char(CL) + char(VL)
    return char(CL) + char(CL) + char(VL) + char(CL) + char(VL) + char(CL)


def glide(s):
    return len(s) > 1 and s[0] in ["i", "u"] and s[1] in VOWELS


def judge(units):
    """units: (shape, apostrophe before or not, letters, apostrophe after or not)"""
    word = ""
    for i in range(len(units)):
        if i:
            word += "y"
        word += units[i][1] + units[i][2] + units[i][3]
    y = choose("STANDARD", "ALLOW_Y", "FORCE_Y")
    e, k, g, m = choose(True, False), choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), choose(True, False)
    try:
        kind, parts = analyse_brivla(word, y, e, k, g, m)
    except NotBrivlaError:
        infeasible()
    last = word[-1]
    check((kind == "CMEVLA") == (last in CONS), "cmevla-exactly-when-consonant-final")
    check(kind == "CMEVLA" or kind == "EXTENDED_LUJVO", "type-of-a-y-word")
    check("".join(parts) == word, "pieces-join-to-word")
    first = units[0]
    check(first[1] == "", "no-initial-apostrophe")
    if not (word[0] in VOWELS and (word[1] in CONS or word[1] == "y")):
        check(last != "e", "slinkuhi-refused")
    for i in range(len(units)):
        shape, before, b, after = units[i]
        if after:
            check(b[-1] in VOWELS, "apostrophe-after-vowel-only")
        if i:
            if before:
                check(b[0] in VOWELS and not glide(b), "no-consonant-or-glide-after-apostrophe")
            else:
                check(b[0] in CONS or glide(b), "consonant-or-glide-after-y")
        if shape != "CVC":
            check(b[0] != "x", "every-unit-is-rafsi-or-zihevla")
        if shape == "LONGC" and i < len(units) - 1:
            check(b[0] != "l", "unit-is-no-lujvo-stem")
            check(not (b[0] == "z" and b[-1] == "k"), "unit-is-no-lujvo-stem")
        if i < len(units) - 1 and not after and b[-1] in VOWELS:
            check(False, "no-y-directly-after-vowel") if shape in ["CVV", "CVhV", "V", "VhV", "GV"] else None
    shape, before, b, after = first
    if shape == "CVCCVC" and b[0] != "z":
        check(b[2:4] not in INITIAL and b[2] != "t", "tosmabru-refused")
    if shape == "CVVCVC" and b[0] != "z":
        check(False, "tosmabru-refused")
    if last in VOWELS:
        enough(units, k, g)
        if y == "STANDARD":
            falls(units)


def falls(units):
    """A leading CVV or CV'V before y falls off unless a cluster comes first."""
    for i in range(len(units) - 1):
        shape, before, b, after = units[i]
        if clustered(b) or shape == "CVC":
            break
        if after and shape in ["CVV", "CVhV"] and b[0] != "z":
            check(units[i + 1][1] == "'", "rafsi-before-y-falls-off")


def enough(units, k, g):
    """A brivla has a cluster, or as many consonants as asked for."""
    cluster = False
    n = 0
    starts = False
    for i in range(len(units)):
        shape, before, b, after = units[i]
        if clustered(b):
            cluster = True
        if i and units[i - 1][2][-1] in CONS and not units[i - 1][3] and not before and (b[0] in CONS or g and glide(b)):
            cluster = True
        for c in b:
            if c in CONS:
                n += 1
        if g and glide(b):
            n += 1
        if i and not before:
            starts = True
    if not cluster:
        check(k != "CLUSTER", "cluster-required")
        check(n >= (2 if k == "TWO_CONSONANTS" else 1), "consonants-required")
        check(starts, "not-cmavo-shaped")


def two(kind):
    other = pick("CVC", "CVV", "CVhV", "CCV", "V", "VhV", "GV", "CVCC", "CVCCVC", "CVVCVC", "CCVCV", "LONGV", "LONGC")
    judge([(kind, "", body(kind), pick("", "'")), (other, pick("", "'"), body(other), "")])


def check_CVC():
    two("CVC")


def check_CVV():
    two("CVV")


def check_CVhV():
    two("CVhV")


def check_CCV():
    two("CCV")


def check_V():
    two("V")


def check_VhV():
    two("VhV")


def check_GV():
    two("GV")


def check_CVCC():
    two("CVCC")


def check_CVCCVC():
    two("CVCCVC")


def check_CVVCVC():
    two("CVVCVC")


def check_CCVCV():
    two("CCVCV")


def check_LONGV():
    two("LONGV")


def check_LONGC():
    two("LONGC")


def three(kind, after):
    """Three units, the shapes that carry state from unit to unit."""
    a = pick("", "'")
    k2 = pick("CVC", "CVhV", "VhV", "LONGC", "CCV")
    k3 = pick("CVC", "CVhV", "VhV", "GV", "CVCCVC")
    judge([(kind, "", body(kind), after), (k2, pick("", "'"), body(k2), pick("", "'")), (k3, pick("", "'"), body(k3), "")])


def check_three_CVC():
    three("CVC", "")


def check_three_CVhV():
    three("CVhV", "'")


def check_three_VhV():
    three("VhV", "'")


def check_three_LONGC():
    three("LONGC", "")


def plain(kind):
    """A body that breaks no rule by itself."""
    b = body(kind)
    require(b[0] in ["b", "d", "g", "p", "i", "u", "a"])
    if kind in ["CCV", "CCVCV", "LONGV", "LONGC"]:
        require(b[:2] in INITIAL)
    if kind in ["CVCC", "CVCCVC"]:
        require(b[2:4] in VALID and b[2] != "t")
    return b


def check_accepts():
    """What breaks no rule is accepted."""
    k1 = pick("LONGC", "CVCC", "CCV", "CCVCV", "CVC", "CVhV", "VhV")
    k2 = pick("CCV", "CCVCV", "LONGV", "CVCCVC", "CVhV", "VhV", "GV", "CVC")
    b1 = plain(k1)
    b2 = plain(k2)
    after = "" if b1[-1] in CONS else "'"
    before = "'" if k2 == "VhV" and not glide(b2) else ""
    word = b1 + after + "y" + before + b2
    require(word[-1] != "e")
    y = choose("STANDARD", "ALLOW_Y", "FORCE_Y")
    e, k, g, m = choose(True, False), choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), choose(True, False)
    try:
        kind, parts = analyse_brivla(word, y, e, k, g, m)
        ok = True
    except NotBrivlaError:
        ok = False
    short = k1 == "VhV" or k2 in ["VhV", "GV"]
    together = clustered(b1) or k1 == "CVC" and (b2[0] in CONS or g and glide(b2))
    anywhere = together or clustered(b2)
    if not e and short:
        check(not ok, "short-rafsi-shapes-only-with-option")
    elif not anywhere and word[-1] in VOWELS:
        n = 0
        for c in word:
            if c in CONS:
                n += 1
        if k == "CLUSTER":
            check(not ok, "cluster-required")
        elif not before and n >= (2 if k == "TWO_CONSONANTS" else 1) and y != "STANDARD":
            check(ok, "good-word-accepted")
    elif y == "STANDARD" and after and not clustered(b1) and not before and word[-1] in VOWELS:
        check(not ok, "rafsi-before-y-falls-off")
    elif word[-1] in CONS and y == "STANDARD" and after and not clustered(b1) and not before:
        if k1 == "VhV":
            check(not ok, "rafsi-before-y-falls-off")
        else:
            check(ok, "good-word-accepted")
    else:
        check(ok, "good-word-accepted")
