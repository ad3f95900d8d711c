"""check_zihevla_or_rafsi: one harness per family of consonant/vowel patterns (C consonant, V vowel, h apostrophe, X other)."""
CL = "bcdfgjklmnprstvxz"
VL = "aeiou"
CONS = list(CL)
VOWELS = list(VL)
CONFIG = {"*": {"widen_after": 40, "summaries": ["is_brivla", "is_slinkuhi", "is_zihevla_middle_cluster"]}}


def model_is_slinkuhi(s, y_hyphens="STANDARD", allow_mz=False):
    return s[-1] == "e"


def model_is_brivla(valsi, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    return valsi[-1] == "o" and valsi[0] not in ["k", "u"]


def model_is_zihevla_middle_cluster(cluster):
    """The real one up to three consonants (P22); of longer runs, some are accepted."""
    if len(cluster) > 3:
        return cluster[1] != "k"
    return is_zihevla_middle_cluster(cluster)


def letter(k):
    if k == "C":
        return char(CL)
    if k == "V":
        return char(VL)
    if k == "h":
        return "'"
    return char("y-q")


def glide(s):
    return len(s) > 1 and s[0] in ["i", "u"] and s[1] in VOWELS


def good(w, pat, require_zihevla, exp, mz):
    """None when no rule is broken, else the rule; then the kind."""
    n = len(pat)
    if require_zihevla and n < 4:
        return "too short", ""
    for k in pat:
        if k == "X":
            return "letters", ""
    # apostrophes stand between vowels
    for i in range(n):
        if pat[i] == "h":
            if i == 0 or i == n - 1 or pat[i - 1] != "V" or pat[i + 1] != "V":
                return "apostrophe", ""
    # runs
    first = -1
    consonants = 0
    last_consonant = 0
    syllables = 0
    i = 0
    while i < n:
        j = i
        while j < n and pat[j] == pat[i]:
            j += 1
        run = w[i:j]
        if pat[i] == "C":
            if j - i > 1:
                if first < 0:
                    if consonants > 1:
                        return "consonants before cluster", ""
                    first = i
                if syllables == 0 and run[:2] not in INITIAL:
                    return "initial pair", ""
            for a in range(len(run) - 1):
                if run[a:a + 2] not in VALID and not (mz and run[a:a + 2] == "mz"):
                    return "pair", ""
            for a in range(len(run) - 2):
                if run[a:a + 3] in BANNED_TRIPLES:
                    return "triple", ""
            if i == 0:
                if not is_zihevla_initial_cluster(run):
                    return "initial cluster", ""
            elif not model_is_zihevla_middle_cluster(run):
                return "middle cluster", ""
            consonants += j - i
            last_consonant = i
        elif pat[i] == "V":
            try:
                parts = split_vowel_cluster(run)
            except DecompositionError:
                return "vowels", ""
            if i > 0 and glide(parts[0]):
                return "glide after non-vowel", ""
            if first < 0 and len(parts) > 1 and j == n and (i == 0 or pat[i - 1] != "h"):
                return "cmavo compound", ""
            syllables += len(parts)
        i = j
    if syllables < 2 and (require_zihevla or not exp):
        return "syllables", ""
    if syllables > 2 and first > 0:
        for a in range(1, first + 1):
            if (pat[a] == "C" or glide(w[a:])) and model_is_brivla(w[a:]):
                return "falls apart", ""
    if first < 0:
        if require_zihevla:
            return "no cluster", ""
        if pat[0] != "C" and not exp:
            return "rafsi start", ""
        if consonants > 1 or last_consonant > 0:
            return "rafsi consonants", ""
        return "", "RAFSI"
    if not (pat[0] == "V" and pat[1] == "C") and w[-1] == "e":
        return "slinkuhi", ""
    return "", "ZIhEVLA"


def judge(pat):
    w = ""
    for k in pat:
        w += letter(k)
    need, exp, mz = choose(True, False), choose(True, False), choose(True, False)
    rule, want = good(w, pat, need, exp, mz)
    try:
        got = check_zihevla_or_rafsi(w, require_zihevla=need, y_hyphens=choose("STANDARD", "FORCE_Y"), exp_rafsi_shapes=exp, allow_mz=mz)
        check(rule == "", "bad-shape-refused")
        check(got == want, "kind-of-shape")
    except NotZihevlaError:
        check(rule != "", "good-shape-accepted")


def more(head, n):
    pat = head
    for i in range(n):
        pat += pick("C", "V", "h")
    judge(pat)


def check_short():
    more("", pick(1, 2, 3))


def check_other_letters():
    judge(pick("X", "CX", "CVX", "CCVX", "XCCVCV", "VXV", "CCVXV", "CCVCVX"))


def check_four():
    more("", 4)


def check_five_C():
    more("C", 4)


def check_five_V():
    more("V", 4)


def check_six_CC():
    more("CC", 4)


def check_six_CV():
    more("CV", 4)


def check_six_V():
    more("V", 5)


def check_seven_CC():
    judge(pick("CCVCVCV", "CCVCCVV", "CCVhVCV", "CCVVhVV", "CCVCVVV", "CCVVCVV", "CCCVCVV", "CCVCCCV"))


def check_seven_CV():
    judge(pick("CVCCVCV", "CVVCCVV", "CVhVCCV", "CVCVCCV", "CVCCCVV", "CVCCVhV", "CVVVCCV", "CVCCCCV"))


def check_seven_V():
    judge(pick("VCCVCVV", "VVCCVCV", "VhVCCVV", "VCVCCVV", "VVVCCVV", "VCCCVCV", "VCVCVVC", "VVhVCCV"))


def check_all_seven_CC():
    more("CC", 5)


def check_all_seven_CV():
    more("CV", 5)


def check_all_seven_VC():
    more("VC", 5)


def check_all_seven_VV():
    more("VV", 5)


def check_all_seven_Vh():
    more("Vh", 5)
