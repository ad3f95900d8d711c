"""Building and taking apart belong together: the lujvo built from given rafsi, through all of the real code."""
CL = "bcdfgjklmnprstvxz"
VL = "aeiou"
CONFIG = {"*": {"widen_after": 40, "max_steps": 30000000}}


def body(kind):
    if kind == "CVC":
        return char(CL) + char(VL) + char(CL)
    if kind == "CVV":
        return char(CL) + pick("ai", "ei", "oi", "au")
    if kind == "CVhV":
        return char(CL) + char(VL) + "'" + char(VL)
    if kind == "CCV":
        return char(CL) + char(CL) + char(VL)
    if kind == "CVCC":
        return char(CL) + char(VL) + char(CL) + char(CL)
    if kind == "CCVC":
        return char(CL) + char(CL) + char(VL) + char(CL)
    if kind == "CVCCV":
        return char(CL) + char(VL) + char(CL) + char(CL) + char(VL)
    return char(CL) + char(CL) + char(VL) + char(CL) + char(VL)


FIRST = ["CVC", "CVV", "CVhV", "CCV", "CVCC", "CCVC", "CVCCV", "CCVCV"]


def there_and_back(bodies, cmevla, y, k, g, m):
    tanru = []
    for b in bodies:
        tanru.append("-" + b + "-")
    try:
        w, sc, idx = get_lujvo_with_analytics(tanru, cmevla, y, False, k, g, m)
    except (NoLujvoFoundError, InvalidClusterError):
        infeasible()
    check((w[-1] in list(CL)) == cmevla, "ends-as-asked")
    check(len(idx) == len(bodies), "one-index-pair-per-rafsi")
    for i in range(len(bodies)):
        check(w[idx[i][0]:idx[i][1]] == bodies[i], "index-pair-spans-rafsi")
    kind, parts = analyse_brivla(w, y, False, k, g, m)
    check(kind == ("CMEVLA" if cmevla else "LUJVO") or kind == "EXTENDED_LUJVO", "built-word-is-lujvo")
    check("".join(parts) == w, "pieces-join-to-word")
    got = []
    for x in parts:
        if len(x) > 2:
            got.append(x)
    check(got == bodies, "same-rafsi-back")
    check(score_lujvo(w, y, False, k, g, m) == sc, "same-score-back")
    check(is_brivla(w, y, False, k, g, m) == (not cmevla), "built-word-is-brivla")


def options(y=""):
    return (choose("STANDARD", "ALLOW_Y", "FORCE_Y") if y == "" else y), choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), choose(True, False)


def brivla(kind, y="", last=""):
    y, k, g, m = options(y)
    there_and_back([body(kind), body(pick("CVV", "CVhV", "CCV", "CVCCV", "CCVCV") if last == "" else last)], False, y, k, g, m)


def cmevla(kind):
    y, k, g, m = options()
    there_and_back([body(kind), body(pick("CVC", "CVCC", "CCVC"))], True, y, k, g, m)


def model_search_selrafsi_from_rafsi(rafsi):
    if flip():
        return None
    return "word"


def check_brivla_CVC_STANDARD():
    brivla("CVC", "STANDARD")


def check_brivla_CVC_ALLOW_Y():
    brivla("CVC", "ALLOW_Y")


def check_brivla_CVC_FORCE_Y():
    brivla("CVC", "FORCE_Y")


def check_cmevla_CVC():
    cmevla("CVC")


def check_brivla_CVV_STANDARD():
    brivla("CVV", "STANDARD")


def check_brivla_CVV_ALLOW_Y():
    brivla("CVV", "ALLOW_Y")


def check_brivla_CVV_FORCE_Y():
    brivla("CVV", "FORCE_Y")


def check_cmevla_CVV():
    cmevla("CVV")


def check_brivla_CVhV():
    brivla("CVhV")


def check_cmevla_CVhV():
    cmevla("CVhV")


def check_brivla_CCV():
    brivla("CCV")


def check_cmevla_CCV():
    cmevla("CCV")


def check_brivla_CVCC():
    brivla("CVCC")


def check_cmevla_CVCC():
    cmevla("CVCC")


def check_brivla_CCVC_STANDARD():
    brivla("CCVC", "STANDARD")


def check_brivla_CCVC_ALLOW_Y():
    brivla("CCVC", "ALLOW_Y")


def check_brivla_CCVC_FORCE_Y():
    brivla("CCVC", "FORCE_Y")


def check_cmevla_CCVC():
    cmevla("CCVC")


def check_brivla_CVCCV():
    brivla("CVCCV")


def check_cmevla_CVCCV():
    cmevla("CVCCV")


def check_brivla_CCVCV():
    brivla("CCVCV")


def check_cmevla_CCVCV():
    cmevla("CCVCV")
