"""Helpers around building and taking apart: rafsi forms, component lists, positions, acceptance by reconstruction."""
LETTERS = "abcdefgijklmnoprstuvxyz'"
CORE = "abcdefgijklmnoprstuvxz'"
CV = "abcdefgijklmnoprstuvxz"
CL = "bcdfgjklmnprstvxz"
VL = "aeiou"
HY = ["y", "n", "r", "'y", "y'", "'y'"]
CONFIG = {"check_forms": {"summaries": []},
          "check_positions": {"summaries": []},
          "check_components": {"summaries": ["search_selrafsi_from_rafsi", "is_brivla"]},
          "check_veljvo": {"summaries": ["analyse_brivla", "selrafsi_list_from_rafsi_list"]},
          "check_score_lujvo": {"summaries": ["get_veljvo", "analyse_brivla"]},
          "check_score_refuses": {"summaries": ["get_veljvo", "analyse_brivla"]},
          "check_accept": {"summaries": ["jvokaha_2", "get_lujvo_from_list", "compare_lujvo_pieces"]},
          "check_same_pieces": {"summaries": ["rafsi_tarmi"]},
          "check_identical_pieces": {"summaries": ["rafsi_tarmi"]},
          }


# ---------------------------------------------------------------- forms of a rafsi
def check_forms():
    """Which hyphened forms of a rafsi may stand at the start, inside and at the end of a lujvo."""
    kind = pick("CVV", "CVhV", "CCV", "CVC", "CVCC", "CCVC", "CCVCV", "CVCCV", "SHORT BRIVLA", "LONG BRIVLA", "EXPERIMENTAL RAFSI")
    if kind == "CVV":
        rafsi, what = char(CL) + char(VL) + char(VL), CVV
    elif kind == "CVhV":
        rafsi, what = char(CL) + char(VL) + "'" + char(VL), CVhV
    elif kind == "CCV":
        rafsi, what = char(CL) + char(CL) + char(VL), CCV
    elif kind == "CVC":
        rafsi, what = char(CL) + char(VL) + char(CL), CVC
    elif kind == "CVCC":
        rafsi, what = char(CL) + char(VL) + char(CL) + char(CL), CVCC
    elif kind == "CCVC":
        rafsi, what = char(CL) + char(CL) + char(VL) + char(CL), CCVC
    elif kind == "CCVCV":
        rafsi, what = char(CL) + char(CL) + char(VL) + char(CL) + char(VL), CCVCV
    elif kind == "CVCCV":
        rafsi, what = char(CL) + char(VL) + char(CL) + char(CL) + char(VL), CVCCV
    elif kind == "SHORT BRIVLA":
        rafsi, what = char(CV) + char(CORE) + text(CORE) + char(CV), kind
    elif kind == "LONG BRIVLA":
        rafsi, what = char(CV) + char(CORE) + text(CORE) + char(VL), kind
    else:
        rafsi, what = pick(char(VL), char(CV) + char(CORE) + text(CORE) + char(VL)), kind
    first = pick(True, False)
    last = pick(True, False)
    require(not (first and last))
    cons = choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT")
    glides = choose(True, False)
    forms = get_rafsi_for_rafsi(rafsi, what, first, last, cons, glides)
    glide = rafsi[0] in ["i", "u"] and len(rafsi) > 1 and rafsi[1] in list(VL)
    base = rafsi
    if not first and rafsi[0] in list(VL) and not glide:
        base = "'" + rafsi
    if kind in ["CVV", "CVhV", "EXPERIMENTAL RAFSI"]:
        loose = "'" if first else "'y"
        bare = kind != "EXPERIMENTAL RAFSI" or last
        hyphened = not last
    elif kind == "CCV":
        loose = "'y"
        bare = True
        hyphened = not last
    elif kind == "CVC":
        loose = "y"
        bare = True
        hyphened = not last
    elif kind in ["LONG BRIVLA", "CCVCV", "CVCCV"]:
        loose = "'y"
        bare = last
        hyphened = not last
    else:
        loose = "y"
        bare = last and base[-1] not in list(VL)
        hyphened = not last
    n = 2
    if kind in ["CVV", "CVhV"]:
        n = 0 if cons == "CLUSTER" else 1
    elif kind == "EXPERIMENTAL RAFSI":
        n = 1 if cons != "CLUSTER" and (rafsi[0] in list(CL) or glides and glide) else 0
    got_bare = False
    got_loose = False
    for form, count in forms:
        check(form == base or form == base + loose, "form-is-rafsi-with-its-hyphen")
        check(count == n, "form-consonant-count")
        if form == base:
            check(bare, "bare-form-only-where-allowed")
            got_bare = True
        else:
            check(hyphened or kind == "CCV", "hyphened-form-not-at-end")
            got_loose = True
    check(got_bare == bare, "every-allowed-form-offered")
    check(got_loose or not hyphened, "every-allowed-form-offered")


# ---------------------------------------------------------------- positions
def piece():
    if flip():
        return words(HY)
    return pick(char(CV) + char(CORE) + text(CORE), char(VL))


def check_positions():
    """One pair per non-hyphen piece, in order, spanning exactly that piece in the word."""
    n = pick(0, 1, 2, 3, 4)
    parts = []
    for i in range(n):
        parts.append(piece())
    word = "".join(parts)
    got = get_rafsi_indices(parts)
    k = 0
    at = 0
    for p in parts:
        if p not in HY:
            check(k < len(got), "one-pair-per-rafsi")
            a, b = got[k]
            check(a == at and b == at + len(p), "pair-spans-its-rafsi")
            k += 1
        at += len(p)
    check(k == len(got), "one-pair-per-rafsi")


# ---------------------------------------------------------------- component lists
def model_search_selrafsi_from_rafsi(rafsi):
    if rafsi == "":
        return None
    if rafsi[0] == "k":
        return "found" + rafsi
    return None


def model_is_brivla(valsi, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    if valsi[-1] == "a":
        return valsi[1] == "b"
    return valsi[1] == "d"


def part():
    if flip():
        return words(HY)
    return char("kt") + char("bdg") + text(CORE) + char("n")


def check_components():
    """One component per non-hyphen piece, in order: its word when the rafsi is known, else the rafsi marked as such."""
    n = pick(0, 1, 2, 3)
    parts = []
    for i in range(n):
        parts.append(part())
    got = selrafsi_list_from_rafsi_list(parts)
    k = 0
    for i in range(n):
        p = parts[i]
        if p in HY:
            continue
        check(k < len(got), "one-component-per-rafsi")
        if p[0] == "k":
            check(got[k] == "found" + p, "known-rafsi-gives-its-word")
        elif i < n - 2 and parts[i + 1][0] == "y" and p[1] == "b":
            check(got[k] == p + "-", "short-brivla-marked")
        elif p[1] == "d":
            check(got[k] == p, "brivla-stands-for-itself")
        elif i == n - 1 and p[1] == "b":
            check(got[k] == p + "-", "short-brivla-marked")
        else:
            check(got[k] == "-" + p + "-", "unknown-rafsi-marked")
        k += 1
    check(k == len(got), "one-component-per-rafsi")


def model_analyse_brivla(valsi, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    check(y_hyphens == "FORCE_Y" and exp_rafsi_shapes == "exp" and consonants == "cons" and glides == "glides" and allow_mz == "mz", "options-reach-analysis")
    if valsi[0] == "g":
        return "GISMU", [valsi]
    if valsi[0] == "z":
        return "ZIhEVLA", [valsi]
    if valsi[0] == "x":
        raise NotBrivlaError("no")
    if valsi[0] == "l":
        kind = "LUJVO"
    elif valsi[0] == "e":
        kind = "EXTENDED_LUJVO"
    else:
        kind = "CMEVLA"
    return kind, SAMPLE(valsi)


def SAMPLE(w):
    if w[1] == "2":
        return ["bau", "r", w[2:]]
    if w[1] == "1":
        return ["bau", w[2:]]
    return ["lat", "y", "mo'i", w[2:]]


def model_selrafsi_list_from_rafsi_list(rafsi_list, y_hyphens="STANDARD", allow_mz=False):
    return ["sel"] + rafsi_list


def opt(f, w):
    return f(w, "FORCE_Y", "exp", "cons", "glides", "mz")


def check_veljvo():
    """The components are those of the word's own analysis; words that are not lujvo are refused."""
    w = char("gzxlec") + pick("2", "3") + char(CL) + char(VL) + text(LETTERS)
    try:
        got = opt(get_veljvo, w)
        ok = True
    except DecompositionError:
        ok = False
    except NotBrivlaError:
        check(w[0] == "x", "non-brivla-error-only-for-non-brivla")
        infeasible()
    check(ok == (w[0] in ["l", "e", "c"]), "only-lujvo-decomposed")
    if ok:
        check(got == ["sel"] + SAMPLE(w), "components-of-own-analysis")


def model_get_veljvo(lujvo, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    check(y_hyphens == "FORCE_Y" and exp_rafsi_shapes == "exp" and consonants == "cons" and glides == "glides" and allow_mz == "mz", "options-reach-analysis")
    if lujvo[0] in ["g", "z"]:
        raise DecompositionError("no")
    if lujvo[0] == "x":
        raise NotBrivlaError("no")
    return []


def check_score_lujvo():
    """A lujvo's score is the sum of its pieces' scores, less the tie-break."""
    w = char("lec") + pick("1", "2", "3") + pick(char(CL) + char(VL) + char(CL), char(CL) + char(CL) + char(VL), char(CL) + char(VL) + char(CL) + char(CL) + char(VL), char(CL) + char(VL) + char(VL))
    got = opt(score_lujvo, w)
    total = 0
    for p in SAMPLE(w):
        total += score(p)
    check(got == total - tiebreak("".join(SAMPLE(w))), "score-is-sum-of-pieces")


def check_score_refuses():
    """What is not a lujvo has no score."""
    w = char("gzx") + pick("2", "3") + char(CL) + char(VL) + text(LETTERS)
    try:
        opt(score_lujvo, w)
        scored = True
    except (DecompositionError, NotBrivlaError):
        scored = False
    check(not scored, "only-lujvo-scored")


# ---------------------------------------------------------------- acceptance by reconstruction
def model_jvokaha_2(lujvo, y_hyphens="STANDARD", allow_mz=False):
    if lujvo[0] == "x":
        raise DecompositionError("no")
    if lujvo[0] == "1":
        return [lujvo[1:]]
    if lujvo[0] == "2":
        return ["la" + lujvo[1], "y", lujvo[2:]]
    return ["bau", "'y", "mo" + lujvo[1], lujvo[2:]]


def model_get_lujvo_from_list(valsi_list, generate_cmevla=False, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    for v in valsi_list:
        check(v[0] == "-" and v[-1] == "-" and len(v) > 4, "reconstructed-from-its-own-rafsi")
    end = valsi_list[-1]
    n = len(valsi_list)
    check(generate_cmevla == (end[-2] in list(CL)), "reconstructed-with-the-same-ending")
    check(n > 1, "reconstructed-from-its-own-rafsi")
    if end[1] == "z":
        raise NoLujvoFoundError("none")
    if end[1] == "v":
        return "2y" + end[-2], 1, []
    if end[1] == "f":
        return "2yy", 1, []
    return str(n) + valsi_list[n - 2][3] + end[1:-1], 1, []


def model_compare_lujvo_pieces(corr, other):
    return corr[-1][-1] == other[-1][-1]


def check_accept():
    """A decomposition is accepted exactly when building from its rafsi gives the word back (hyphens that may be left out apart)."""
    w = char("123x") + char(CL) + char(CL) + char(CL) + text(CORE) + char(VL) + pick("", char(CL))
    y = choose("STANDARD", "ALLOW_Y", "FORCE_Y")
    try:
        got = jvokaha(w, y)
    except DecompositionError:
        check(w[0] in ["1", "x"] or w[2] in ["z", "f"] or w[2] == "v" and y == "FORCE_Y", "good-decomposition-not-refused")
        infeasible()
    check(w[2] != "f" and not (w[2] == "v" and y == "FORCE_Y"), "word-agrees-with-reconstruction")
    check(w[0] in ["2", "3"] and w[2] != "z", "needs-two-rafsi-and-a-lujvo")
    if w[0] == "2":
        check(got == ["la" + w[1], "y", w[2:]], "pieces-of-the-word-itself")
    else:
        check(got == ["bau", "'y", "mo" + w[1], w[2:]], "pieces-of-the-word-itself")


def model_rafsi_tarmi(s):
    return choose(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)


def extends(corr, other):
    """other is corr with nothing but r and n put in."""
    if not other:
        return not corr
    if corr and corr[0] == other[0] and extends(corr[1:], other[1:]):
        return True
    return other[0] in ["r", "n"] and extends(corr, other[1:])


def some(n):
    out = []
    for i in range(n):
        out.append(char("abyrn"))
    return out


def check_same_pieces():
    """Pieces that differ in more than an unneeded r or n hyphen are told apart."""
    corr = some(pick(1, 2, 3))
    other = some(pick(1, 2, 3, 4))
    try:
        same = compare_lujvo_pieces(corr, other)
    except IndexError:
        infeasible()
    if same:
        check(extends(corr, other), "only-r-n-hyphens-differ")


def check_identical_pieces():
    corr = some(pick(1, 2, 3, 4, 5))
    check(compare_lujvo_pieces(corr, corr[:]), "same-pieces-accepted")
