"""Decomposition returns consecutive pieces of the word (nothing lost, added or reordered)."""
WORD = "abcdefgijklmnoprstuvxyz'"
CONFIG = {"*": {"widen_after": 1, "segment": True, "hull": "abcdefgijklmnoprstuvxyz'"},
          "check_greedy": {"summaries": ["rafsi_tarmi"], "relax_level": 1},
          "check_brivla": {"relax_level": 3}}


def model_rafsi_tarmi(s):
    """What P20 establishes about the classifier, by length only: 3 -> CVC/CCV/CVV, 4 -> CVCC/CCVC/CV'V, 5 -> gismu shapes."""
    n = len(s)
    if n == 3:
        return choose(5, 7, 8, 9)
    if n == 4:
        return choose(2, 4, 6, 9)
    if n == 5:
        return choose(1, 3, 9)
    if n == 1 or n == 2:
        return choose(0, 9)
    return 9


def model_normalise(s):
    return s


def model_is_gismu(s, allow_mz=False):
    return unknown_bool()


def model_is_glide(s):
    return unknown_bool()


def model_is_valid_rafsi(s, allow_mz=False):
    return unknown_bool()


def model_split_vowel_cluster(s):
    if flip():
        raise DecompositionError()
    return [text("aeiou")]


def model_is_slinkuhi(s, y_hyphens="STANDARD", allow_mz=False):
    return unknown_bool()


def model_check_zihevla_or_rafsi(s, require_zihevla=False, y_hyphens="STANDARD", exp_rafsi_shapes=False, allow_mz=False):
    if flip():
        raise NotZihevlaError()
    return choose("ZIhEVLA", "RAFSI")


def model_analyse_brivla(s, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    if flip():
        raise NotBrivlaError()
    return choose("GISMU", "LUJVO", "ZIhEVLA", "EXTENDED_LUJVO"), [s]


def model_jvokaha(s, y_hyphens="STANDARD", consonants="CLUSTER", glides=False, allow_mz=False):
    if flip():
        raise DecompositionError()
    return pieces(s)


def model_jvokaha_2(s, y_hyphens="STANDARD", allow_mz=False):
    if flip():
        raise DecompositionError()
    return pieces(s)


def check_greedy():
    word = text(WORD)
    y = choose("STANDARD", "ALLOW_Y", "FORCE_Y")
    mz = choose(True, False)
    try:
        parts = jvokaha_2(word, y_hyphens=y, allow_mz=mz)
    except (DecompositionError, InvalidClusterError, NotBrivlaError):
        infeasible()
    check("".join(parts) == word, "pieces-join-to-word")


def check_brivla():
    word = text(WORD)
    y = choose("STANDARD", "ALLOW_Y", "FORCE_Y")
    try:
        kind, parts = analyse_brivla(word, y, choose(True, False), choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), choose(True, False))
    except Exception:
        infeasible()
    check("".join(parts) == word, "pieces-join-to-word")
