"""Entry points: tanru given as text or list, and the two forms of lujvo construction."""
LETTERS = "abcdefgijklmnoprstuvxyz'"
CV = "abcdefgijklmnoprstuvxz"
CONFIG = {"*": {"summaries": ["normalise"]}, "check_wrappers": {"summaries": ["get_lujvo_from_list", "process_tanru"]}}


def model_normalise(word):
    return "N" + word


def model_process_tanru(tanru):
    return [tanru]


def model_get_lujvo_from_list(valsi_list, generate_cmevla=False, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    """A different word for every combination of arguments."""
    w = "c" if generate_cmevla else "b"
    w += y_hyphens + "/" + consonants
    w += "e" if exp_rafsi_shapes else "n"
    w += "g" if glides else "n"
    w += "m" if allow_mz else "n"
    return w + valsi_list[0], 7, [(0, 1)]


def check_wrappers():
    """get_lujvo is get_lujvo_with_analytics without score and indices."""
    w = text(LETTERS)
    c, y, e, k, g, m = choose(True, False), choose("STANDARD", "ALLOW_Y"), choose(True, False), choose("CLUSTER", "ONE_CONSONANT"), choose(True, False), choose(True, False)
    how = pick(0, 1, 2)
    if how == 0:
        one = get_lujvo(w)
        all = get_lujvo_with_analytics(w)
    elif how == 1:
        one = get_lujvo(w, c, y, e, k, g, m)
        all = get_lujvo_with_analytics(w, c, y, e, k, g, m)
    else:
        one = get_lujvo(w, generate_cmevla=c, y_hyphens=y, exp_rafsi_shapes=e, consonants=k, glides=g, allow_mz=m)
        all = get_lujvo_with_analytics(w, generate_cmevla=c, y_hyphens=y, exp_rafsi_shapes=e, consonants=k, glides=g, allow_mz=m)
    check(len(all) == 3, "word-score-indices")
    check(one == all[0], "same-word-from-both")


def spaces():
    return char(" \t\n") + text(" \t\n")


def check_tanru():
    """A tanru given as a string means its words; every word is normalised, none lost or reordered."""
    n = pick(1, 2, 3)
    ws = []
    line = pick("", " ")
    for i in range(n):
        if i:
            line += spaces()
        w = char(CV) + text(LETTERS)
        line += w
        ws.append(w)
    line += pick("", " ")
    got = process_tanru(line)
    check(len(got) == n, "one-component-per-word")
    for i in range(n):
        check(got[i] == "N" + ws[i], "each-word-normalised-in-order")
    given = process_tanru(ws)
    check(given == got, "list-and-string-agree")
    check(ws[0][0] != "N", "argument-unchanged")


def check_list():
    """The elements of a list are the components, whatever they are."""
    n = pick(0, 1, 2, 3)
    ws = []
    for i in range(n):
        ws.append(pick(text(LETTERS), text(" \t"), char(CV) + text(" abcdefg.,-'Y") + char(CV)))
    got = process_tanru(ws[:])
    check(len(got) == n, "one-component-per-element")
    for i in range(n):
        check(got[i] == "N" + ws[i], "each-word-normalised-in-order")


def check_other_types():
    try:
        process_tanru(pick(None, 5, ("ba", "da")))
        refused = False
    except TypeError:
        refused = True
    check(refused, "other-types-refused")
