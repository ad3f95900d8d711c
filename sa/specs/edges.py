"""Which exceptions can leave the public functions: short strings of any letters, through the real code."""
ANY = "abcdefgijklmnoprstuvxyz',.h-q AY"
CONFIG = {"*": {"widen_after": 40, "max_steps": 30000000}}


def options():
    return choose("STANDARD", "ALLOW_Y", "FORCE_Y"), choose(True, False), choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), choose(True, False)


def string(n):
    w = ""
    for i in range(n):
        w += char(ANY)
    return w


def judge(n):
    w = string(n)
    y, e, k, g, m = options()
    check(is_brivla(w, y, e, k, g, m) in [True, False], "answers")


def check_0():
    judge(0)


def check_1():
    judge(1)


def check_2():
    judge(2)


def check_3():
    judge(3)


def check_4():
    judge(4)


def check_5():
    judge(5)


def check_6():
    judge(6)


def built(a, b, c):
    y, e, k, g, m = options()
    tanru = [a, b]
    if c != "":
        tanru.append(c)
    try:
        w, s, i = get_lujvo_with_analytics(tanru, choose(True, False), y, e, k, g, m)
        check(len(i) == len(tanru), "answers")
    except (NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError):
        check(True, "documented-error")


def check_build_2():
    built(string(pick(0, 1)), string(pick(0, 1)), "")


def check_build_empty():
    built("", string(pick(0, 1, 2, 3)), "")


def check_build_last_empty():
    built("-" + string(pick(1, 2)) + "-", "", "")


def check_build_alone():
    y, e, k, g, m = options()
    tanru = []
    if choose(True, False):
        tanru.append(pick("", "-") + string(pick(0, 1)) + "-")
    try:
        w, s, i = get_lujvo_with_analytics(tanru, choose(True, False), y, e, k, g, m)
        check(len(i) == len(tanru), "answers")
    except (NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError):
        check(True, "documented-error")


def check_build_long_stem():
    head = pick("spagei", "klama'i", "abrgau", "bardasp", "spabai", "spaspa", "brodabr")
    built(head + string(pick(0, 1)) + "-", "-ba-" if flip() else "-klama-", "")


def check_build_long_rafsi():
    head = pick("spagei", "klama'i", "abrgau", "bardasp", "spabai", "spaspa", "brodabr")
    built("-" + head + string(pick(0, 1)) + "-", "-ba-" if flip() else "-klama-", "")


def check_veljvo_long():
    head = pick("spagei", "klama'i", "abrgau", "bardasp", "spabai", "spaspa", "brodabr", "klamu'u", "baukla")
    analysed(head + string(pick(0, 1)) + pick("", "y", "'y") + pick("", "n", "klama"))


def check_build_3():
    built("-" + string(pick(0, 1, 2)) + "-", "-" + string(pick(0, 1, 2)) + pick("-", ""), "")


def check_build_stem():
    built(string(3) + "-", "-" + string(2) + "-", "")


def analysed(w):
    y, e, k, g, m = options()
    try:
        get_veljvo(w, y, e, k, g, m)
        check(True, "answers")
    except (DecompositionError, NotBrivlaError):
        check(True, "documented-error")


def y_word():
    w = string(pick(0, 1)) + pick("y", "'y", "y'", "'y'", "yy") + string(pick(0, 1, 2))
    return w + pick("", "y" + string(pick(0, 1)), "'y" + string(pick(0, 1)))


def check_y():
    w = y_word()
    y, e, k, g, m = options()
    check(is_brivla(w, y, e, k, g, m) in [True, False], "answers")


def check_veljvo_y():
    analysed(y_word())


def check_longer_y():
    w = pick("", "ba", "broda", "bak", "bla") + pick("y", "'y", "y'", "yy") + string(pick(0, 1, 2)) + pick("", "y", "'y") + pick("", "ba", "broda", "bak", "n")
    analysed(w)


def check_veljvo_3():
    analysed(string(pick(0, 1, 2, 3)))


def check_veljvo_4():
    analysed(string(4))


def model_search_selrafsi_from_rafsi(rafsi):
    if flip():
        return None
    return "word"
