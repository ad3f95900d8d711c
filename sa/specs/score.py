"""score(): the documented lujvo score, for every string."""
LETTERS = "abcdefghijklmnopqrstuvwxyz'"
VOWELS = "aeiou"
CONSONANTS = "bcdfgjklmnprstvxz"


def is_c(x):
    return x in list(CONSONANTS)


def is_v(x):
    return x in list(VOWELS)


def shape_value(s):
    """Rank of a rafsi shape in the score: CVC/CV C=1 ... CVV=8; anything else counts 0."""
    n = len(s)
    if n == 3:
        a, b, c = s[0], s[1], s[2]
        if is_c(a) and is_v(b) and is_c(c):
            return 5
        if is_c(a) and is_c(b) and is_v(c):
            return 7
        if is_c(a) and is_v(b) and is_v(c):
            return 8
        return 0
    if n == 4:
        a, b, c, d = s[0], s[1], s[2], s[3]
        if is_c(a) and is_v(b) and is_c(c) and is_c(d):
            return 2
        if is_c(a) and is_c(b) and is_v(c) and is_c(d):
            return 4
        if is_c(a) and is_v(b) and c == "'" and is_v(d):
            return 6
        return 0
    if n == 5:
        a, b, c, d, e = s[0], s[1], s[2], s[3], s[4]
        if is_c(a) and is_v(b) and is_c(c) and is_c(d) and is_v(e):
            return 1
        if is_c(a) and is_c(b) and is_v(c) and is_c(d) and is_v(e):
            return 3
        return 0
    return 0


def expected(piece, core):
    vowels = 0
    for v in "aeiou":
        vowels += piece.count(v)
    return 1000 * len(piece) + 100 * piece.count("y") - 10 * shape_value(core) - vowels


def check_short():
    n = pick(1, 2, 3, 4, 5)
    core = ""
    for i in range(n):
        core += char()
    require(core[0] not in ["'", "y"])
    require(core[-1] not in ["'", "y"])
    before = text("'y")
    after = text("'y")
    piece = before + core + after
    check(score(piece) == expected(piece, core), "score-formula")


def check_hyphen_only():
    piece = text("'y")
    check(score(piece) == expected(piece, ""), "score-formula")


def check_long():
    core = char() + char() + char() + char() + text() + char() + char()
    require(core[0] not in ["'", "y"])
    require(core[-1] not in ["'", "y"])
    piece = text("'y") + core + text("'y")
    check(score(piece) == expected(piece, ""), "score-formula")
