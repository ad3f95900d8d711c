"""Vowel runs split into permitted syllables; consonant runs inside zi'evla."""
CONS = "bcdfgjklmnprstvxz"
CONFIG = {"check_split": {"widen_after": 2, "fold_chars": True}}


def check_split():
    run = text("aeiou")
    try:
        parts = split_vowel_cluster(run)
    except DecompositionError:
        infeasible()
    check("".join(parts) == run, "syllables-join-to-run")


def check_split_short():
    n = pick(0, 1, 2, 3, 4, 5)
    run = ""
    for i in range(n):
        run += char("aeiou")
    try:
        parts = split_vowel_cluster(run)
    except DecompositionError:
        infeasible()
    check("".join(parts) == run, "syllables-join-to-run")
    check(len(parts) > 0, "syllables-permitted")
    k = 0
    before = ""
    for p in parts:
        if k == 0:
            check(p in START_VOWEL_CLUSTERS or p in FOLLOW_VOWEL_CLUSTERS, "syllables-permitted")
        else:
            check(p in FOLLOW_VOWEL_CLUSTERS, "later-syllables-start-with-glide")
            check(not (p[0] == "i" and before[-2:] in ["ai", "ei", "oi"]), "no-glide-doubling-after-diphthong")
            check(not (p[0] == "u" and before[-2:] == "au"), "no-glide-doubling-after-diphthong")
        before += p
        k += 1


def check_middle():
    n = pick(0, 1, 2, 3)
    s = ""
    for i in range(n):
        s += char(CONS)
    expected = True
    if n == 3 and s[1] not in ["l", "m", "n", "r"]:
        expected = s[:2] in VALID and s[1:] in INITIAL
    check(is_zihevla_middle_cluster(s) == expected, "middle-cluster")
