"""combine(): joining one more rafsi to a working lujvo."""
LETTERS = "abcdefgijklmnoprstuvxyz'"
CORE = "abcdefgijklmnoprstuvxz'"
CV = "abcdefgijklmnoprstuvxz"
VOWELS = list("aeiou")
CONS = list("bcdfgjklmnprstvxz")
CL = "bcdfgjklmnprstvxz"
OPEN = ["rafsi_tarmi", "tarmi_ignoring_hyphen", "is_glide", "contains_consonant", "score", "tiebreak"]
CONFIG = {"check_indices": {"summaries": OPEN},
          "check_letters": {"summaries": OPEN},
          "check_hyphens": {"summaries": ["score", "tiebreak", "contains_consonant"]},
          "check_vowel_rafsi": {"summaries": ["score", "tiebreak", "contains_consonant"]},
          "check_count_cluster": {"summaries": OPEN[:2] + OPEN[3:]},
          "check_count_two": {"summaries": OPEN[:2] + OPEN[3:]},
          "check_count_one": {"summaries": OPEN[:2] + OPEN[3:]},
          "check_tosmabru": {"summaries": ["score", "tiebreak"]},
          "check_score": {"summaries": ["is_glide", "contains_consonant"]},
          "check_tiebreak": {"summaries": []}}


def core(kind):
    """A rafsi without hyphens: the CLL shapes, or any other string."""
    if kind == "CVC":
        return char(CL) + char("aeiou") + char(CL)
    if kind == "CVV":
        return char(CL) + char("aeiou") + char("aeiou")
    if kind == "CCV":
        return char(CL) + char(CL) + char("aeiou")
    if kind == "CVhV":
        return char(CL) + char("aeiou") + "'" + char("aeiou")
    if kind == "CVCC":
        return char(CL) + char("aeiou") + char(CL) + char(CL)
    if kind == "CCVC":
        return char(CL) + char(CL) + char("aeiou") + char(CL)
    if kind == "CVCCV":
        return char(CL) + char("aeiou") + char(CL) + char(CL) + char("aeiou")
    if kind == "CCVCV":
        return char(CL) + char(CL) + char("aeiou") + char(CL) + char("aeiou")
    if kind == "V":
        return char("aeiou")
    if kind == "VhV":
        return char("aeiou") + text(CORE) + char("aeiou")
    return char(CV) + text(CORE) + char(CV)


def exact(n):
    """Any rafsi core of n letters (6: six or more)."""
    s = char(CV)
    for i in range(n - 2):
        s += char(CORE)
    if n == 6:
        s = s + text(CORE)
    if n > 1:
        s += char(CV)
    return s


def check_indices():
    form = pick("short", "short-hyphen", "long", "long-y", "long-h")
    c1 = exact(3 if form[:5] == "short" else 6)
    t1 = ""
    if form == "short-hyphen":
        t1 = "'y"
    elif form == "long-y":
        t1 = "y"
    elif form == "long-h":
        t1 = "'"
    lujvo = c1 + t1
    n2 = pick(1, 3, 6)
    c2 = exact(n2)
    p2 = ""
    if c2[0] in VOWELS and flip():
        p2 = "'"
    t2 = pick("", "y", "'y", "'")
    rafsi = p2 + c2 + t2
    old = [(0, len(c1))]
    r = combine(lujvo, rafsi, choose(0, 1, 2), choose(0, 1, 2), 0, old, choose(0, 1, 2), choose(True, False),
                choose(0, 2, 3), choose("STANDARD", "ALLOW_Y", "FORCE_Y"), choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), choose(True, False))
    if r is None:
        infeasible()
    word = r[3]
    idx = r[4]
    check(len(idx) == 2, "index-one-pair-per-rafsi")
    check(idx[0] == old[0], "index-earlier-pairs-kept")
    check(len(old) == 1, "index-earlier-pairs-kept")
    a, b = idx[1]
    check(b - a == len(c2), "index-pair-spans-rafsi")
    check(word[a:b] == c2, "index-pair-spans-rafsi")


def check_letters():
    """What may stand on the two sides of a joint."""
    last = char()
    body = char(CV)
    if flip():
        body += text(LETTERS)
    lujvo = body + last
    rafsi = char("abcdefgijklmnoprstuvxz'") + char(LETTERS) + text(LETTERS)
    mz = choose(True, False)
    y = choose("STANDARD", "ALLOW_Y", "FORCE_Y")
    r = combine(lujvo, rafsi, 0, 2, 0, [(0, len(lujvo))], choose(0, 1, 2), choose(True, False), choose(0, 2, 3), y,
                choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), mz)
    if r is None:
        infeasible()
    word = r[3]
    check(word[:len(lujvo)] == lujvo, "word-starts-with-working-lujvo")
    h = word[len(lujvo):len(word) - len(rafsi)]
    check(word == lujvo + h + rafsi, "word-ends-with-rafsi")
    check(h in ["", "y", "'y", "r", "n"], "only-hyphens-inserted")
    first = rafsi[0]
    if h == "":
        if last in CONS and first in CONS:
            pair = last + first
            check(pair in VALID or (mz and pair == "mz"), "joint-is-permitted-pair")
        check(last + rafsi[:2] not in BANNED_TRIPLES, "no-banned-triple")
        check(last != "'", "apostrophe-needs-y")
        if first == "'":
            check(last == "y", "apostrophe-after-y-only")
    elif h == "y":
        check(last == "'", "y-only-after-apostrophe")
        check(first == "'" or y != "STANDARD", "standard-has-no-'y-before-consonant")
    elif h == "'y":
        check(y == "FORCE_Y", "'y-hyphen-only-when-forced")
    else:
        check(y != "FORCE_Y", "no-r-hyphen-when-y-forced")
        check((h == "n") == (first == "r"), "n-hyphen-exactly-before-r")


def first_rafsi():
    """The working lujvo after one rafsi, and its index pair."""
    kind = pick("CVV", "CVhV", "CVC", "CCV", "CVCC", "other", "long")
    if kind == "other":
        c = char("aeiou") + "'" + char("aeiou")
    elif kind == "long":
        c = char(CV) + char(CORE) + char(CORE) + text(CORE) + char(CORE) + char(CORE) + char(CV)
    else:
        c = core(kind)
    return kind, c


def check_hyphens():
    """A brivla's first CVV or CV'V rafsi is tied on by a hyphen, except before CCV in a lujvo of two."""
    kind, c = first_rafsi()
    kind2 = pick("CVV", "CVC", "CCV", "CCVC", "CVCCV")
    rafsi = core(kind2)
    cmevla = choose(True, False)
    y = choose("STANDARD", "ALLOW_Y", "FORCE_Y")
    n = choose(0, 2, 3)
    r = combine(c, rafsi, 0, 2, 0, [(0, len(c))], 0, cmevla, n, y, choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), choose(True, False))
    if r is None:
        infeasible()
    word = r[3]
    h = word[len(c):len(word) - len(rafsi)]
    if (kind == "CVV" or kind == "CVhV") and not cmevla and not (n == 2 and kind2 == "CCV"):
        if y == "FORCE_Y":
            check(h == "'y", "falling-off-rafsi-is-hyphened")
        else:
            check(h == "r" or h == "n", "falling-off-rafsi-is-hyphened")
    else:
        check(h == "", "no-needless-hyphen")


def check_vowel_rafsi():
    """A rafsi of vowels only cannot follow CVV or CVC: it would merge with it."""
    kind = pick("CVV", "CVC", "CCV", "CVhV")
    c = core(kind)
    head = ""
    if flip():
        head = char(CV) + text(LETTERS) + char(LETTERS)
    tail = pick("", "y", "'y")
    lujvo = head + c + tail
    v = pick("u", "ui", "i'a")
    rafsi = pick("", "'") + v
    glides = choose(True, False)
    cons = choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT")
    r = combine(lujvo, rafsi, 0, choose(0, 1), 0, [(len(head), len(head) + len(c))], choose(0, 1, 2), choose(True, False), choose(0, 2, 3),
                choose("STANDARD", "ALLOW_Y", "FORCE_Y"), cons, glides, choose(True, False))
    if r is None:
        infeasible()
    check(not (kind in ["CVV", "CVC"] and rafsi[0] == "'"), "vowel-rafsi-not-after-CVV-or-CVC")
    check(not (kind in ["CVV", "CVC"] and rafsi == "ui" and not glides and cons == "CLUSTER"), "vowel-rafsi-not-after-CVV-or-CVC")


def counting(cons):
    """How many consonants the word is known to have (two: it has a cluster, or what the option asks for)."""
    t = pick("", "y", "'", "'y")
    last = char(CV)
    lujvo = char(CV) + text(LETTERS) + last + t
    rafsi = char("abcdefgijklmnoprstuvxz'") + char(CORE) + char(LETTERS)
    before = choose(0, 1, 2)
    mine = choose(0, 1, 2)
    glides = choose(True, False)
    require(rafsi[0] != "'" or rafsi[1] != "'")
    r = combine(lujvo, rafsi, before, mine, 0, [(0, len(lujvo))], 0, choose(True, False), choose(0, 2, 3), choose("STANDARD", "ALLOW_Y", "FORCE_Y"), cons, glides, choose(True, False))
    if r is None:
        infeasible()
    h = r[3][len(lujvo):len(r[3]) - len(rafsi)]
    core_ = rafsi
    if rafsi[0] == "'":
        core_ = rafsi[1:]
    new = mine
    if h == "r" or h == "n":
        new = 2
    elif cons == "CLUSTER" and mine != 2:
        new = 0
        if last in CONS:
            if core_[0] in CONS:
                new = 2
            elif glides and core_[0] in ["i", "u"] and len(core_) > 1 and core_[1] in VOWELS:
                new = 2
    total = before + new
    if total > 2:
        total = 2
    if cons == "ONE_CONSONANT" and total > 0:
        total = 2
    check(r[1] == total, "consonant-count")


def check_count_cluster():
    counting("CLUSTER")


def check_count_two():
    counting("TWO_CONSONANTS")


def check_count_one():
    counting("ONE_CONSONANT")


def check_tosmabru():
    """Which words may still fall apart after a leading CV: all rafsi CVC so far and every joint an initial pair."""
    last = char(CV)
    lujvo = char(CL) + text(LETTERS) + last
    kind = pick("CVC", "CVV", "CCV", "CVhV", "CVCC", "CCVC", "CVCCV", "CCVCV")
    c = core(kind)
    t = pick("", "y", "'y")
    rafsi = c + t
    r = combine(lujvo, rafsi, 0, 2, 0, [(0, len(lujvo))], 1, choose(True, False), choose(0, 2, 3), choose("STANDARD", "ALLOW_Y", "FORCE_Y"),
                choose("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), choose(True, False), choose(True, False))
    tight = last + c[0] in INITIAL
    if r is not None:
        h = r[3][len(lujvo):len(r[3]) - len(rafsi)]
        if tight:
            check(not (kind == "CVC" and t == "y"), "tosmabru-word-refused")
            check(not (kind == "CVCCV" and c[2:4] in INITIAL), "tosmabru-word-refused")
            check((r[0] == 1) == (kind == "CVC"), "tosmabru-open-exactly-after-CVC")
        else:
            check(r[0] == 0, "joint-not-initial-closes-tosmabru")
        check(r[0] == 0 or r[0] == 1, "tosmabru-open-exactly-after-CVC")


def check_score():
    """The score grows by the new rafsi's and the inserted hyphen's."""
    kind = pick("CVV", "CVhV", "CVC")
    c = core(kind)
    rafsi = core(pick("CVV", "CCV", "CVCCV"))
    n = choose(0, 2, 3)
    before = unknown_int()
    r = combine(c, rafsi, 0, 2, before, [(0, len(c))], 0, choose(True, False), n, choose("STANDARD", "ALLOW_Y", "FORCE_Y"))
    if r is None:
        infeasible()
    word = r[3]
    h = word[len(c):len(word) - len(rafsi)]
    bonus = 0
    if n == 2 and kind == "CVV":
        rest = word[3:]
        bonus = tiebreak(word)
    check(r[2] == before + score(h) + score(rafsi) - bonus, "score-adds-up")


def check_tiebreak():
    kind = pick("CVV", "CVhV", "CVC", "CCV")
    kind2 = pick("CVV", "CVhV", "CVC", "CCV", "CVCC", "CCVC", "CVCCV", "CCVCV", "none")
    c = core(kind)
    rest = ""
    if kind2 != "none":
        rest = core(kind2)
    want = 0
    if kind == "CVV" and kind2 in ["CCV", "CCVC", "CVC", "CVCC"]:
        want = 1
    check(tiebreak(c + rest) == want, "tiebreak")


def model_rafsi_tarmi(s):
    return choose(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)


def model_tarmi_ignoring_hyphen(s):
    return choose(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)


def model_is_glide(s):
    return unknown_bool()


def model_contains_consonant(s):
    return unknown_bool()


def model_score(s):
    return 0


def model_tiebreak(s):
    return 0
