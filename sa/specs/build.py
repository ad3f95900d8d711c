"""Building a lujvo: keeping the best candidates, choosing the result, and the helpers around it."""
LETTERS = "abcdefgijklmnoprstuvxyz'"
CORE = "abcdefgijklmnoprstuvxz'"
CV = "abcdefgijklmnoprstuvxz"
CL = "bcdfgjklmnprstvxz"
STUBS = ["get_rafsi_list_list", "combine", "is_slinkuhi", "score", "tarmi_ignoring_hyphen"]
CONFIG = {"*": {"summaries": STUBS}, "check_first": {"summaries": STUBS[:3]}, "check_slinkuhi_test": {"summaries": ["jvokaha"]}}


# ---------------------------------------------------------------- models
def model_get_rafsi_list_list(valsi_list, y_hyphens="STANDARD", exp_rafsi_shapes=False, consonants="CLUSTER", glides=False, allow_mz=False):
    return exp_rafsi_shapes           # the harness hands the lists in here


def model_combine(lujvo, rafsi, lujvo_consonants, rafsi_consonants, lujvo_score, index_list, tosmabru_type, generate_cmevla, tanru_len=0,
                  y_hyphens="STANDARD", consonants="CLUSTER", glides=False, allow_mz=False):
    """The harness puts the outcome of each joint in place of the consonant count: what a joint gives depends on the rafsi, or
    on the working lujvo and the rafsi."""
    if rafsi_consonants is None:
        return None
    if len(index_list[-1]) == 4:
        t, n, sc, w = index_list[-1]
        check(lujvo == w and lujvo_consonants == n and lujvo_score == sc and tosmabru_type == t, "kept-candidate-carried-on-whole")
    if rafsi_consonants[0] == "first":
        word, n, sc, t, span, length = rafsi_consonants[1]
        check(lujvo == word and lujvo_consonants == n and lujvo_score == sc, "first-rafsi-starts-the-word")
        check(len(index_list) == 1 and index_list[0][0] == 0 and index_list[0][1] == span, "first-index-pair")
        check(tosmabru_type == t, "first-rafsi-tosmabru-type")
        check(tanru_len == length, "length-known-at-first-joint")
        return 0, 2, 1, "ta", index_list
    if rafsi_consonants[0] == "by":
        for who, what in rafsi_consonants[1]:
            if who == lujvo:
                t, n, sc, w = what
                return t, n, sc, w, index_list + [what]
        return None
    t, n, sc, w = rafsi_consonants[1]
    return t, n, sc, w, [rafsi_consonants[1]]


def model_is_slinkuhi(string, y_hyphens="STANDARD", allow_mz=False):
    return string[0] == "s"


def model_score(rafsi):
    return 0


def model_tarmi_ignoring_hyphen(rafsi):
    return 9


# ---------------------------------------------------------------- keeping the best of each kind
def check_keep_best():
    """Of two candidates of one kind (tosmabru type, consonants, last letter) the cheaper is carried on."""
    t, n = pick(0, 1, 2), pick(0, 1, 2)
    end = pick("a", "n", "y")
    k1 = (t, n, unknown_int(), "t" + end)
    k2 = (t, n, unknown_int(), "k" + end)
    other = pick((0, 0, 5, "le"), (1, 2, 5, "lo"), (2, 2, 5, "lu"))
    cands = [("c", ("is", other)), ("a", ("is", k1)), ("b", ("is", k2))]
    hit = ("by", [("t" + end, (0, 2, 9, "zu")), ("k" + end, (0, 2, 9, "zo"))])
    word, sc, idx = get_lujvo_from_list(["ba", "da", "de"], exp_rafsi_shapes=[[("x", 0)], cands, [("q", hit)]])
    if word == "zu":
        check(k1[2] <= k2[2], "cheaper-of-its-kind-kept")
        check(idx[0][3] == "t" + end, "indices-belong-to-word")
    else:
        check(word == "zo" and k2[2] <= k1[2], "cheaper-of-its-kind-kept")
        check(idx[0][3] == "k" + end, "indices-belong-to-word")


def picking(cmevla, endings, c1, c2, lists):
    ok1 = c1[0] == 0 and c1[1] == 2 and (endings[0] == "n") == cmevla and endings[0] != "y"
    ok2 = c2[0] == 0 and c2[1] == 2 and (endings[1] == "n") == cmevla and endings[1] != "y"
    require(c1[2] < 1000000000)
    require(c2[2] < 1000000000)
    w1 = c1[3]
    w2 = c2[3]
    try:
        word, sc, idx = get_lujvo_from_list(["ba", "da", "de"][:len(lists)], cmevla, "STANDARD", lists, "CLUSTER", False, False)
    except NoLujvoFoundError:
        check(not ok1 and not ok2, "eligible-candidate-found")
        infeasible()
    check(ok1 or ok2, "result-is-eligible")
    if word == w1:
        check(ok1, "result-is-eligible")
        check(sc == c1[2], "score-belongs-to-word")
        check(idx[0][3] == w1, "indices-belong-to-word")
        check(not ok2 or c1[2] <= c2[2], "result-is-cheapest")
    else:
        check(word == w2, "result-is-a-candidate")
        check(ok2, "result-is-eligible")
        check(sc == c2[2], "score-belongs-to-word")
        check(idx[0][3] == w2, "indices-belong-to-word")
        check(not ok1 or c2[2] <= c1[2], "result-is-cheapest")


def check_pick():
    """The result is the cheapest candidate of the last round that can stand as a word of the wanted kind."""
    cmevla = pick(True, False)
    endings = pick(("a", "a"), ("a", "e"), ("n", "n"), ("n", "a"), ("y", "a"))
    c1 = (pick(0, 1, 2), pick(0, 1, 2), unknown_int(), "t" + endings[0])
    c2 = (pick(0, 1, 2), pick(0, 1, 2), unknown_int(), "k" + endings[1])
    picking(cmevla, endings, c1, c2, [[("x", 0)], [("p", ("is", c1)), ("q", ("is", c2))]])


def check_pick_later():
    """The same when more rafsi follow the first two."""
    cmevla = pick(True, False)
    endings = pick(("a", "a"), ("a", "e"), ("n", "n"), ("n", "a"))
    c1 = (pick(0, 1), pick(1, 2), unknown_int(), "t" + endings[0])
    c2 = (pick(0, 2), pick(0, 2), unknown_int(), "k" + endings[1])
    before = ("z", ("is", pick((0, 0, 7, "za"), (1, 2, 7, "zan"), (2, 1, 7, "z'y"))))
    picking(cmevla, endings, c1, c2, [[("x", 0)], [before], [("p", ("is", c1)), ("q", ("is", c2))]])


def check_every_candidate():
    """Every rafsi is tried after every kept candidate: the only way to finish is found wherever it is."""
    k1 = (pick(0, 1, 2), pick(0, 1, 2), 5, "ta")
    k2 = (pick(0, 1, 2), pick(0, 1, 2), 6, pick("ke", "k'y"))
    last = (0, 2, 9, "zu")
    who = pick("ta", k2[3])
    hit = ("by", [(who, last)])
    final = pick([("p", None), ("q", hit)], [("p", hit), ("q", None)])
    word, sc, idx = get_lujvo_from_list(["ba", "da", "de"], exp_rafsi_shapes=[[("x", 0)], [("a", ("is", k1)), ("b", ("is", k2))], final])
    check(word == "zu" and sc == 9, "every-combination-tried")
    check(idx[-1][3] == "zu" and idx[0][3] == who and len(idx) == 2, "indices-belong-to-word")


def check_every_first():
    last = (0, 2, 9, "zu")
    first = pick([("x", 0), ("y", 1)], [("y", 0), ("x", 1)])
    hit = ("by", [("x", last)])
    word, sc, idx = get_lujvo_from_list(["ba", "da"], exp_rafsi_shapes=[first, pick([("p", None), ("q", hit)], [("p", hit)])])
    check(word == "zu" and sc == 9, "every-combination-tried")


def check_first():
    """The first joint starts from the first rafsi: its text, its count, its score, its place, and whether it may fall apart."""
    kind = pick("CVC", "CVCy", "CVV", "CVV'", "CCV", "CVCC")
    core = char(CL)
    if kind[:2] == "CV":
        core += char("aeiou")
    else:
        core += char(CL)
    if kind[:3] == "CVC":
        core += char(CL)
    else:
        core += char("aeiou")
    if kind == "CVCC":
        core += char(CL)
    tail = "y" if kind == "CVCy" else "'" if kind == "CVV'" else ""
    cmevla = choose(True, False)
    n0 = choose(0, 1, 2)
    t = 0
    if not cmevla and kind[:3] == "CVC" and kind != "CVCC":
        t = 2 if kind == "CVCy" else 1
    three = flip()
    lists = [[(core + tail, n0)], [("p", ("first", (core + tail, n0, score(core + tail), t, len(core), 3 if three else 2)))]]
    if three:
        lists += [[("q", ("is", (0, 2, 3, "tan" if cmevla else "ta")))]]
    try:
        r = get_lujvo_from_list(["ba", "da", "de"][:len(lists)], cmevla, exp_rafsi_shapes=lists)
    except NoLujvoFoundError:
        infeasible()


def check_slinkuhi():
    cmevla = choose(True, False)
    end = pick("a", "n")
    w = pick("t", "s") + end
    require((end == "n") == cmevla)
    try:
        word, sc, idx = get_lujvo_from_list(["ba", "da"], cmevla, exp_rafsi_shapes=[[("x", 0)], [("p", ("is", (0, 2, 3, w)))]])
    except NoLujvoFoundError:
        check(not cmevla and w[0] == "s", "good-word-not-refused")
        infeasible()
    check(cmevla or word[0] != "s", "slinkuhi-refused")


def check_too_short():
    n = pick(0, 1)
    try:
        r = get_lujvo_from_list(["ba"][:n], exp_rafsi_shapes=[[("x", 0)]][:n])
        refused = False
    except NoLujvoFoundError:
        refused = True
    check(refused, "fewer-than-two-words-refused")


# ---------------------------------------------------------------- the slinku'i test itself
def model_jvokaha(lujvo, y_hyphens="STANDARD", consonants="CLUSTER", glides=False, allow_mz=False):
    check(lujvo[:2] == "to", "tested-after-to")
    check(y_hyphens == "FORCE_Y" and allow_mz == "mz", "options-reach-test")
    if lujvo[-1] == "a":
        return ["to", lujvo]
    if lujvo[-1] == "e":
        raise InvalidClusterError("no")
    raise DecompositionError("no")


def check_slinkuhi_test():
    w = char(LETTERS) + text(LETTERS) + char("aei")
    got = is_slinkuhi(w, y_hyphens="FORCE_Y", allow_mz="mz")
    check(got == (w[-1] == "a" and w[0] not in list("aeiou")), "slinkuhi-exactly-when-to-joins")
