"""Property -> the rules that decide it."""
from .rules import api, effects, forward, names, raises, tables


def spec(name, *harnesses, min_obligations=1, thorough=(), only=None):
    """Abstract interpretation of harness functions of sa/specs/<name>.py against the current source.
    thorough: further harnesses of the thorough tier; only: report only rules that start so (the others belong to another property)."""
    def run(tree, tier):
        from .harness import run_parallel, run_spec
        from .model import AnalysisBroken
        from .rules.base import Result
        todo = list(harnesses) + (list(thorough) if tier == "thorough" else [])
        if len(todo) > 1:
            out = run_parallel(name, todo, tree.pkg, tree.envs, limit=780 if tier == "quick" else 3 * 3600)
        else:
            out = run_spec(name, todo or None, pkg=tree.pkg, envs=tree.envs, exact=True)
        r = Result("spec:" + name)
        r.broken = out["broken"]
        for f in out["findings"]:
            if only and not f.rule.startswith(only):
                continue
            w = f.witness if isinstance(f.witness, dict) else {}
            wit = ", ".join("%s=%s" % (k, v) for k, v in list(w.items())[:12])
            fn = enclosing(tree, f.where)
            r.add("%s" % fn, f.where.split(" ")[0], ("in %s: obligation '%s' of sa/specs/%s.py (%s) fails on this path; abstract values: %s" % (
                fn, f.rule, name, f.detail, wit))[:1500], f.rule)
        obl = sum(out["obl"].values())
        r.count(harnesses=len(out["harnesses"]), obligations_checked=obl, functions_interpreted=len(out["funcs"]),
                abstract_states=sum(h.get("states", 0) for h in out["harnesses"]))
        r.coverage.setdefault("functions", sorted(out["funcs"]))
        for h in out["harnesses"]:
            if not h["obligations"] and not r.broken and not r.findings:
                raise AnalysisBroken("harness %s of spec %s decided nothing" % (h["name"], name))
        if obl < min_obligations and not r.broken and not r.findings:
            raise AnalysisBroken("spec %s checked only %d obligations" % (name, obl))
        return r
    return run


def enclosing(tree, where):
    """Function containing file:line."""
    try:
        rel, line = where.split(" ")[0].rsplit(":", 1)
        line = int(line)
    except ValueError:
        return where
    best = None
    for f in tree.funcs:
        if f.mod.rel == rel and f.node.lineno <= line <= f.node.end_lineno:
            if best is None or f.node.lineno >= best.node.lineno:
                best = f
    return best.qual if best else rel


PROPS = {
    "P01": [names.check],
    "P02": [raises.check,
            spec("edges", "check_y", "check_veljvo_y", "check_build_long_stem", "check_build_long_rafsi", "check_5", "check_build_stem", "check_build_3", "check_0", "check_1", "check_2", "check_3",
                 "check_4", "check_build_2", "check_build_empty", "check_build_last_empty", "check_build_alone", "check_veljvo_3",
                 "check_veljvo_4", thorough=("check_6", "check_longer_y", "check_veljvo_long"), only=("no-unexpected-exception",), min_obligations=20)],
    "P03": [forward.check],
    "P04": [api.check],
    "P05": [tables.check_agree],
    "P06": [tables.check_phono],
    "P07": [tables.check_rafsi],
    "P08": [spec("pieces", "check_greedy", min_obligations=5)],
    "P09": [spec("verdict", "check_plain", "check_empty", "check_is_brivla", "check_is_gismu_or_lujvo", min_obligations=20)],
    "P10": [spec("parts", "check_positions", min_obligations=20)],
    "P11": [spec("join", "check_indices", min_obligations=500)],
    "P12": [spec("join", "check_letters", "check_vowel_rafsi", "check_tosmabru", min_obligations=500)],
    "P13": [spec("join", "check_hyphens", "check_count_cluster", "check_count_two", "check_count_one", min_obligations=100)],
    "P14": [spec("score", min_obligations=5)],
    "P15": [spec("join", "check_score", "check_tiebreak", min_obligations=20),
            spec("parts", "check_score_lujvo", "check_score_refuses", min_obligations=5)],
    "P16": [spec("build", "check_keep_best", "check_pick", "check_pick_later", "check_every_candidate", "check_every_first", "check_first",
                 "check_too_short", min_obligations=100)],
    "P17": [effects.check_trace],
    "P18": [effects.check_determinism],
    "P19": [spec("norm", min_obligations=1000)],
    "P20": [spec("shapes", min_obligations=200)],
    "P21": [spec("parts", "check_forms", min_obligations=100)],
    "P22": [spec("vowels", min_obligations=100)],
    "P23": [spec("parts", "check_accept", "check_same_pieces", "check_identical_pieces", min_obligations=50)],
    "P24": [spec("zihevla", "check_six_V", "check_six_CC", "check_six_CV", "check_five_V", "check_five_C", "check_four", "check_short",
                 "check_other_letters", "check_seven_CC", "check_seven_CV", "check_seven_V",
                 thorough=("check_all_seven_CC", "check_all_seven_CV", "check_all_seven_VC", "check_all_seven_VV", "check_all_seven_Vh"),
                 min_obligations=100)],
    "P25": [spec("parts", "check_components", "check_veljvo", min_obligations=50)],
    "P26": [spec("entry", "check_wrappers", "check_tanru", "check_list", "check_other_types", min_obligations=10)],
    "P27": [spec("build", "check_slinkuhi", "check_slinkuhi_test", min_obligations=4)],
    "P28": [spec("ywords", "check_three_LONGC", "check_three_CVC", "check_three_CVhV", "check_three_VhV", "check_CVC", "check_CVV", "check_CVhV",
                 "check_CCV", "check_V", "check_VhV", "check_GV", "check_CVCC", "check_CVCCVC", "check_CVVCVC", "check_CCVCV",
                 "check_LONGV", "check_LONGC", "check_accepts", min_obligations=200)],
    "P29": [spec("sources", "check_search", min_obligations=5)],
    "P30": [spec("sources", "check_words", "check_word_letters", "check_short_brivla", "check_rafsi", min_obligations=20)],
    "P31": [spec("round", "check_brivla_CCVC_STANDARD", "check_brivla_CCVC_ALLOW_Y", "check_brivla_CCVC_FORCE_Y", "check_brivla_CVV_STANDARD",
                 "check_brivla_CVV_ALLOW_Y", "check_brivla_CVV_FORCE_Y", "check_brivla_CVC_STANDARD", "check_brivla_CVC_ALLOW_Y",
                 "check_brivla_CVC_FORCE_Y", "check_brivla_CVhV", "check_brivla_CVCCV", "check_brivla_CCVCV", "check_brivla_CCV",
                 "check_brivla_CVCC", "check_cmevla_CVC", "check_cmevla_CVV", "check_cmevla_CVhV", "check_cmevla_CCV",
                 "check_cmevla_CVCC", "check_cmevla_CCVC", "check_cmevla_CVCCV", "check_cmevla_CCVCV", min_obligations=1000)],
}
