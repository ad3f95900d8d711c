"""Decide one property on /repo's current source:  python3 sa/run.py P03 [--tier quick|thorough]

exit 0: no unlisted violation; exit 1: VIOLATION line; exit 2: the analysis has no answer.
"""
from __future__ import annotations
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sa.model import AnalysisBroken       # noqa: E402
from sa.domain import Unsupported, Budget        # noqa: E402


def known(prop):
    """KNOWN property=<id> <rule> <construct>  -- one listed genuine finding per line."""
    out = set()
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            w = line.split(None, 3)
            if len(w) >= 4 and w[0] == "known:" and w[1] == "property=" + prop:
                out.add((w[2], w[3].strip().split(" ")[0]))
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    from sa.registry import PROPS
    from sa.rules.base import Tree
    tree = Tree()
    findings, cov, rules = [], {}, []
    broken = None
    for rule in PROPS[prop]:
        try:
            r = rule(tree, tier)
        except (AnalysisBroken, Unsupported) as e:
            broken = broken or e
            continue
        broken = broken or getattr(r, "broken", None)
        rules.append(r.rule)
        findings += r.findings
        for k, v in r.coverage.items():
            if isinstance(v, int):
                cov[k] = cov.get(k, 0) + v
            elif isinstance(v, list):
                cov[k] = sorted(set(cov.get(k, [])) | set(v))
            else:
                cov[k] = v
    ok = known(prop)
    evdir = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
    new = [f for f in findings if (f["rule"], f["construct"].replace(" ", "_")) not in ok]
    cov["rules"] = sorted(set(rules))
    cov["modules_parsed"] = len(tree.pkg.modules)
    cov["explanation"] = "Static rules applied to the current source of /repo; counts are what this run analysed."
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    if broken is not None and not new:
        raise broken            # no violation found, but not everything could be analysed: no answer
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for f in findings:
        if f not in new:
            print("KNOWN-FINDING: property=%s %s %s: %s" % (prop, f["where"], f["rule"], f["detail"]))
    if new:
        rep = os.path.join(evdir, prop + ".report.txt")
        with open(rep, "w") as f:
            for x in new:
                f.write("%s\n  rule: %s\n  construct: %s\n  %s\n" % (x["where"], x["rule"], x["construct"], x["detail"]))
                print("%s: [%s] %s" % (x["where"], x["rule"], x["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("OK property=%s (%s) %.1fs %s" % (prop, tier, time.time() - t0, {k: v for k, v in cov.items() if isinstance(v, int)}))
    return 0


def guarded(argv, box):
    try:
        box.append(main(argv))
    except (AnalysisBroken, Unsupported, Budget) as e:
        print("NO ANSWER: %s: %s" % (type(e).__name__, e))
        box.append(2)
    except BaseException:
        traceback.print_exc(limit=-6)
        box.append(2)


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=guarded, args=(sys.argv[1:], box))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)
