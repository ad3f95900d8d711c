"""Development aid: which checks report which planted change (seeded/), each in a scratch copy of /repo.
   python3 tools/matrix.py [--all] [BUG...]     --all: every check against every change, not only its own property"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    bug, prop, copy, ev = job
    env = dict(os.environ, SA_REPO=copy, SA_EVIDENCE=ev, PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([sys.executable, "sa/run.py", prop], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
        return bug, prop, p.returncode, (p.stdout + p.stderr).strip().split("\n")[-1][:160]
    except subprocess.TimeoutExpired:
        return bug, prop, 9, "timeout"


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    base = os.path.join(HERE, "seeded")
    bugs = [b for b in sorted(os.listdir(base)) if not args or b in args]
    props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    top = tempfile.mkdtemp(prefix="matrix")
    jobs = []
    for b in bugs:
        copy = os.path.join(top, b)
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns(".git", "node_modules", "target"))
        subprocess.check_call(["git", "apply", os.path.join(base, b, "patch.diff")], cwd=copy)
        own = json.load(open(os.path.join(base, b, "meta.json")))["property"]
        for p in props if "--all" in sys.argv else [own]:
            jobs.append((b, p, copy, os.path.join(top, "ev-%s-%s" % (b, p))))
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for b, p, rc, line in ex.map(one, jobs):
            res.setdefault(b, {})[p] = (rc, line)
    shutil.rmtree(top)
    path = os.path.join(HERE, "tools", "matrix.json")
    seen = json.load(open(path)) if os.path.exists(path) else {}
    for b in bugs:
        seen[b] = sorted({p for p, (rc, _) in res[b].items() if rc == 1} | ({p for p in seen.get(b, []) if p not in res[b]}))
    json.dump(seen, open(path, "w"), indent=1, sort_keys=True)
    for b in bugs:
        own = json.load(open(os.path.join(base, b, "meta.json")))["property"]
        r = res[b]
        hits = [p for p, (rc, _) in r.items() if rc == 1]
        odd = ["%s(%d)" % (p, rc) for p, (rc, _) in r.items() if rc not in (0, 1)]
        print(b, own, "CAUGHT" if own in hits else "MISSED", "by", ",".join(hits) or "-", "no answer: " + ",".join(odd) if odd else "", "" if own in hits else r.get(own, ("", ""))[1])


main()
