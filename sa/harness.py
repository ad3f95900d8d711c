"""Runs the harness functions of a spec module through the abstract interpreter."""
from __future__ import annotations
import os
import time
from .absint import Interp
from .constfold import Envs
from .domain import Unsupported
from .model import AnalysisBroken, Module, Package

SPECS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs")


class SpecModule(Module):
    is_spec = True


def load_spec(name):
    m = SpecModule("spec." + name, os.path.join(SPECS, name + ".py"))
    m.rel = "sa/specs/%s.py" % name
    return m


def run_spec(name, only=None, pkg=None, envs=None, verbose=False, exact=False, **opts):
    """-> dict(findings, uncaught, stats, funcs, harnesses)"""
    pkg = pkg or Package()
    envs = envs or Envs(pkg)
    spec = load_spec(name)
    out = {"findings": [], "stats": {}, "funcs": {}, "harnesses": [], "obl": {}, "broken": None}
    for q in spec.funcs:
        if not q.startswith("check_") or "." in q or (only and not any(o == q if exact else o in q for o in only)):
            continue
        cfg = {}
        ent = envs.env(spec).get("CONFIG")
        if ent is not None and ent.kind == "const":
            cfg = dict(ent.val.get("*", {}))
            cfg.update(ent.val.get(q, {}))
        attrs = {k: cfg.pop(k) for k in list(cfg) if k in ("assume_opaque_index_ok", "fold_chars", "smash", "opaque_dicts", "hull", "segment", "relax_level", "refold_from")}
        inert = cfg.pop("summaries", None)
        cfg.update(opts)
        it = Interp(pkg, envs, spec=spec, **cfg)
        for k, v in attrs.items():
            setattr(it, k, frozenset(v) if k == "hull" else v)
        if inert is not None:
            it.hooks = {k: v for k, v in it.hooks.items() if k in inert}
        t = time.time()
        if it.prof is not None:
            import signal

            def dump(*_):
                for k, v in sorted(it.prof.items()):
                    print("  prof %s:%d  visits %d  before merge %d  after %d" % (*k, *v))
                raise SystemExit(3)
            signal.signal(signal.SIGTERM, dump)
            signal.signal(signal.SIGALRM, dump)
            signal.alarm(int(os.environ["SA_PROF"]))
        try:
            res, bad = it.run(q)
        except Unsupported as e:
            where = "%s:%s" % (e.mod.rel, getattr(e.node, "lineno", "?")) if e.node is not None and e.mod is not None else "?"
            out["broken"] = out["broken"] or AnalysisBroken("harness %s: no transfer function at %s: %s" % (q, where, e))
            res, bad = [], []
            if verbose:
                print("BROKEN", out["broken"])
        for s, v in bad:
            if not it.feasible(s):
                continue
            class F:
                pass
            from .absint import Finding
            f = Finding("no-unexpected-exception:" + v.cls, "%s:%d %s" % (v.where or ("sa/specs/%s.py" % name, 0, q)), "harness %s: %s escapes" % (q, v.cls),
                        {})
            f.count, f.trace = 1, s.note
            if f.key() not in {x.key() for x in out["findings"]}:
                out["findings"].append(f)
        out["findings"] += list(it.findings.values())
        out["harnesses"].append({"name": q, "end_states": len(res), "obligations": sum(it.obl.values()), "seconds": round(time.time() - t, 2), **it.stats})
        for k, v in it.funcs_seen.items():
            out["funcs"][k] = out["funcs"].get(k, 0) + v
        for k, v in it.obl.items():
            out["obl"][k] = out["obl"].get(k, 0) + v
        if verbose:
            print(q, "states", len(res), "t=%.2f" % (time.time() - t), it.stats, "imprecise", getattr(it, "imprecise", 0))
            for f in it.findings.values():
                print("   ", f.rule, f.where, "x%d" % f.count, f.witness)
            for f in out["findings"]:
                if f not in it.findings.values():
                    print("   ", f.rule, f.where, f.detail)
    if not out["harnesses"]:
        raise AnalysisBroken("spec %s has no harness" % name)
    if exact and only and len(out["harnesses"]) != len(only):
        raise AnalysisBroken("spec %s: not all of %s exist" % (name, only))
    return out


def run_parallel(name, harnesses, pkg, envs, limit=780):
    """Each harness in its own process; one that gives no answer in time counts as broken, the others still report."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")

    def child(h, conn):
        try:
            out = run_spec(name, [h], pkg=pkg, envs=envs, exact=True)
            for f in out["findings"]:
                f.trace = ()
            out["broken"] = str(out["broken"]) if out["broken"] else None
            out["findings"] = [{k: v for k, v in f.__dict__.items()} for f in out["findings"]]
        except (AnalysisBroken, Unsupported) as e:
            out = {"findings": [], "funcs": {}, "harnesses": [], "obl": {}, "broken": "harness %s: %s: %s" % (h, type(e).__name__, e)}
        except MemoryError:
            out = {"findings": [], "funcs": {}, "harnesses": [], "obl": {}, "broken": "harness %s: out of memory" % h}
        conn.send(out)
        conn.close()

    t0 = time.time()
    todo, live, outs = list(harnesses), [], {}
    workers = min(8, os.cpu_count() or 1)
    while todo or live:
        while todo and len(live) < workers:
            h = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(h, b))
            p.start()
            b.close()
            live.append((h, p, a))
        for h, p, a in list(live):
            if a.poll(0.02):
                try:
                    outs[h] = a.recv()
                except EOFError:
                    outs[h] = {"findings": [], "funcs": {}, "harnesses": [], "obl": {}, "broken": "harness %s: its process ended" % h}
                p.join()
                live.remove((h, p, a))
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                outs[h] = {"findings": [], "funcs": {}, "harnesses": [], "obl": {}, "broken": "harness %s: no result within %d s" % (h, limit)}
                live.remove((h, p, a))
    out = {"findings": [], "funcs": {}, "harnesses": [], "obl": {}, "broken": None}
    from .absint import Finding
    for h in harnesses:
        o = outs[h]
        for d in o["findings"]:
            f = Finding(d["rule"], d["where"], d["detail"], d["witness"])
            f.__dict__.update(d)
            out["findings"].append(f)
        out["harnesses"] += o["harnesses"]
        if o["broken"] and not out["broken"]:
            out["broken"] = AnalysisBroken(o["broken"])
        for key in ("funcs", "obl"):
            for k, v in o[key].items():
                out[key][k] = out[key].get(k, 0) + v
    return out


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    r = run_spec(sys.argv[1], sys.argv[2:] or None, verbose=True)
    print("FINDINGS", len(r["findings"]), r["obl"])
