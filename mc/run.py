"""python -m mc.run <property> [--replay FILE] [--scope NAME]"""
import json
import os
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import rng
rng.install()

REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True

import importlib
import logging
logging.disable(logging.CRITICAL)

from mc import core

ROOT = core.ROOT
EVID = os.path.join(ROOT, "evidence")


def load(prop):
    import jwkest
    got = os.path.realpath(jwkest.__file__)
    want = os.path.realpath(os.path.join(REPO, "src"))
    if not got.startswith(want + os.sep):
        raise core.HarnessError("jwkest imported from %s" % got)
    mod = importlib.import_module("mc.checks." + prop.lower())
    return mod


def evidence(prop, mod, per, extra, wall, nviol, known):
    tot = core.Result()
    scopes = []
    samples = []
    outcomes = {}
    for name, r in per.items():
        tot.states += r.states
        tot.transitions += r.transitions
        tot.leaves += r.leaves
        tot.evals += r.evals
        d = dict(scope=name, states=r.states, transitions=r.transitions,
                 executions=r.leaves, pruned=r.pruned,
                 comparisons=r.evals,
                 outcomes=dict(r.outcomes))
        d.update(extra.get(name, {}))
        scopes.append(d)
        samples.extend(r.samples[:1])
    doc = dict(property=prop, tier=core.TIER, seed=core.SEED,
               level="model_checking",
               coverage=dict(
                   states=tot.states, transitions=tot.transitions,
                   traces_validated_against_impl=tot.leaves,
                   comparisons=tot.evals,
                   samples=samples[:12],
                   scopes=scopes,
                   bounds={s.name: s.bounds for s in mod._scopes},
                   exhaustive=True,
                   violations=nviol,
                   known_findings=sorted(known)),
               wall_s=round(wall, 2))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.json.tmp%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def main():
    args = sys.argv[1:]
    prop = args[0]
    t0 = time.time()
    mod = load(prop)
    scopes = mod.scopes(core.TIER)
    if "--scope" in args:
        want = args[args.index("--scope") + 1].split(",")
        scopes = [s for s in scopes if s.name in want]
    mod._scopes = scopes
    if "--replay" in args:
        rep = json.load(open(args[args.index("--replay") + 1]))
        sc = [s for s in scopes if s.name == rep["scope"]][0]
        if sc.init:
            sc.init()
        if sc.kind == "bfs":
            def tup(x):
                return tuple(tup(i) for i in x) if isinstance(x, list) else x
            rng.RNG.reset("%d|%s" % (core.SEED, sc.name))
            sc.run([tup(o) for o in rep["history"]])
            print("replay: no violation")
            return 0
        c, err = core.run_path(sc, rep["choices"])
        print("\n".join(core.describe(c)))
        print("notes", c.notes)
        print("result:", repr(err) if err is None else getattr(
            err, "msg", err))
        return 1 if err else 0
    per, extra, _ = core.run_scopes(prop, scopes)
    viol, errors, known = [], [], {}
    for r in per.values():
        viol.extend(r.violations)
        errors.extend(r.errors)
        for k, v in r.known.items():
            known[k] = known.get(k, 0) + v
    wall = time.time() - t0
    evidence(prop, mod, per, extra, wall, len(viol), known)
    for name, r in per.items():
        print("  %-34s states=%-8d transitions=%-8d executions=%-7d %s" % (
            name, r.states, r.transitions, r.leaves,
            dict(r.outcomes.most_common(6))))
    sigs = core.known_sigs(prop)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, sigs[k]["what"]))
    if viol:
        seen = set()
        for n, v in enumerate(viol[:5]):
            path = os.path.join(EVID, "replay-%s-%d.json" % (prop, n))
            v["property"] = prop
            v["tier"] = core.TIER
            v["seed"] = core.SEED
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            print("--- %s: %s" % (v["scope"], v["msg"]))
            print("    choices: %s" % (v.get("labels") or v.get("history")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS ERROR")
        print("\n".join(errors[:5]))
        return 2
    print("%s: held on %d executions, %d states (%.1f s)" % (
        prop, sum(r.leaves for r in per.values()),
        sum(r.states for r in per.values()), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
