import argparse
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

T0 = time.time()
from . import core, ext  # noqa


def find_module(prop):
    import mc.checks
    for m in pkgutil.iter_modules(mc.checks.__path__):
        if m.name.lower().split("_")[0] == prop.lower():
            return "mc.checks." + m.name
    raise SystemExit("no check for %s" % prop)


def replay_path(prop, n):
    d = os.path.join(core.ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%d.json" % (prop, n))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    prop = a.prop
    viols = []
    mod, results, capped, notes, shards = None, [], False, [], []
    known = core.load_known(prop)
    core.KNOWN_KEYS.update(known)
    try:
        try:
            notes = ext.setup()
            mod = importlib.import_module(find_module(prop))
            shards = mod.shards(tier)
        except Exception as e:
            viols.append({"message": "the code under test cannot be built or imported: %r" % e,
                          "traceback": traceback.format_exc()[-3000:]})
        if mod is not None and not viols:
            if a.replay:
                with open(a.replay) as f:
                    v = json.load(f)
                s = v["shard"]
                print("replaying shard %d %r, case %s" % (s, shards[s], v["case"]))
                idx = [s]
            elif a.shard is not None:
                idx = [a.shard]
            else:
                only = os.environ.get("VERIF_ONLY")      # developer option: functions to run
                idx = [i for i, sh in enumerate(shards) if not only or sh[0] in only.split(",")]
                if core.FAST:   # developer option (tools/mutate.py): any order, a part of the time
                    import random
                    random.Random(0).shuffle(idx)
            sub = [shards[i] for i in idx]
            total = 780 if tier == "quick" else float(os.environ.get("VERIF_BUDGET_S", "14400"))
            if core.FAST:
                total = core.FAST
            results, capped = core.explore(mod, sub, seed, tier, total)
            for i, r in zip(idx, results):
                if "crash" in r:
                    viols.append({"message": r["crash"], "shard": i, "case": r["case"],
                                  "shard_args": core.jsonable(shards[i])})
                elif "error" in r:
                    viols.append({"message": "exploration of this part aborted", "shard": i,
                                  "case": None, "traceback": r["error"],
                                  "shard_args": core.jsonable(shards[i])})
                for v in r.get("violations", ()):
                    v["shard"] = i
                    v["shard_args"] = core.jsonable(shards[i])
                    viols.append(v)
    finally:
        ext.cleanup()
    # known findings
    real, seen = [], {}
    for v in viols:
        if v.get("key") in known:
            seen[v["key"]] = seen.get(v["key"], 0) + v.get("count", 1)
        else:
            real.append(v)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, known[k]["what"], seen[k]))
    done = [r for r in results if r.get("done")]
    states = set()
    for r in done:
        states |= r["states"]
    outcomes = set()
    for r in done:
        outcomes |= r["outcomes"]
    n_states = len(states) + sum(r["n_states"] for r in done)
    samples = []
    for r in done:
        samples += r["samples"]
    samples = samples[:: max(1, len(samples) // 6)][:6]
    level = getattr(mod, "LEVEL", "model_checking")
    extra = {}
    for r in done:
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    tr = sum(r["transitions"] for r in done)
    traces = sum(r["traces"] for r in done)
    cov = {"exhaustive": bool(mod is not None and not capped and len(done) == len(results)
                              and not real and not any("capped" in r for r in results)),
           "bounds": getattr(mod, "BOUNDS", ""), "rule": getattr(mod, "RULE", ""),
           "samples": samples, "shards": len(results), "distinct_outcomes": len(outcomes),
           "skipped_outside_precondition": sum(r["skipped"] for r in done),
           "known_findings_seen": len(seen)}
    if level == "fault_enumeration":
        cov["evaluations"] = tr
        cov["distinct_nontrivial"] = n_states
        cov["executions_checked"] = traces
    else:
        cov["states"] = n_states
        cov["transitions"] = tr
        cov["traces_validated_against_impl"] = traces
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + notes,
          "wall_s": round(time.time() - T0, 2), "violations": len(real)}
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    if not a.replay and a.shard is None and not core.FAST:
        with open(os.path.join(core.ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s: states=%d operations=%d executions=%d outcomes=%d skipped=%d exhaustive=%s wall=%.1fs"
          % (prop, tier, n_states, tr, traces, len(outcomes), cov["skipped_outside_precondition"],
             cov["exhaustive"], ev["wall_s"]))
    for n, v in enumerate(real):
        v["property"] = prop
        v["how_to_replay"] = "./check %s --replay <this file>" % prop
        p = a.replay or replay_path(prop, n)
        if not a.replay and not core.FAST:
            with open(p, "w") as f:
                json.dump(core.jsonable(v, -4), f, indent=1)
        if n < (3 if os.environ.get("VERIF_DEBUG") else 10):
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("   ", v["message"][:300])
            if os.environ.get("VERIF_DEBUG"):
                print(json.dumps(core.jsonable(v, -4))[:3500])
    sys.stdout.flush()
    return 1 if real else 0


if __name__ == "__main__":
    sys.exit(main())
