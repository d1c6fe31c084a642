"""Decides a property: python harness/check.py PROPERTY [quick|thorough]

Runs programs chosen for the property on the library in /repo, has TLC check the
recorded traces against the specification, has TLC explore the property's model
and replays what it prints on the library.
"""

import argparse
import json
import os
import random
import resource
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("BINOBJ_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import tlc  # noqa: E402

TITLES = {}


def load_findings():
    """Known findings: {property: [signature]}; `fixed:` lines suppress nothing."""
    out = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding:"):
                    _, prop, sig = line.split(None, 2)
                    out.setdefault(prop.split("=")[1], []).append(sig.strip())
    return out


# ------------------------------------------------------------------ recording

def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, resource.RLIM_INFINITY))


def record(job):
    """Run some scenarios and write their traces to a file."""
    from run import Hang
    from scenario import Scenario

    prop, seed, first, last, knobs, path = job
    events = hangs = errors = 0
    ops = {}
    n = 0
    with open(path, "w") as f:
        for i in range(first, last):
            sc = Scenario(random.Random(f"{prop}/{seed}/{i}"), **knobs)
            try:
                trace = sc.run(str(i))
            except (Exception, Hang) as e:
                # The instances can't be used as planned any more; what was
                # recorded shows why.
                errors += 1
                if sc.r is None:
                    raise
                trace = sc.r.trace(str(i))
                trace["stopped"] = repr(e)[:200]
            if sc.r.hung:
                hangs += 1
            for ev in trace["ev"]:
                key = ev["op"] + ("" if ev["res"]["r"] == "ok" else "!")
                ops[key] = ops.get(key, 0) + 1
            events += len(trace["ev"])
            n += 1
            f.write(json.dumps(trace) + "\n")
            if hangs > 2:
                break
    return {"path": path, "events": events, "stopped": errors, "ops": ops, "traces": n}


def record_all(prop, seed, count, knobs, scratch, workers=8):
    from concurrent.futures import ProcessPoolExecutor

    per = (count + workers - 1) // workers
    jobs = [
        (prop, seed, k * per, min(count, (k + 1) * per), knobs, os.path.join(scratch, f"traces{k}"))
        for k in range(workers)
    ]
    with ProcessPoolExecutor(workers, initializer=limit_memory) as ex:
        return list(ex.map(record, jobs))


# ------------------------------------------------------------------- checking

def read_traces(path):
    with open(path) as f:
        return [json.loads(line) for line in f]


def judge(files, scratch, jvms=4):
    """Have TLC check the traces in some files.

    Returns what it found for each: (trace, event number, what is wrong).
    """
    groups = [files[k::jvms] for k in range(jvms) if files[k::jvms]]
    shards = []
    for k, group in enumerate(groups):
        path = os.path.join(scratch, f"shard{k}")
        with open(path, "wb") as out:
            for name in group:
                with open(name, "rb") as f:
                    shutil.copyfileobj(f, out)
        shards.append(path)
    bad, stats = [], {"states": 0, "transitions": 0, "accepted": 0}
    todo = shards
    while todo:
        again = []
        for path, r in zip(todo, tlc.run_shards("Trace", "Trace.cfg", scratch, todo, workers=8 // jvms)):
            traces = read_traces(path)
            done = {x[1] for x in r["out"] if x[0] == "DONE"}
            wrong = {x[1]: x for x in r["out"] if x[0] == "MISMATCH"}
            stats["states"] += r["distinct"]
            stats["transitions"] += max(0, r["generated"] - len(traces))
            if r["done"]:
                if len(done) + len(wrong) != len(traces):
                    raise tlc.TLCError(f"{len(traces)} traces, but {len(done)} accepted and {len(wrong)} rejected")
                stats["accepted"] += len(done)
                bad += [(traces[x[1] - 1], x[2], x[3]) for x in wrong.values()]
                continue
            # Something recorded can't even be compared with what's allowed.
            at = tlc.failed_at(r["log"])
            if at is None:
                raise tlc.TLCError(r["log"][-3000:])
            tid, l = at
            bad.append((traces[tid - 1], l, ["incomparable", tlc.message(r["log"]), [], 0, []]))
            with open(path, "w") as f:
                for i, t in enumerate(traces):
                    if i != tid - 1:
                        f.write(json.dumps(t) + "\n")
            if len(bad) < 12:
                again.append(path)
        todo = again
    return bad, stats


# --------------------------------------------------------------------- output

def brief(t, l, detail):
    """What a rejected trace shows."""
    ev = t["ev"][l - 1]
    return {
        "event": {k: v for k, v in ev.items() if k not in ("res", "st")},
        "observed": ev["res"],
        "wrong": detail[0],
        "allowed": detail[1:4],
    }


def sample(path, rng):
    """A recorded run, shortened."""
    traces = read_traces(path)
    t = rng.choice(traces)
    return {
        "classes": [
            {k: ([{a: b for a, b in f.items() if b not in ("", [], -1, 0, False)} for f in v] if k == "fields" else v)
             for k, v in c.items() if v}
            for c in t["prog"]["classes"]
        ][:1],
        "events": [
            {k: v for k, v in ev.items() if k not in ("st",)} for ev in t["ev"][:6]
        ],
    }


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--show", type=int, default=0, help="print this many rejected traces")
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--no-model", action="store_true")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    args = ap.parse_args()
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    t0 = time.time()
    from profiles import PROFILES

    prop, tier = args.property, args.tier
    knobs = dict(PROFILES[prop])
    count = args.runs or knobs.pop("n") * (10 if tier == "thorough" else 1)
    knobs.pop("n", None)
    seed = f"{args.seed}/{tier}"
    scratch = tempfile.mkdtemp(prefix="binobj-check-")
    evidence = os.path.join(ROOT, "evidence")
    os.makedirs(evidence, exist_ok=True)
    try:
        bad, stats, recs = [], {"states": 0, "transitions": 0, "accepted": 0}, []
        rounds = max(1, count // 8000)
        for k in range(rounds):
            recs = record_all(prop, f"{seed}/{k}" if rounds > 1 else seed, count // rounds, knobs, scratch)
            b, s = judge([r["path"] for r in recs], scratch)
            bad += b
            for key in s:
                stats[key] += s[key]
            if bad or (tier == "thorough" and time.time() - t0 > 560):
                break
        rng = random.Random(prop + seed)
        samples = [sample(rng.choice(recs)["path"], rng) for _ in range(2)]
        model = None
        if not args.no_model and not bad:
            import model as m

            model = m.explore(prop, tier, scratch)
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise
    shutil.rmtree(scratch, ignore_errors=True)

    if args.show:
        show(bad[: args.show])
    known = load_findings().get(prop, [])
    problems = []
    for t, l, detail in bad:
        problems.append({"kind": "trace", **brief(t, l, detail), "trace": t, "at": l})
    if model:
        problems += model["problems"]
    new, old = [], []
    for p in problems:
        sig = json.dumps([p["wrong"], p["event"]], sort_keys=True)
        (old if sig in known else new).append(p)
    for sig in known:
        print(f"KNOWN-FINDING: property={prop} {sig}")
    for name in os.listdir(evidence):
        if name.startswith(prop + ".violation"):
            os.unlink(os.path.join(evidence, name))
    for i, p in enumerate(new[:5]):
        path = os.path.join(evidence, f"{prop}.violation{i + 1}.json")
        with open(path, "w") as f:
            json.dump(p, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {p['wrong']}: {json.dumps(p['event'])[:300]}")
        print(f"  observed {json.dumps(p['observed'])[:300]}")
        print(f"  allowed  {json.dumps(p['allowed'])[:300]}")

    ops = {}
    for r in recs:
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
    coverage = {
        "states": stats["states"] + (model["states"] if model else 0),
        "transitions": stats["transitions"] + (model["transitions"] if model else 0),
        "traces_validated_against_impl": stats["accepted"] + (model["replayed"] if model else 0),
        "recorded_runs_accepted": stats["accepted"],
        "recorded_runs_rejected": len(bad),
        "runs_stopped_early": sum(r["stopped"] for r in recs),
        "operations_in_last_round": ops,
        "samples": samples,
    }
    if model:
        coverage["model"] = {k: model[k] for k in ("module", "programs", "states", "transitions", "depth", "replayed", "events", "invariants", "actions", "tlc_s", "wall_s")}
        coverage["samples"] = samples + model["samples"]
    report = {
        "property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": int(args.seed) if args.seed.isdigit() else 0,
        "level": "model_checking", "coverage": coverage, "wall_s": round(time.time() - t0, 1), "violations": len(new),
        "assumptions": [
            "the recorded runs are a sample; the model is exhaustive within its constants",
            "functions passed by users (validators, conditions, deciders, factories) are those of the specification",
        ],
    }
    with open(os.path.join(evidence, prop + ".json"), "w") as f:
        json.dump(report, f, indent=1)
    print(f"{prop} {tier}: {stats['accepted']} runs accepted, {len(bad)} rejected, "
          f"{report['coverage']['states']} states, {report['wall_s']} s")
    return 1 if new else 0


def show(bad):
    for t, l, detail in bad:
        print("--- trace", t["id"], "event", l, t.get("stopped", ""))
        b = brief(t, l, detail)
        for k, v in b.items():
            print("  ", k, json.dumps(v)[:1500])
        if detail[0] == "instances":
            print("   st", json.dumps(t["ev"][l - 1]["st"])[:1500])
            print("   ex", json.dumps(detail[4])[:1500])
        from build import RAW

        for c in t["prog"]["classes"]:
            print("   class", {k: v for k, v in c.items() if k != "fields" and v})
            for f in c["fields"]:
                print("      ", json.dumps({k: v for k, v in f.items() if v != RAW[k]})[:600])


if __name__ == "__main__":
    sys.exit(main())
