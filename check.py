#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

    check.py C01 [--tier quick|thorough] [--replay FILE] [--scale X]

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; exit 2: the check itself
failed.
"""
import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("VP_STAGE") != "1":
    env = dict(os.environ, VP_STAGE="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               VP_REPO=REPO, PYTHONPATH=REPO, PYTHONWARNINGS="ignore")
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import signal  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
from collections import Counter  # noqa: E402

sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from vp import engine, gen  # noqa: E402

CAPS = {"quick": 600.0, "thorough": 6 * 3600.0}


def known_entries(prop):
    path = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [e for e in data.get("known", []) if e["property"] == prop]


def write_replay(prop, tier, seed, res):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{res['target']}.json")
    tape, message, detail, runs = res["violation"]
    with open(path, "w") as f:
        json.dump({"property": prop, "target": res["target"], "tier": tier, "seed": seed,
                   "tape": tape, "message": message,
                   "detail": {k: engine.jsonable(v) for k, v in detail.items()},
                   "shrink_runs": runs, "job": res.get("job"),
                   "literals": gen.LITERALS}, f, indent=1)
        f.write("\n")
    return path


def report(prop, message, detail):
    print(f"[{prop}] {message}")
    for k, v in detail.items():
        print(f"    {k}: {v}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=("quick", "thorough"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--only")
    args = ap.parse_args()
    prop = args.property
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.monotonic()

    try:
        import d42
    except Exception:
        traceback.print_exc()
        return 2
    root = os.path.dirname(os.path.dirname(os.path.abspath(d42.__file__)))
    if root != os.path.abspath(REPO):
        print(f"check: d42 imported from {root}, not from {REPO}", file=sys.stderr)
        return 2
    gen.harvest(REPO)
    mod = importlib.import_module("vp.props." + prop.lower())
    targets = mod.targets()
    if args.only:
        targets = [t for t in targets if t.name == args.only]

    if args.replay:
        rep = json.load(open(args.replay))
        if rep.get("literals"):
            gen.use_literals(*rep["literals"])
        target = next(t for t in mod.targets() if t.name == rep["target"])
        signal.signal(signal.SIGALRM, engine._on_alarm)
        sys.setrecursionlimit(1500)
        if rep["tape"] is None:
            ctx = engine.Ctx()
            for sh in range(target.shards):
                try:
                    target.fn(sh, target.shards, ctx)
                except engine.Violation as v:
                    report(prop, v.message, v.detail)
                    print(f"VIOLATION property={prop} replay={args.replay}")
                    return 1
            print("replay: no violation")
            return 0
        status, _, v = engine.execute(target.fn, rep["tape"], None, engine.Ctx())
        if status == "violation":
            report(prop, v.message, v.detail)
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print(f"replay: {status}")
        return 0

    # known findings: shown, never suppressing anything the random search finds elsewhere
    code = 0
    nviol = 0
    for e in known_entries(prop):
        what = mod.PROBES[e["probe"]]()
        if what:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")

    results = engine.run_targets(targets, args.tier, seed, CAPS[args.tier], prop, args.scale)

    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": mod.RULE, "samples": []}
    labels, excluded, by_target = Counter(), Counter(), {}
    keys = set()
    for r in results:
        b = by_target.setdefault(r["target"], Counter())
        for n in ("cases", "discards", "timeouts", "checks"):
            b[n] += r[n]
        b["harness"] += r["harness"]
        b["corpus"] += r["corpus"]
        b["truncated"] += bool(r["truncated"])
        cov["evaluations"] += r["cases"]
        labels.update(r["labels"])
        excluded.update(r["excluded"])
        keys |= r["nontrivial"]
        cov["samples"] += [engine.jsonable(s) for s in r["samples"]]
    cov["distinct_nontrivial"] = len(keys)
    cov["samples"] = cov["samples"][:24]
    cov["oracle_checks"] = sum(b["checks"] for b in by_target.values())
    cov["targets"] = {k: dict(v) for k, v in by_target.items()}
    cov["labels"] = dict(sorted(labels.items()))
    if excluded:
        cov["excluded"] = dict(excluded)
    ex = [t.name for t in targets if t.exhaustive]
    if ex:
        cov["exhaustive_targets"] = ex
    errors = [r["error"] for r in results if r["error"]]
    for r in results:
        if r["violation"]:
            path = write_replay(prop, args.tier, seed, r)
            report(prop, r["violation"][1], r["violation"][2])
            print(f"VIOLATION property={prop} replay={path}")
            code = 1
            nviol += 1
            break
    wall = round(time.monotonic() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": args.tier, "seed": seed, "level": "exploration",
                   "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
                   "wall_s": wall, "violations": nviol}, f, indent=1)
        f.write("\n")
    if code == 0 and errors:
        print(errors[0], file=sys.stderr)
        return 2
    harness = sum(r["harness"] for r in results)
    if harness:
        text = next(t for r in results for t in r["harness_text"])
        print(f"{harness} cases could not be judged, for example:\n{text}", file=sys.stderr)
        if code == 0 and harness > 20 + cov["evaluations"] // 50:
            return 2
    print(f"[{prop}] {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{sum(b['discards'] for b in by_target.values())} discarded, "
          f"{sum(b['timeouts'] for b in by_target.values())} timeouts, {wall} s")
    return code


if __name__ == "__main__":
    sys.exit(main())
