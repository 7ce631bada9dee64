#!/usr/bin/env python3
"""
Run the check of one property: run.py <ID> [--tier quick|thorough] [--seed N] [--jobs N]
[--only TEST] | run.py --replay FILE

Exit 0: the property held on everything explored. Exit 1: a VIOLATION line was printed.
Exit 2: the machinery failed.
"""
import argparse
import hashlib
import importlib
import json
import logging
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)

from pbt import engine  # noqa: E402

KNOWN_FINDINGS = os.path.join(VERIF, "known_findings.jsonl")
ROUNDS = 12
QUICK_CAP_S = 420.0
# Thorough: as many cases as fit (20 times the quick ones, at most); VERIF_BUDGET_S for longer runs
THOROUGH_CAP_S = float(os.environ.get("VERIF_BUDGET_S", "760"))


def fingerprint(test, case):
    return hashlib.blake2b(
        (test.name + ":" + ",".join(map(str, case.choices))).encode(), digest_size=8
    ).hexdigest()


def worker(prop, tests, seed, tier, shard, jobs, deadline, out_path, first=None):
    result = {"tests": {}, "failure": None}
    plans = []
    for test in tests:
        count = test.quick if tier == "quick" else test.thorough
        indexes = list(range(shard, count, jobs))
        stats = {
            "cases": 0,
            "discarded": 0,
            "nontrivial": 0,
            "events": {},
            "prints": set(),
            "samples": [],
            "planned": len(indexes),
            "failure": None,
            "seconds": 0.0,
        }
        result["tests"][test.name] = stats
        plans.append((test, stats, indexes))
    # In rounds, so that no test is left out if the time runs out
    for part in range(ROUNDS):
        for test, stats, indexes in plans:
            start = time.time()
            low, high = (len(indexes) * k // ROUNDS for k in (part, part + 1))
            for index in indexes[low:high]:
                if stats["failure"] is not None:
                    break
                if time.time() > deadline or (first and os.path.exists(first)):
                    break
                run_index(prop, test, stats, seed, index, first)
            stats["seconds"] += time.time() - start
    with open(out_path, "wb") as out_file:
        pickle.dump(result, out_file, protocol=4)


def run_index(prop, test, stats, seed, index, first):
    case = engine.case_for(seed, prop, test, index)
    outcome = engine.run_case(test, case, REPO)
    if outcome in ("discard", "overrun"):
        stats["discarded"] += 1
        return
    stats["cases"] += 1
    for label, amount in case.events.items():
        stats["events"][label] = stats["events"].get(label, 0) + amount
    if case.is_nontrivial:
        stats["nontrivial"] += 1
        if len(stats["prints"]) < 200000:
            stats["prints"].add(fingerprint(test, case))
        if len(stats["samples"]) < 2 and case.notes:
            stats["samples"].append(" | ".join(case.notes)[:600])
    if isinstance(outcome, engine.Failure):
        stats["failure"] = {
            "index": index,
            "choices": case.choices,
            "kind": outcome.kind,
            "message": outcome.message,
            "where": outcome.where,
            "trace": outcome.trace,
        }
        if first:
            with open(first, "w"):
                pass


def run_parallel(prop, tests, seed, tier, jobs, deadline, first=False):
    scratch = tempfile.mkdtemp(prefix="verif-run-")
    paths = []
    pids = []
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for shard in range(jobs):
            path = os.path.join(scratch, f"{shard}.pkl")
            paths.append(path)
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    worker(prop, tests, seed, tier, shard, jobs, deadline, path,
                           os.path.join(scratch, "failed") if first else None)
                    code = 0
                except BaseException:  # pylint: disable=broad-except
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        bad = []
        for shard, pid in enumerate(pids):
            _, status = os.waitpid(pid, 0)
            if status != 0:
                bad.append((shard, status))
        if bad:
            raise engine.HarnessError(f"worker processes died: {bad}")
        results = []
        for path in paths:
            with open(path, "rb") as in_file:
                results.append(pickle.load(in_file))
        return results
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_module(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def replay(path):
    with open(path, encoding="utf-8") as replay_file:
        data = json.load(replay_file)
    module = load_module(data["property"])
    for test in module.tests():
        if test.name == data["test"]:
            case = engine.Case(prefix=data["choices"])
            outcome = engine.run_case(test, case, REPO)
            for note in case.notes:
                print("case:", note)
            if isinstance(outcome, engine.Failure):
                print(outcome.trace)
                print(f"VIOLATION property={data['property']} replay={path}")
                return 1 if outcome.kind == "violation" else 2
            print("outcome:", outcome)
            return 0
    print("unknown test", data["test"])
    return 2


def known_findings(prop):
    findings = []
    if os.path.exists(KNOWN_FINDINGS):
        with open(KNOWN_FINDINGS, encoding="utf-8") as findings_file:
            for line in findings_file:
                line = line.strip()
                if line and not line.startswith("#") and line.startswith("{"):
                    finding = json.loads(line)
                    if finding["property"] == prop and finding.get("status") == "known":
                        findings.append(finding)
    return findings


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument("--only", default=None)
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--replay", default=None)
    parser.add_argument("--stats", action="store_true")
    # For trying out many changes: stop at the first violation, do not shrink it
    parser.add_argument("--first", action="store_true")
    args = parser.parse_args()

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")

    if args.replay:
        return replay(args.replay)

    prop = args.property
    tier = "thorough" if args.tier == "thorough" else "quick"
    start = time.time()
    module = load_module(prop)
    tests = module.tests()
    if args.only:
        tests = [test for test in tests if args.only in test.name]
    scale = args.scale * getattr(module, "SCALE", 1)
    for test in tests:
        if test.space is None:
            test.quick = max(1, int(test.quick * scale))
            test.thorough = max(1, int(test.thorough * scale))

    # Known findings: replay each of them, on its own.
    if hasattr(module, "probe"):
        for finding in known_findings(prop):
            try:
                reproduces = module.probe(finding["finding"])
            except Exception:  # pylint: disable=broad-except
                traceback.print_exc()
                reproduces = True
            if reproduces:
                print(f"KNOWN-FINDING: property={prop} {finding['what']}")

    deadline = start + (QUICK_CAP_S if tier == "quick" else THOROUGH_CAP_S)
    results = run_parallel(prop, tests, args.seed, tier, args.jobs, deadline,
                           args.first)

    # Merge
    violation = None
    harness = None
    summary = {}
    samples = []
    prints = 0
    evaluations = 0
    for test in tests:
        merged = {"cases": 0, "discarded": 0, "nontrivial": 0, "planned": 0, "events": {}}
        merged["cpu_s"] = 0.0
        seen = set()
        for result in results:
            stats = result["tests"][test.name]
            for key in ("cases", "discarded", "nontrivial", "planned"):
                merged[key] += stats[key]
            merged["cpu_s"] = round(merged["cpu_s"] + stats["seconds"], 2)
            for label, amount in stats["events"].items():
                merged["events"][label] = merged["events"].get(label, 0) + amount
            seen |= stats["prints"]
            for sample in stats["samples"][:1]:
                if len([s for s in samples if s["test"] == test.name]) < 2:
                    samples.append({"test": test.name, "case": sample})
            failure = stats["failure"]
            if failure is not None:
                failure = dict(failure, test=test)
                if failure["kind"] == "violation":
                    if violation is None or (
                        violation["test"] is test and failure["index"] < violation["index"]
                    ):
                        violation = failure
                elif harness is None:
                    harness = failure
        merged["distinct_nontrivial"] = len(seen)
        merged["exhaustive"] = test.space is not None and merged["cases"] >= merged["planned"]
        merged["events"] = dict(sorted(merged["events"].items()))
        summary[test.name] = merged
        prints += len(seen)
        evaluations += merged["cases"]

    exit_code = 0
    if harness is not None and violation is None:
        print(harness["trace"], file=sys.stderr)
        print(f"HARNESS-ERROR test={harness['test'].name}", file=sys.stderr)
        exit_code = 2
    elif violation is not None:
        test = violation["test"]
        budget_end = time.time() + (60 if tier == "quick" else 300)
        choices, calls = violation["choices"], 0
        if not args.first and not violation["message"].startswith("Endless"):
            choices, calls = engine.shrink(test, choices, REPO, deadline=budget_end)
        case = engine.Case(prefix=choices)
        outcome = engine.run_case(test, case, REPO)
        if not isinstance(outcome, engine.Failure):  # Not reproducible: keep the original
            choices = violation["choices"]
            message, trace, notes = violation["message"], violation["trace"], []
        else:
            message, trace, notes = outcome.message, outcome.trace, case.notes
        replay_dir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, f"{prop}-{test.name}.json")
        with open(path, "w", encoding="utf-8") as replay_file:
            json.dump(
                {
                    "property": prop,
                    "test": test.name,
                    "seed": args.seed,
                    "case_index": violation["index"],
                    "choices": choices,
                    "case": notes,
                    "message": message,
                    "trace": trace,
                    "original_choices": violation["choices"],
                    "shrink_calls": calls,
                    "how_to_replay": f"bash /verif/check.sh --replay {path}",
                },
                replay_file,
                indent=1,
            )
        print(f"test {test.name}: {message[:2000]}")
        for note in notes:
            print("  case:", note[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        exit_code = 1

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": prints,
            "rule": module.RULE,
            "samples": samples[:40],
            "tests": summary,
            "truncated_by_time": any(
                entry["cases"] + entry["discarded"] < entry["planned"]
                for entry in summary.values()
            ),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if exit_code == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(
        os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8"
    ) as evidence_file:
        json.dump(evidence, evidence_file, indent=1)

    if args.stats:
        for name, entry in summary.items():
            print(name, json.dumps({k: v for k, v in entry.items() if k != "events"}))
            print("    ", entry["events"])
    if exit_code == 0:
        print(
            f"OK property={prop} tier={tier} seed={args.seed} cases={evaluations} "
            f"distinct_nontrivial={prints} wall_s={evidence['wall_s']}"
        )
    return exit_code


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
