#!/usr/bin/env python3
"""
Create (and confirm) planted bugs: mkseed.py SPEC.py, where SPEC defines ID, PROPERTY, NEEDS, BREAKS,
EDITS [(file, old, new)], DEMO (python source). Works in a scratch copy of /repo; writes seeded/ID.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(path, check=True):
    spec = runpy.run_path(path)
    scratch = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(scratch, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
        out = os.path.join(VERIF, "seeded", spec["ID"])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(spec["DEMO"].lstrip())
        with open(os.path.join(out, "demo.sh"), "w") as f:
            here = ""
            if spec.get("SHIMS"):  # Stand-ins for torch etc., which are not installed
                here = ':$(dirname "$0")/shims'
                shutil.copytree(os.path.join(VERIF, "shims"), os.path.join(out, "shims"), dirs_exist_ok=True,
                                ignore=shutil.ignore_patterns("__pycache__"))
            f.write(f'#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD{here}"\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
                       "what_it_breaks": spec["BREAKS"]}, f, indent=1)

        def demo():
            return subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=repo,
                                  capture_output=True, text=True)

        result = demo()
        good = result.returncode == 0
        if not good:
            print(result.stdout[-1500:], result.stderr[-1500:])
        for file, old, new in spec["EDITS"]:
            name = os.path.join(repo, file)
            with open(name) as f:
                text = f.read()
            assert text.count(old) == 1, (file, text.count(old), old)
            with open(name, "w") as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(diff)
        result = demo()
        bad = result.returncode != 0
        print("demo with the bug:", (result.stdout.strip().splitlines() +
                                     result.stderr.strip().splitlines())[-1:])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        tests = subprocess.run(
            "sed 's#/repo#%s#g' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/o.json 2>&1 | tail -1"
            % (repo, scratch, scratch, scratch), shell=True, capture_output=True, text=True, env=env)
        caught = "-"
        if check:
            run = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), spec["PROPERTY"]],
                                 env=dict(os.environ, VERIF_REPO=repo), capture_output=True,
                                 text=True)
            lines = [x for x in run.stdout.splitlines() if x]
            results_path = os.path.join(VERIF, "tools", "seed_results.json")
            results = {}
            if os.path.exists(results_path):
                with open(results_path) as f:
                    results = json.load(f)
            name = lines[0].split(":")[0] if run.returncode == 1 else ""
            results[spec["ID"]] = {
                "property": spec["PROPERTY"], "breaks": spec["BREAKS"],
                "check": f"caught ({name})" if run.returncode == 1 else "missed",
            }
            with open(results_path, "w") as f:
                json.dump(results, f, indent=1, sort_keys=True)
            caught = f"exit {run.returncode}: {[x[:300] for x in lines[:1]]}"
        print(f"{spec['ID']} [{spec['PROPERTY']}]: clean ok={good} bug fails={bad} "
              f"tests: {tests.stdout.strip()}\n   check: {caught}")
    finally:
        shutil.rmtree(scratch)


for argument in sys.argv[1:]:
    main(argument)
