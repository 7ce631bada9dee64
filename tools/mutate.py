#!/usr/bin/env python3
"""
Mutation testing of the checks (a development tool; no check uses it).

mutate.py OUT.jsonl [--per-function N] [--seed S] [--only REGEX] [--workers W] [--jobs J]

Small random changes of the code, each in a copy of the repository, and which of the checks whose property is
anchored in that file reports it. Survivors are to be looked at: equivalent, outside of the properties, or missed.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SWAPS = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
         ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SHIFT = {ast.Lt: ">", ast.LtE: ">", ast.Gt: "<", ast.GtE: "<"}
BINARY = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+"}
SKIP = "DebugLogger|__str__|__repr__"  # Not part of any property
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list", "argmax": "argmin",
         "floor": "ceil", "ceil": "floor", "onset": "offset", "offset": "onset", "next": "prev",
         "chord_onset_mapping": "chord", "root_type": "tonic_type", "PitchType.TPC": "PitchType.MIDI",
         "KeyMode.MINOR": "KeyMode.MAJOR", "KeyMode.MAJOR": "KeyMode.MINOR", "mc_onset": "mn_onset",
         "logsumexp": "max", "local_key": "global_key", "global_tonic": "local_tonic",
         "relative_tonic": "local_tonic", "relative_mode": "local_mode", "local_mode": "relative_mode",
         "local_tonic": "relative_tonic", "root": "bass", "bass": "root", "append": "add"}


def mutants(source):
    """[(function, line, start, end, replacement)]"""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    data = source.encode()
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        first, last = span(node)
        return data[first:last].decode()

    found = []

    def add(function, node, new):
        first, last = span(node)
        old = data[first:last].decode()
        if new != old:
            found.append((function, node.lineno, first, last, old, new))

    def visit(node, function):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            inner = f"{function}.{node.name}" if function else node.name
            for child in node.body:
                visit(child, inner)
            if isinstance(node, ast.FunctionDef):
                for default in node.args.defaults + node.args.kw_defaults:
                    if default is not None:
                        visit(default, inner)
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Call):
            name = text(node.func)
            if name.startswith("logging.") or "add_argument" in name or name in ("warn", "tqdm") or \
                    name.endswith("Error") or "warnings" in name or name == "print":
                return
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            return
        if isinstance(node, ast.AnnAssign):
            if node.value:
                visit(node.value, function)
            return
        if isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            left, right = text(node.left), text(node.comparators[0])
            kind = type(node.ops[0])
            add(function, node, f"{left} {SWAPS[kind]} {right}")
            if kind in SHIFT:
                add(function, node, f"{left} {SHIFT[kind]} {right}")
        if isinstance(node, ast.BinOp) and type(node.op) in BINARY and not isinstance(
                node.left, ast.Constant):
            add(function, node, f"({text(node.left)} {BINARY[type(node.op)]} {text(node.right)})")
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
            add(function, node, text(node.left))
        if isinstance(node, ast.BoolOp):
            joint = " or " if isinstance(node.op, ast.And) else " and "
            add(function, node, "(" + joint.join(f"({text(v)})" for v in node.values) + ")")
            for value in node.values:
                rest = [v for v in node.values if v is not value]
                old = " and " if joint == " or " else " or "
                add(function, node, "(" + old.join(f"({text(v)})" for v in rest) + ")")
        if isinstance(node, ast.UnaryOp):
            if isinstance(node.op, ast.Not):
                add(function, node, f"({text(node.operand)})")
            elif isinstance(node.op, ast.USub):
                add(function, node, text(node.operand))
                return
        if isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                add(function, node, str(not node.value))
            elif isinstance(node.value, int):
                add(function, node, str(node.value + 1))
                if node.value > 0:
                    add(function, node, str(node.value - 1))
            elif isinstance(node.value, float):
                add(function, node, str(node.value * 2 if node.value else 0.5))
        if isinstance(node, ast.If):
            add(function, node.test, f"(not ({text(node.test)}))")
            add(function, node.test, f"(False and ({text(node.test)}))")
            add(function, node.test, f"(True or ({text(node.test)}))")
        if isinstance(node, ast.IfExp):
            add(function, node, f"({text(node.body)})")
            add(function, node, f"({text(node.orelse)})")
        if isinstance(node, (ast.Break, ast.Continue)):
            add(function, node, "pass")
        if isinstance(node, ast.AugAssign) or (isinstance(node, ast.Expr) and isinstance(
                node.value, ast.Call)):
            add(function, node, "pass")
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
            add(function, node, "pass")
        if isinstance(node, ast.Assign) and function and not isinstance(node.value, (ast.List, ast.Dict)):
            name = text(node.targets[0])
            before = data[:span(node)[0]].decode()
            start = before.rfind("\n    def ")
            if len(node.targets) == 1 and re.search(rf"\b{re.escape(name)}\b", before[max(0, start):]):
                add(function, node, "pass")  # A reassignment
        if isinstance(node, ast.Slice):
            for bound in (node.lower, node.upper):
                if bound is not None:
                    add(function, bound, f"{text(bound)} + 1")
                    add(function, bound, f"{text(bound)} - 1")
        if isinstance(node, ast.Call):
            plain = [a for a in node.args if not isinstance(a, ast.Starred)]
            if len(plain) >= 2:
                for first, second in zip(plain, plain[1:]):
                    if text(first) != text(second):
                        a, b = span(first), span(second)
                        found.append((function, node.lineno, a[0], b[1],
                                      data[a[0]:b[1]].decode(),
                                      text(second) + ", " + text(first)))
            for keyword in node.keywords:
                if keyword.arg and not isinstance(keyword.value, ast.Constant):
                    first, last = span(keyword)
                    tail = re.match(rb"\s*,", data[last:])
                    if tail:
                        last += tail.end()
                        found.append((function, keyword.lineno, first, last,
                                      data[first:last].decode(), ""))
        if isinstance(node, ast.Attribute) and node.attr in NAMES:
            add(function, node, f"{text(node.value)}.{NAMES[node.attr]}")
        if isinstance(node, ast.Name) and node.id in NAMES:
            add(function, node, NAMES[node.id])
        if isinstance(node, ast.Name) and node.id in ("onset", "offset"):
            return
        for field, child in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list"):
                continue
            for item in child if isinstance(child, list) else [child]:
                if isinstance(item, ast.AST):
                    visit(item, function)

    for node in tree.body:
        visit(node, "")
    good = []
    for item in found:
        _, _, first, last, _, new = item
        try:
            ast.parse(data[:first] + new.encode() + data[last:])
        except SyntaxError:
            continue
        good.append(item)
    return good


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("out")
    parser.add_argument("--per-function", type=int, default=3)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--only", default=".")
    parser.add_argument("--function", default=".")
    parser.add_argument("--workers", type=int, default=4)
    parser.add_argument("--jobs", type=int, default=2)
    parser.add_argument("--scale", type=float, default=0.4)
    parser.add_argument("--list", action="store_true")
    args = parser.parse_args()
    rng = random.Random(args.seed)
    with open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") as file:
        entries = [json.loads(line) for line in file]
        anchors = {entry["id"]: entry["anchors"]["files"] for entry in entries}
        texts = {entry["id"]: json.dumps(entry["anchors"]["mechanism"]) for entry in entries}
    todo = []
    for name in sorted({name for files in anchors.values() for name in files}):
        if not re.search(args.only, name):
            continue
        with open(os.path.join(REPO, name), encoding="utf-8") as file:
            source = file.read()
        by_function = {}
        for item in mutants(source):
            by_function.setdefault(item[0], []).append(item)
        for function, items in sorted(by_function.items()):
            if not re.search(args.function, function) or re.search(SKIP, function):
                continue
            for item in rng.sample(items, min(args.per_function, len(items))):
                todo.append((name, item))
    rng.shuffle(todo)
    print(len(todo), "changes")
    if args.list:
        return
    done = set()
    if os.path.exists(args.out):
        with open(args.out, encoding="utf-8") as file:
            for line in file:
                entry = json.loads(line)
                done.add((entry["file"], entry["start"], entry["new"]))
    scratch = tempfile.mkdtemp(prefix="verif-mutate-")
    places = Queue()
    for number in range(args.workers):
        place = os.path.join(scratch, str(number))
        shutil.copytree(REPO, os.path.join(place, "repo"), ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(ROOT, os.path.join(place, "verif"),
                        ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        places.put(place)

    def run(entry):
        name, (function, line, first, last, old, new) = entry
        if (name, first, new) in done:
            return
        place = places.get()
        path = os.path.join(place, "repo", name)
        with open(os.path.join(REPO, name), "rb") as file:
            data = file.read()
        start, outcome = time.time(), "SURVIVED"
        try:
            with open(path, "wb") as file:
                file.write(data[:first] + new.encode() + data[last:])
            last_name = function.split(".")[-1]
            for prop, files in sorted(anchors.items(), key=lambda x: last_name not in texts[x[0]]):
                if name not in files:
                    continue
                try:
                    result = subprocess.run(
                        ["bash", os.path.join(place, "verif", "check.sh"), prop, "--first", "--jobs",
                         str(args.jobs), "--scale", str(args.scale)], capture_output=True, text=True, timeout=1500,
                        env=dict(os.environ, VERIF_REPO=os.path.join(place, "repo")), check=False)
                except subprocess.TimeoutExpired:
                    outcome = f"{prop} timeout"
                    break
                if result.returncode:
                    outcome = f"{prop} exit {result.returncode}"
                    break
        finally:
            with open(path, "wb") as file:
                file.write(data)
            places.put(place)
        with open(args.out, "a", encoding="utf-8") as file:
            file.write(json.dumps({"file": name, "function": function, "line": line, "start": first,
                                   "old": old, "new": new, "outcome": outcome,
                                   "s": round(time.time() - start)}) + "\n")

    try:
        with ThreadPoolExecutor(args.workers) as pool:
            list(pool.map(run, todo))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
