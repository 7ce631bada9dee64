"""E03: annotate and test write every piece's own analysis to its own files, and use its forces."""
import csv
import json
import logging
import re
from fractions import Fraction

from pbt import estimates, gen, scripts
from pbt.engine import Test, check, check_eq
from pbt import theory as th
from checks import e01, e02
import harmonic_inference.utils.eval_utils as eu
from harmonic_inference.data.data_types import (
    ALL_ONE_TYPE_REDUCTION, NO_REDUCTION, TRIAD_REDUCTION,
)

RULE = (
    "Random lists of 1-4 (annotated or unannotated) pieces with names as load_pieces gives them and random estimated "
    "states (or none), random forces files. Non-trivial: several pieces in one run."
)
ASSUMPTIONS = ["Names '<id>: <path>', no two the same apart from their extension."]


class Stub:
    """A model with known answers."""
    CHORD_OUTPUT_TYPE = th.TPC
    KEY_OUTPUT_TYPE = th.TPC

    def __init__(self, answers):
        self.answers, self.calls = answers, []

    def get_harmony(self, piece, **kwargs):
        self.calls.append((piece, kwargs))
        return next(state for known, state in self.answers if known is piece)


def draw_path(case):
    parts = [case.one_of(["a", "Bach", "my scores", "x.y", "corpus: new", "v"])
             for _ in range(case.int(0, 2))]
    stem = case.one_of(["1", "Op. 3", "x y", "piece", "a.b", "No: 4", "x"])
    return "/".join(parts + [stem]) + case.one_of([".mxl", ".tsv"])


def draw_pieces(case, annotated):
    paths = []
    for _ in range(case.int(1, 4)):
        path = draw_path(case)
        if path[:-4] not in [other and other[:-4] for other in paths]:
            paths.append(path if case.bool(0.95) else None)
    items = [estimates.Estimated(case, annotated=annotated or case.bool(0.5),
                                 name=path and f"{case.int(0, 40)}: {path}") for path in paths]
    for item in items:
        item.describe(case)
        if case.bool(0.1):
            item.state = None
    case.note(f"names {[item.piece.name for item in items]}")
    case.nontrivial(len(items) > 1)
    return items, paths


def read(path):
    """(columns, rows of strings); the first column is the index."""
    with open(path, newline="") as file:
        rows = list(csv.reader(file, delimiter="\t"))
    check_eq([row[0] for row in rows[1:]], [str(i) for i in range(len(rows) - 1)], "index column")
    return rows[0][1:], [tuple(row[1:]) for row in rows[1:]]


def written(folder):
    return {str(path.relative_to(folder)) for path in folder.rglob("*") if path.is_file()}


def check_table(path, columns, expected, what):
    names, rows = read(path)
    check(set(columns) <= set(names), f"{what}: columns {names}")
    rows = [tuple(row[names.index(column)] for column in columns) for row in rows]
    check_eq(rows, [tuple(str(value) for value in row) for row in expected], what)


ANNOTATION = ["label", "mc", "mc_onset", "mn_onset"]
RESULTS = ["gt_key", "gt_chord", "est_key", "est_chord", "duration"]


def annotate(case):
    items, paths = draw_pieces(case, annotated=False)
    model = Stub([(item.piece, item.state) for item in items])
    module = scripts.load("annotate")
    verbose = case.bool(0.3)
    with gen.scratch() as folder:
        target = folder / case.one_of(["out", "deep/out"])
        if case.bool():
            target.mkdir(parents=True)
        with gen.quiet(), gen.logged(logging.DEBUG if verbose else logging.INFO):
            module.annotate(model, [item.piece for item in items],
                            output_tsv_dir=case.one_of([target, str(target)]))
        wanted = [(item, path[:-4] + ".tsv") for item, path in zip(items, paths)
                  if path is not None and item.state is not None]
        check_eq(written(folder), {str((target / path).relative_to(folder)) for _, path in wanted},
                 "files written")
        for item, path in wanted:
            check_table(target / path, ANNOTATION, e02.expected_annotation(item),
                        f"annotation of {path}")
    check_eq([call[0].name for call in model.calls], [item.piece.name for item in items],
             "pieces analysed")
    check(all(not call[1] for call in model.calls), "annotate forces labels")


ACCURACIES = {
    "Chord accuracy": (NO_REDUCTION, True),
    "Chord accuracy, no inversions": (NO_REDUCTION, False),
    "Chord accuracy, triads": (TRIAD_REDUCTION, True),
    "Chord accuracy, triad, no inversions": (TRIAD_REDUCTION, False),
    "Chord accuracy, root only": (ALL_ONE_TYPE_REDUCTION, False),
}


def expected_accuracies(item):
    expected = [(name, e01.accuracy(item, lambda i: e01.chord_right(item, i, *settings)))
                for name, settings in ACCURACIES.items()]
    for name, tonic_only in (("Key accuracy", False), ("Key accuracy, tonic only", True)):
        expected.append((name, e01.accuracy(item, lambda i: e01.key_right(item, i, tonic_only))))
    expected.append(("Full accuracy", e01.accuracy(
        item, lambda i: e01.chord_right(item, i, NO_REDUCTION, True)
        and e01.key_right(item, i, False))))
    return expected


def evaluate(case):
    items, paths = draw_pieces(case, annotated=False)
    model = Stub([(item.piece, item.state) for item in items])
    module = scripts.load("test")
    verbose = case.bool(0.3)
    with gen.scratch() as folder:
        target = folder / "out"
        write = case.bool(0.9)
        with gen.quiet(), gen.logged(logging.DEBUG if verbose else logging.INFO) as messages:
            module.evaluate(model, [item.piece for item in items],
                            output_tsv_dir=target if write else None)
        wanted = [(item, path[:-4]) for item, path in zip(items, paths)
                  if path is not None and item.state is not None and write]
        names = set()
        for item, path in wanted:
            names.add(f"out/{path}.tsv")
            if item.annotated:
                names |= {f"out/{path}_results.tsv", f"out/{path}_results_midi.tsv"}
        check_eq(written(folder), names, "files written")
        for item, path in wanted:
            if not item.annotated:
                check_table(target / f"{path}.tsv", ANNOTATION, e02.expected_annotation(item),
                            f"labels of {path}")
                continue
            check_table(target / f"{path}.tsv", ANNOTATION + ["color_name"],
                        e02.expected_labels(item), f"labels of {path}")
            for suffix, kind in (("_results", th.TPC), ("_results_midi", th.MIDI)):
                check_table(target / f"{path}{suffix}.tsv", RESULTS,
                            e02.expected_results(item, kind, kind), f"results of {path}, {kind}")
    check_eq([call[0].name for call in model.calls], [item.piece.name for item in items],
             "pieces analysed")
    given = [re.fullmatch(r"(.*accuracy.*) = ([-\d.e]+)", message) for message in messages]
    given = [(match.group(1), float(match.group(2))) for match in given if match]
    expected = [pair for item in items if item.annotated and item.state is not None
                for pair in expected_accuracies(item)]
    check_eq([name for name, _ in given], [name for name, _ in expected], "accuracies logged")
    for (name, value), (_, correct) in zip(given, expected):
        check(abs(value - correct) < 1e-9, f"{name} logged as {value}, expected {correct}")


def draw_forces(case, count):
    forces, raw = {}, {}
    for name in ("forced_chord_changes", "forced_chord_non_changes", "forced_key_changes",
                 "forced_key_non_changes"):
        if case.bool(0.4):
            values = [case.int(0, count) for _ in range(case.int(0, 4))]
            forces[name], raw[name] = set(values), values
    for name in ("forced_chords", "forced_keys"):
        if case.bool(0.4):
            values = {}
            for _ in range(case.int(0, 3)):
                start = case.int(0, count)
                values[(start, start + case.int(1, 12))] = case.int(0, 69)
            forces[name] = values
            style = case.one_of(["({}, {})", "({},{})", "( {} , {} )"])
            raw[name] = {style.format(*key): value for key, value in values.items()}
    return forces, raw


def forces(case):
    """Every piece is analysed with its own forces, or else with the default ones."""
    items, paths = draw_pieces(case, annotated=False)
    nested = case.bool(0.7)
    expected = {}
    if nested:
        raw = {}
        if case.bool():
            expected["default"], raw["default"] = draw_forces(case, 20)
        for item in items:
            if item.piece.name is None or case.bool(0.3):
                continue
            key = item.piece.name if case.bool() else item.piece.name.split(": ", 1)[1]
            if sum(key in str(other.piece.name) for other in items) > 1:
                continue
            if any(old in item.piece.name for old in raw if old != "default"):
                continue
            expected[key], raw[key] = draw_forces(case, 20)
        if case.bool(0.3):
            expected["not a piece"], raw["not a piece"] = draw_forces(case, 20)
        if case.bool(0.2) and raw:
            raw[case.one_of(sorted(raw))]["unknown"] = 3
    else:
        values, raw = draw_forces(case, 20)
        if not raw:
            case.discard()
        expected["default"] = values
    case.event("nested" if nested else "one for all")
    case.note(raw)
    model = Stub([(item.piece, item.state) for item in items])
    module = scripts.load("test")
    with gen.scratch() as folder, gen.quiet():
        path = folder / "forces.json"
        path.write_text(json.dumps(raw))
        loaded = module.load_forces_from_json(case.one_of([path, str(path)]))
        module.evaluate(model, [item.piece for item in items],
                        forces_path=case.one_of([path, str(path)]))
        plain = Stub(model.answers)
        module.evaluate(plain, [item.piece for item in items])
    check_eq(loaded, expected, "loaded forces")
    check(all(not kwargs for _, kwargs in plain.calls), "forces without a forces file")
    for item, (_, kwargs) in zip(items, model.calls):
        own = [key for key in expected if key != "default" and key in str(item.piece.name)]
        check_eq(kwargs, expected[own[0]] if own else expected.get("default", {}),
                 f"forces of {item.piece.name}")


PLACE = r"[\[(](\d+),? Fraction\((\d+), (\d+)\)[\])]"


def verbose(case):
    """log_state: consecutive segments with the estimated, and the different correct labels."""
    item = estimates.Estimated(case, annotated=case.bool(0.7))
    item.describe(case)
    with gen.logged() as messages:
        eu.log_state(item.state, item.piece, th.TPC, th.TPC)
    given, places = [], []
    for message in messages:
        match = re.search(r"duration ([\d/]+)", message)
        if match:
            given.append([Fraction(match.group(1)), None, None])
            places.append([(int(mc), Fraction(int(a), int(b)))
                           for mc, a, b in re.findall(PLACE, message)])
        match = re.fullmatch(r"\s*(Estimated|Correct) structure: (.*)\t(.*)", message)
        if match:
            given[-1][1 if match.group(1) == "Estimated" else 2] = match.groups()[1:]
    expected = []
    for i, duration in zip(item.starts, item.durations):
        estimate = (e02.key_label(*estimates.KEYS[item.key[i]]),
                    e02.chord_label(*estimates.CHORDS[item.chord[i]]))
        correct = None
        if item.annotated:
            chord, key = e02.true_labels(item, i)
            correct = (e02.key_label(*key), e02.chord_label(*chord))
            if correct == estimate:
                correct = None
        expected.append([duration, estimate, correct])
    check_eq(joined(given), joined(expected), "logged structure")
    if all(len(pair) == 2 for pair in places):
        time = item.rows[0][0]
        for k, ((start, end), (duration, _, _)) in enumerate(zip(places, given)):
            check_eq(start, item.measures.position(time), "start of a logged segment")
            wanted = places[k + 1][0] if k + 1 < len(places) else item.piece.get_inputs()[-1].offset
            check_eq(end, tuple(wanted), "end of a logged segment")
            time += duration
    case.nontrivial(len(joined(expected)) > 1)


def joined(segments):
    result = []
    for duration, *labels in segments:
        if duration:
            if result and result[-1][1:] == labels:
                result[-1][0] += duration
            else:
                result.append([duration, *labels])
    return result


SCALE = 3


def tests():
    return [Test("annotate", annotate, 150), Test("evaluate", evaluate, 150),
            Test("forces", forces, 150), Test("verbose", verbose, 200)]
