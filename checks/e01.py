"""E01: accuracies are the share of time with the right label."""
import numpy as np

from pbt import estimates, gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq
import harmonic_inference.utils.eval_utils as eu
from harmonic_inference.data.data_types import (
    ALL_ONE_TYPE_REDUCTION, NO_REDUCTION, TRIAD_REDUCTION,
)

RULE = (
    "Random annotated pieces of 2-10 notes with random estimates close to the annotations, all combinations of "
    "reduction, inversion and tonic-only options. Non-trivial: some accuracy is neither 0 nor 1."
)
ASSUMPTIONS = ["The first chord starts no later than the first note.", "Tonal pitch classes."]


def accuracy(item, right):
    return float(sum(duration for start, duration in zip(item.starts, item.durations)
                     if right(start)) / item.total)


def chord_right(item, i, reduction, inversion):
    true, (root, chord_type, guess) = item.true_chord[i], estimates.CHORDS[item.chord[i]]
    return (true.root == root and reduction[true.chord_type] == reduction[chord_type]
            and (not inversion or true.inversion == guess))


def key_right(item, i, tonic_only):
    true, (tonic, mode) = item.true_key[i], estimates.KEYS[item.key[i]]
    return true.relative_tonic == tonic and (tonic_only or true.relative_mode == mode)


def accuracies(case):
    item = estimates.Estimated(case)
    item.describe(case)
    reduction = case.one_of([NO_REDUCTION, TRIAD_REDUCTION, ALL_ONE_TYPE_REDUCTION]) if (
        case.bool(0.7)) else th.draw_reduction(case)[1] or NO_REDUCTION
    inversion, tonic_only = case.bool(), case.bool()
    values = []
    for name, actual, right in (
        ("chords", eu.evaluate_chords(item.piece, item.state, th.TPC, use_inversion=inversion,
                                      reduction=reduction),
         lambda i: chord_right(item, i, reduction, inversion)),
        ("keys", eu.evaluate_keys(item.piece, item.state, th.TPC, tonic_only=tonic_only),
         lambda i: key_right(item, i, tonic_only)),
        ("both", eu.evaluate_chords_and_keys_jointly(
            item.piece, item.state, th.TPC, th.TPC, use_inversion=inversion,
            chord_reduction=reduction, tonic_only=tonic_only),
         lambda i: chord_right(item, i, reduction, inversion) and key_right(item, i, tonic_only)),
    ):
        expected = accuracy(item, right)
        values.append(expected)
        check(np.isclose(float(actual), expected, atol=1e-9),
              f"accuracy of {name} {actual}, expected {expected}")
    case.nontrivial(any(0 < value < 1 for value in values))
    # With the default arguments
    check(np.isclose(float(eu.evaluate_chords(item.piece, item.state, th.TPC)),
                     accuracy(item, lambda i: chord_right(item, i, NO_REDUCTION, True))),
          "accuracy of chords with the default arguments")


def perfect(case):
    """The annotation evaluated against itself."""
    item = estimates.Estimated(case)
    item.describe(case)
    case.nontrivial(len(item.starts) > 1)
    from harmonic_inference.utils.beam_search_utils import State
    state, previous = None, None
    for i in item.starts:
        true, key = item.true_chord[i], item.true_key[i]
        chord_id = estimates.CHORDS.index((true.root, true.chord_type, true.inversion))
        key_id = estimates.KEYS.index((key.relative_tonic, key.relative_mode))
        if state is None:
            state = State(key=key_id)
        end = [s for s in item.starts + [item.count] if s > i][0]
        if previous == (chord_id, key_id):
            state = State(chord=chord_id, key=key_id, change_index=end, prev_state=state.prev_state)
        else:
            state = State(chord=chord_id, key=key_id, change_index=end, prev_state=state)
        previous = (chord_id, key_id)
    for reduction in (NO_REDUCTION, TRIAD_REDUCTION):
        check(np.isclose(float(eu.evaluate_chords_and_keys_jointly(
            item.piece, state, th.TPC, th.TPC, chord_reduction=reduction)), 1.0),
            "the annotation is not right about itself")


def averages(case):
    """average_results of a log."""
    lines, expected = [], {}
    names = ["Chord accuracy", "Chord accuracy, no inversions", "Key accuracy", "Full accuracy"]
    for _ in range(case.int(200, 1500) if case.bool(0.03) else case.int(0, 12)):
        kind = case.int(0, 5)
        if kind == 0:
            lines.append(case.one_of(["INFO:root:Running piece 3: a/b.mxl", "", "x = 1",
                                      "beam_size = 50", "Chord accuracy", "accuracy: 3"]))
            continue
        name = case.one_of(names)
        value = case.int(0, 1000) / case.weighted([(8, 1000), (1, 7e6), (1, 10), (1, 3)])
        prefix = "INFO:root:" if case.bool(0.3) else ""
        lines.append(f"{prefix}{name} = {value}")
        expected.setdefault(prefix + name, []).append(value)
    case.note(lines[:12])
    case.nontrivial(any(len(values) > 1 for values in expected.values()))
    with gen.scratch() as folder:
        path = folder / "log.txt"
        path.write_text("\n".join(lines) + case.one_of(["", "\n"]))
        result = eu.average_results(path if case.bool() else str(path))
        split = case.one_of([": ", "\t", "="])
        path.write_text("\n".join(lines).replace(" = ", split))
        again = eu.average_results(path, split_on=split)
    check_eq(set(result), set(expected), "names of the averages")
    for name, values in expected.items():
        check(np.isclose(result[name], sum(values) / len(values)), f"average of {name}")
    if split != ": ":
        check_eq(set(again), set(expected), f"names of the averages with {split!r}")


SCALE = 4


def tests():
    return [Test("accuracies", accuracies, 800), Test("perfect", perfect, 150),
            Test("averages", averages, 200)]
