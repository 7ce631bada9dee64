"""D01: the items of the training datasets are exactly the pieces' inputs and targets."""
import numpy as np

from pbt import shimmed  # noqa: F401
from harmonic_inference.data import datasets as ds
from torch.utils.data import DataLoader
from checks.b01 import one_hot
from pbt import gen, sets
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Datasets of 1-3 random pieces of different lengths (1-12 notes, 1-8 chords, several keys), any "
    "chord type reduction, with and without inversions, changed after creation. Non-trivial: at "
    "least two pieces (padding) or two keys."
)
ASSUMPTIONS = [
    "torch and h5py are the stand-ins in shims/.",
    "Vectors are compared with the tolerance of half precision.",
    "Entries of targets after target_lengths are not looked at.",
    "Removing inversions changes the inversion entry of chord vectors (the bass pitch stays).",
]


def same(actual, expected, message):
    actual, expected = np.array(actual, dtype=float), np.array(expected, dtype=float)
    check_eq(actual.shape, expected.shape, message + ": shape")
    bad = np.argwhere(~np.isclose(actual, expected, rtol=2e-3, atol=1e-4))
    check(len(bad) == 0, f"{message}: differs at {[tuple(int(x) for x in i) for i in bad[:6]]}: "
          f"{[actual[tuple(i)] for i in bad[:6]]}, expected {[expected[tuple(i)] for i in bad[:6]]}")


def walk(case, dataset, verify, count):
    """Look at every item, in any order, some twice."""
    check_eq(len(dataset), count, "number of items")
    order = case.shuffled(range(count)) + ([case.int(0, count - 1)] if count else [])
    for item in order:
        verify(item, dataset[item])


def batches(case, dataset, verify, size=None):
    """The batches of a loader are the stacked items."""
    size = case.int(1, 4) if size is None else size
    position = 0
    for batch in DataLoader(dataset, batch_size=size, shuffle=False):
        length = len(batch["inputs"])
        for row in range(length):
            def pick(value):
                if isinstance(value, dict):
                    return {key: pick(entry) for key, entry in value.items()}
                return np.array(value)[row]
            verify(position, pick(batch))
            position += 1
    check_eq(position, len(dataset), "number of items in all batches")


def draw(case):
    group = sets.draw_pieces(case)
    sets.describe(case, group)
    case.nontrivial(len(group) > 1 or any(len(item.keys) > 1 for item in group))
    if any(len(item.keys) > 1 for item in group):
        case.event("with a key change")
    if len({len(item.chords) for item in group}) > 1:
        case.event("different lengths")
    return group, [item.piece for item in group]


def both(case, dataset, verify):
    walk(case, dataset, verify, len(dataset))
    if len(dataset):
        batches(case, dataset, verify)


def transition_reference(group):
    longest = max(len(item.times) for item in group)
    result = []
    for item in group:
        times = item.times
        targets = []
        for i in range(len(times)):
            if i == 0 or times[i] == times[i - 1]:
                targets.append(-100)
            else:
                targets.append(1 if i in item.changes else 0)
        rows = []
        for i, (note, row) in enumerate(zip(item.piece.get_inputs(), item.notes)):
            following = times[i + 1] if i + 1 < len(times) else item.end
            previous = times[i] - times[i - 1] if i > 0 else 0
            midi = row[3]
            rows.append([float(x) for x in (
                one_hot(row[2] + 15, 35) + one_hot(midi // 12, 10)
                + one_hot(item.measures.level(note.onset), 4)
                + one_hot(item.measures.level(note.offset), 4)
                + [0, 0, 0, previous, following - times[i], 0] + one_hot(midi // 12, 10)
                + [midi / 127, 0])])
        result.append((sets.padded(rows, longest), targets, len(times)))
    return result


def transition(case):
    group, pieces = draw(case)
    dummy = case.bool(0.2)
    with gen.quiet():
        dataset = ds.ChordTransitionDataset(pieces, dummy_targets=dummy)
    expected = transition_reference(group)

    def verify(item, data):
        rows, targets, length = expected[item]
        if dummy:
            targets = [0] * length
        same(data["inputs"], rows, f"inputs of piece {item}")
        check_eq(int(data["input_lengths"]), length, "input length")
        check_eq(int(data["target_lengths"]), length, "target length")
        check_eq([int(x) for x in data["targets"][:length]], targets, f"targets of piece {item}")
        check_eq(len(data["targets"]), len(rows), "padded target length")

    check_eq(len(dataset), len(group), "one item per piece")
    both(case, dataset, verify)


def classification_reference(group, reduction, inversions):
    space = th.chord_space(th.TPC, inversions, False, False, reduction)
    tensors, labels = [], []
    for item in group:
        with gen.quiet():
            tensors.extend(item.piece.get_chord_note_inputs())
        for chord in item.chords:
            labels.append(sets.label(space, chord.root, chord.chord_type, chord.inversion,
                                     reduction, inversions))
    return tensors, labels, space


def classification(case):
    group, pieces = draw(case)
    kind, reduction = th.draw_reduction(case)
    inversions = case.bool(0.6)
    with gen.quiet():
        dataset = ds.ChordClassificationDataset(pieces, reduction=reduction,
                                                use_inversions=inversions)
        if case.bool(0.3):
            kind, reduction = th.draw_reduction(case)
            inversions = case.bool(0.6)
            dataset.reduction, dataset.use_inversions = reduction, inversions
            case.event("reduction changed after creation")
    case.note(f"reduction {kind}, inversions {inversions}")
    tensors, labels, space = classification_reference(group, reduction, inversions)
    if None in labels:
        case.discard()
    longest = max(len(tensor) for tensor in tensors)

    def verify(item, data):
        root, chord_type, inversion = space[labels[item]]
        pitches = th.chord_pitches(chord_type, root, th.TPC)
        if not th.in_range(pitches[inversion], th.TPC):
            # The reduced chord's bass cannot be represented
            case.event("unrepresentable bass")
            return
        same(data["inputs"], sets.padded(tensors[item], longest), f"inputs of chord {item}")
        check_eq(int(data["input_lengths"]), len(tensors[item]), "input length")
        check_eq(int(data["targets"]), labels[item], f"target of chord {item}")
        targets = data["intermediate_targets"]
        check_eq(int(targets["root"]), root, "intermediate root")
        check_eq(int(targets["bass"]), pitches[inversion], "intermediate bass")
        if all(th.in_range(pitch, th.TPC) for pitch in pitches):
            check_eq([int(x) for x in targets["pitches"]],
                     [int(i in pitches) for i in range(35)], "intermediate pitches")

    check_eq(len(dataset), len(labels), "one item per chord")
    both(case, dataset, verify)


def given_ranges(case):
    """The classification dataset of proposed ranges (inference): inputs only."""
    group, pieces = draw(case)
    ranges, changes = [], []
    for item in group:
        count = len(item.times)
        piece_ranges, piece_changes = [], []
        for _ in range(case.size(1, 4)):
            change = case.int(0, count - 1)
            last = case.int(change + 1, count)
            end = item.times[last] if last < count else item.end
            if end > item.times[change]:
                piece_ranges.append((case.int(max(change - 2, 0), change), last))
                piece_changes.append(change)
        ranges.append(piece_ranges)
        changes.append(piece_changes)
    if not any(ranges):
        case.discard()
    case.note(f"ranges {ranges} changes {changes}")
    with gen.quiet():
        dataset = ds.ChordClassificationDataset(pieces, ranges=ranges, change_indices=changes,
                                                dummy_targets=True)
        tensors = [tensor for item, r, c in zip(group, ranges, changes)
                   for tensor in item.piece.get_chord_note_inputs(ranges=r, change_indices=c)]
    longest = max(len(tensor) for tensor in tensors)

    def verify(item, data):
        same(data["inputs"], sets.padded(tensors[item], longest), f"inputs of range {item}")
        check_eq(int(data["input_lengths"]), len(tensors[item]), "input length")

    check_eq(len(dataset), len(tensors), "one item per range")
    both(case, dataset, verify)


def sequence(case):
    group, pieces = draw(case)
    (kind_in, reduction_in), (kind_out, reduction_out) = (th.draw_reduction(case) for _ in "ab")
    inv_in, inv_out = case.bool(0.6), case.bool(0.6)
    pitch_based = case.bool(0.4)
    case.note(f"reductions {kind_in}, {kind_out}, inversions {inv_in}, {inv_out}, "
              f"pitch based {pitch_based}")
    with gen.quiet():
        dataset = ds.ChordSequenceDataset(
            pieces, input_reduction=reduction_in, output_reduction=reduction_out,
            use_inversions_input=inv_in, use_inversions_output=inv_out, pitch_based=pitch_based,
        )
    space = th.chord_space(th.TPC, inv_out, True, False, reduction_out)
    rows = [sets.sequence_rows(item, False, reduction_in, inv_in) for item in group]
    longest = max(map(len, rows))
    labels = [[sets.label(space, chord.root - chord.key_tonic, chord.chord_type, chord.inversion,
                          reduction_out, inv_out) for chord in item.chords] for item in group]
    if any(None in part for part in labels):
        case.discard()
    pitches = []
    for item, part in zip(group, labels):
        vectors = []
        for index, value in enumerate(part):
            root, chord_type, _ = space[value]
            if index == 0 or index in item.key_changes:
                vectors.append([-100] * 29)
            else:
                tones = [p + 14 for p in th.chord_pitches(chord_type, root, th.TPC)]
                if pitch_based and not all(0 <= tone < 29 for tone in tones):
                    case.discard()
                vectors.append([int(i in tones) for i in range(29)])
        pitches.append(vectors)

    def verify(item, data):
        same(data["inputs"], sets.padded(rows[item], longest), f"inputs of piece {item}")
        length = len(rows[item])
        check_eq(int(data["input_lengths"]), length, "input length")
        check_eq(int(data["target_lengths"]), length, "target length")
        targets = data["targets"][:length]
        if pitch_based:
            same(targets, pitches[item], f"pitch targets of piece {item}")
            same(data["targets"][length:], np.full((longest - length, 29), -100.0),
                 "ignored pitch targets")
        else:
            check_eq([int(x) for x in targets], labels[item], f"targets of piece {item}")

    check_eq(len(dataset), len(group), "one item per piece")
    both(case, dataset, verify)


def key_items(group, transition_items, reduction, inversions):
    """[(rows, targets or target)] of the key transition / key sequence dataset."""
    items = []
    for item in group:
        rows = sets.sequence_rows(item, True, reduction, inversions)
        changes = item.key_changes + [len(item.chords)]
        for number, key in enumerate(item.keys):
            start, end = changes[number], changes[number + 1]
            last = number + 1 == len(item.keys)
            part = list(rows[:end])
            if not last:
                # The first chord of the next key, as seen from this one
                part.append(sets.chord_row(item.chords[end], key, True, reduction, inversions)
                            + sets.key_columns(None, key))
            if transition_items:
                targets = [-100] * (start + 1) + [0] * (end - start - 1) + ([] if last else [1])
                items.append((part, targets))
            elif not last:
                items.append((part, sets.key_change_index(key, item.keys[number + 1])))
    return items


def keys(case):
    group, pieces = draw(case)
    kind, reduction = th.draw_reduction(case)
    inversions = case.bool(0.6)
    is_transition = case.bool()
    case.note(f"{'transition' if is_transition else 'sequence'}, reduction {kind}, {inversions}")
    cls = ds.KeyTransitionDataset if is_transition else ds.KeySequenceDataset
    with gen.quiet():
        dataset = cls(pieces, reduction=reduction, use_inversions=inversions)
    items = key_items(group, is_transition, reduction, inversions)
    check_eq(len(dataset), len(items), "one item per key (change)")
    verify = key_verifier(items, is_transition)
    both(case, dataset, verify)


def key_verifier(items, is_transition):
    def verify(item, data):
        rows, targets = items[item]
        length = len(rows)
        check_eq(int(data["input_lengths"]), length, f"input length of item {item}")
        same(data["inputs"][:length], rows, f"inputs of item {item}")
        if is_transition:
            check_eq(len(data["targets"]), len(data["inputs"]), "length of the targets")
            check_eq([int(x) for x in data["targets"]],
                     targets + [-100] * (len(data["targets"]) - length), f"targets of item {item}")
        else:
            check_eq(int(data["targets"]), targets, f"target of item {item}")

    return verify


def tests():
    return [
        Test("chord_transition", transition, 600),
        Test("chord_classification", classification, 400),
        Test("classification_of_ranges", given_ranges, 300),
        Test("chord_sequence", sequence, 600),
        Test("key_datasets", keys, 800),
    ]
