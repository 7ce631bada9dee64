"""D02: transposition augmentation gives every transposition of every chord, or marks it invalid."""
import numpy as np

from pbt import shimmed  # noqa: F401
from harmonic_inference.data import datasets as ds
from checks.d01 import batches, classification_reference, draw, same
from pbt import gen, sets
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Chord classification datasets of 1-3 random pieces with transposition ranges within -24..24 "
    "fifths, reductions, with and without inversions. Non-trivial: some transposition is not 0; "
    "events count the transpositions that leave the pitch range."
)
ASSUMPTIONS = ["Tonal pitch classes.", "torch is the stand-in in shims/."]


def augmented(case):
    group, pieces = draw(case)
    kind, reduction = th.draw_reduction(case)
    inversions = case.bool(0.6)
    low = case.sint(-24, 6)
    high = min(low + case.int(0, 5), 24)
    case.nontrivial(low != 0 or high != 0)
    case.note(f"transpositions {low}..{high}, reduction {kind}, inversions {inversions}")
    with gen.quiet():
        dataset = ds.ChordClassificationDataset(
            pieces, reduction=reduction, use_inversions=inversions,
            transposition_range=case.one_of([list, tuple])([low, high]),
        )
    tensors, labels, space = classification_reference(group, reduction, inversions)
    if None in labels:
        case.discard()
    longest = max(len(tensor) for tensor in tensors)
    count = high - low + 1
    check_eq(len(dataset), len(labels) * count, "every transposition of every chord")

    def verify(item, data):
        chord, shift = item // count, low + item % count
        rows = sets.padded(tensors[chord], longest)
        root, chord_type, inversion = space[labels[chord]]
        valid = th.in_range(root + shift, th.TPC)
        tones = th.chord_pitches(chord_type, root + shift, th.TPC)
        valid = valid and th.in_range(tones[inversion], th.TPC)
        for row in rows[: len(tensors[chord])]:
            if row.any():
                pitch = int(np.where(row[:35] == 1)[0][0])
                row[pitch] = 0
                if th.in_range(pitch + shift, th.TPC):
                    row[pitch + shift] = 1
                else:
                    valid = False
        where = f"chord {chord} by {shift}"
        if valid:
            label = space.index((root + shift, chord_type, inversion))
            length, targets = len(tensors[chord]), [root + shift, tones[inversion]]
            vector = [int(i in tones) for i in range(35)]
            case.event("valid")
        else:
            label, length, targets, vector, rows = -1, -1, [-1, -1], [0] * 35, np.zeros_like(rows)
            case.event("out of range")
        check_eq(int(data["targets"]), label, f"target of {where}")
        check_eq(int(data["input_lengths"]), length, f"length of {where}")
        same(data["inputs"], rows, f"inputs of {where}")
        inner = data["intermediate_targets"]
        check_eq([int(inner["root"]), int(inner["bass"])], targets, f"root and bass of {where}")
        check_eq([int(x) for x in inner["pitches"]], vector, f"pitches of {where}")

    order = case.shuffled(range(len(dataset)))[:12]
    for item in order + order[:2]:
        verify(item, dataset[item])
    if case.bool(0.3):
        batches(case, dataset, verify)
    check(True)


def tests():
    return [Test("transpositions", augmented, 500)]
