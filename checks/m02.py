"""M02: losses and accuracies are those over exactly the valid targets, however they are batched."""
import numpy as np

from pbt import shimmed  # noqa: F401
import torch
from torch.utils.data import DataLoader
from checks.d01 import (
    classification_reference, draw, key_items, transition_reference,
)
from checks.m01 import KINDS, alone, make
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Each of the six networks with random weights on 1-3 random pieces, batches of 1-4 or of the dataset's own size; the targets are "
    "computed from the pieces. Non-trivial: at least 3 targets in at least two batches, or a key change."
)
ASSUMPTIONS = [
    "torch is the numpy stand-in in shims/.",
    "Every batch contains at least one target (in training and validation).",
]


def targets_of(case, kind, model, group):
    """Per item: [(position or None, target)] that count."""
    if kind == "ctm":
        return [[(i, t) for i, t in enumerate(targets) if t != -100]
                for _, targets, _ in transition_reference(group)]
    if kind == "ccm":
        tensors, labels, space = classification_reference(group, model.reduction,
                                                          model.use_inversions)
        low, high = model.transposition_range
        result = []
        for tensor, label in zip(tensors, labels):
            if label is None:
                case.discard()
            root, chord_type, inversion = space[label]
            pitches = [int(np.where(row[:35] == 1)[0][0]) for row in np.array(tensor) if row.any()]
            for shift in range(low, high + 1):
                tones = th.chord_pitches(chord_type, root + shift, th.TPC)
                moved = [root + shift, tones[inversion]] + [p + shift for p in pitches]
                if all(th.in_range(p, th.TPC) for p in moved):
                    result.append([(None, space.index((root + shift, chord_type, inversion)))])
                else:
                    case.event("transposed out of range")
                    result.append([])
        return result
    if kind in ("csm", "csm-pitch"):
        space = th.chord_space(th.TPC, model.use_output_inversions, True, False,
                               model.output_reduction)
        result = []
        for item in group:
            entries = []
            for i, chord in enumerate(item.chords):
                if i == 0 or i in item.key_changes:
                    continue
                root = chord.root - chord.key_tonic
                chord_type = chord.chord_type
                if kind == "csm-pitch":
                    tones = [p + 14 for p in th.chord_pitches(chord_type, root, th.TPC)]
                    if not all(0 <= tone < 29 for tone in tones):
                        case.discard()
                    entries.append((i - 1, [int(p in tones) for p in range(29)]))
                    continue
                if model.output_reduction is not None:
                    chord_type = model.output_reduction[chord_type]
                inversion = chord.inversion if model.use_output_inversions else 0
                # Predicted after the previous chord
                entries.append((i - 1, space.index((root, chord_type, inversion))))
            result.append(entries)
        return result
    items = key_items(group, kind == "ktm", model.reduction, model.use_inversions)
    if kind == "ktm":
        return [[(i, t) for i, t in enumerate(targets) if t != -100] for _, targets in items]
    return [[(None, target)] for _, target in items]


def cross_entropy(p, target):
    return -max(np.log(p), -100) if target else -max(np.log(1 - p), -100)


def score(kind, output, entries):
    """[(loss, correct)] of one item's valid targets."""
    result = []
    for position, target in entries:
        row = output if position is None else output[position]
        row = np.array(row, dtype=float)
        if kind in ("ctm", "ktm"):
            with np.errstate(divide="ignore"):
                result.append((cross_entropy(row, target), int(round(float(row)) == target)))
        elif kind == "csm-pitch":
            with np.errstate(divide="ignore"):
                losses = [cross_entropy(p, t) for p, t in zip(row, target)]
            result.append((np.mean(losses), np.mean([round(float(p)) == t
                                                     for p, t in zip(row, target)])))
        else:
            logits = row - row.max()
            log_p = logits - np.log(np.exp(logits).sum())
            result.append((-log_p[target], int(row.argmax() == target)))
    return result


def close(actual, expected, message):
    check(np.isclose(float(actual), float(expected), rtol=2e-3, atol=1e-3),
          f"{message}: {float(actual)}, expected {float(expected)}")


class Relabelled:
    """The same inputs with other targets."""

    def __init__(self, dataset, items):
        self.items, self.valid_batch_size = items, dataset.valid_batch_size

    def __len__(self):
        return len(self.items)

    def __getitem__(self, index):
        return dict(self.items[index])


def relabel(case, kind, model, dataset, items, entries, labels):
    """Other labels, some of them what the model says: (dataset, items, entries)."""
    new_items, new_entries = [], []
    for item, part in zip(items, entries):
        output = alone(model, item)
        item = dict(item)
        targets = np.array(item["targets"])
        if kind == "ccm":
            part = [] if case.bool(0.3) else [(None, 0)]
            targets = np.full_like(targets, -1)
        result = []
        for position, _ in part:
            row = output if position is None else output[position]
            if kind in ("ctm", "ktm"):
                value = case.int(0, 1)
            elif kind == "csm-pitch":
                value = [case.int(0, 1) for _ in range(29)]
            else:
                value = case.one_of([int(np.argmax(row)), 0, labels - 1,
                                     case.int(0, labels - 1)])
            if position is None:
                targets = np.full_like(targets, value)
            else:
                # The next chord is predicted after a chord; changes are predicted where they are
                targets[position + (kind in ("csm", "csm-pitch"))] = value
            result.append((position, value))
        item["targets"] = targets
        new_items.append(item)
        new_entries.append(result)
    case.event("relabelled")
    return Relabelled(dataset, new_items), new_items, new_entries


def measured(case):
    group, pieces = draw(case)
    kind = case.one_of(KINDS)
    model, dataset, items, space = make(case, kind, pieces, transpositions=case.bool())
    entries = targets_of(case, kind, model, group)
    check_eq(len(entries), len(items), "number of items")
    if case.bool(0.4):
        dataset, items, entries = relabel(case, kind, model, dataset, items, entries,
                                          len(space or ()))
    single = [score(kind, alone(model, item), part) for item, part in zip(items, entries)]
    default = case.bool(0.2)
    size = dataset.valid_batch_size if default else case.int(1, 4)
    groups = [sum(single[i: i + size], []) for i in range(0, len(items), size)]
    everything = sum(single, [])
    case.note(f"{kind}: {len(everything)} targets in batches of {size}")
    case.nontrivial(len(everything) > 2 and len(groups) > 1)
    if not everything:
        case.discard()
    losses, correct = ([entry[k] for entry in everything] for k in (0, 1))

    # Training and validation: the mean over all targets of a batch
    for batch, part in zip(DataLoader(dataset, batch_size=size), groups):
        if not part:
            continue
        loss = model.training_step(batch, 0)
        close(loss, np.mean([entry[0] for entry in part]), f"{kind} training loss")
        close(model.logged["train_loss"], loss, "logged loss")
    for batch, part in zip(DataLoader(dataset, batch_size=size), groups):
        if not part:
            continue
        model.validation_step(batch, 0)
        close(model.logged["val_loss"], np.mean([entry[0] for entry in part]),
              f"{kind} validation loss")
        close(model.logged["val_acc"], 100 * np.mean([entry[1] for entry in part]),
              f"{kind} validation accuracy")
    # Evaluation: the mean over all targets of the dataset
    if not default:
        dataset.valid_batch_size = size
    with gen.quiet(), np.errstate(divide="ignore", invalid="ignore"):
        result = model.evaluate(dataset)
    close(result["loss"], np.mean(losses), f"{kind} evaluated loss")
    close(result["acc"], 100 * np.mean(correct), f"{kind} evaluated accuracy")
    if not all(groups):
        case.event("batch without targets")
    check(torch is not None)


def tests():
    return [Test("losses", measured, 600)]
