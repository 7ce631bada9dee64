"""M01: what a model outputs for an item does not depend on how it is batched, padded or stepped."""
import numpy as np

from pbt import shimmed  # noqa: F401
import torch
from harmonic_inference.data import datasets as ds
from harmonic_inference.data.data_types import PieceType
from harmonic_inference.models import (
    chord_classifier_models as ccm, chord_sequence_models as csm, chord_transition_models as ctm,
    key_sequence_models as ksm, key_transition_models as ktm,
)
from torch.utils.data import DataLoader
from checks.d01 import draw, same
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Each of the six networks with random small dimensions, weights, label spaces and 1-3 random pieces, in "
    "batches of any size and order. Non-trivial: a batch with sequences of different lengths, or a sequence "
    "of at least two steps."
)
ASSUMPTIONS = [
    "torch is the numpy stand-in in shims/: exact semantics of packing, LSTMs and linear layers; not "
    "its numerics, training or devices.",
    "Networks are in evaluation mode.",
]


def small(case, *names):
    kwargs = {name: case.int(1, 4) for name in names}
    kwargs["lstm_layers"] = case.int(1, 2)
    kwargs["dropout"] = case.one_of([0.0, 0.5])
    return kwargs


def draw_model(case, kind, transpositions=False):
    """(model, dataset class, label space or None)."""
    torch.nn.seed_weights(case.draw(10 ** 6))
    tpc = th.TPC
    reduction = th.draw_reduction(case)[1]
    inversions = case.bool()
    dims = small(case, "lstm_hidden_dim", "hidden_dim")
    if kind != "ccm":
        dims["embed_dim"] = case.int(1, 4)
    if kind == "ctm":
        model = ctm.SimpleChordTransitionModel(PieceType.SCORE, tpc, **dims)
        cls = ds.ChordTransitionDataset
        space = None
    elif kind == "ccm":
        if inversions:
            reduction = None
        if transpositions:
            low = case.sint(-12, 3)
            dims["transposition_range"] = (low, low + case.int(0, 3))
        model = ccm.SimpleChordClassifier(PieceType.SCORE, tpc, tpc, reduction=reduction,
                                          use_inversions=inversions, **dims)
        cls = ds.ChordClassificationDataset
        space = th.chord_space(tpc, inversions, False, False, reduction)
    elif kind == "csm":
        out = None if inversions else reduction
        model = csm.SimpleChordSequenceModel(
            tpc, tpc, tpc, input_reduction=th.draw_reduction(case)[1], output_reduction=out,
            use_input_inversions=case.bool(), use_output_inversions=inversions, **dims)
        cls = ds.ChordSequenceDataset
        space = th.chord_space(tpc, inversions, True, False, out)
    elif kind == "csm-pitch":
        model = csm.PitchBasedChordSequenceModel(
            tpc, tpc, tpc, input_reduction=reduction, use_input_inversions=inversions, **dims)
        cls = ds.ChordSequenceDataset
        space = range(29)
    elif kind == "ktm":
        model = ktm.SimpleKeyTransitionModel(tpc, tpc, reduction=reduction,
                                             use_inversions=inversions, **dims)
        cls = ds.KeyTransitionDataset
        space = None
    else:
        model = ksm.SimpleKeySequenceModel(tpc, tpc, tpc, reduction=reduction,
                                           use_inversions=inversions, **dims)
        cls = ds.KeySequenceDataset
        space = range(2 * 29)
    model.eval()
    case.note(f"{kind} {dims}")
    case.event(kind)
    return model, cls, space


KINDS = ["ctm", "ccm", "csm", "csm-pitch", "ktm", "ksm"]


def tensor(rows):
    return torch.tensor(np.array(rows, dtype=np.float32)[None])


def run(model, inputs, lengths):
    """The network's output: arrays, without hidden states."""
    result = model(inputs, lengths)
    return np.array(result[0] if isinstance(result, tuple) else result)


def alone(model, data):
    """The output for one item in a batch of its own, without padding."""
    length = max(int(data["input_lengths"]), 1)
    return run(model, tensor(np.array(data["inputs"])[:length]), torch.tensor([length]))[0]


def make(case, kind, group_pieces, transpositions=False):
    model, cls, space = draw_model(case, kind, transpositions)
    kwargs = model.get_dataset_kwargs()
    with gen.quiet():
        try:
            dataset = cls(group_pieces, **kwargs)
            items = [dataset[i] for i in range(len(dataset))]
        except AssertionError as error:
            if "lost in the CSM-P prior" in str(error):
                case.discard()
            raise
    if not items:
        case.discard()
    return model, dataset, items, space


def batching(case):
    _, pieces = draw(case)
    kind = case.one_of(KINDS)
    model, dataset, items, space = make(case, kind, pieces)
    single = [alone(model, item) for item in items]
    for item, output in zip(items, single):
        if space is not None:
            check_eq(output.shape[-1], len(space), "one output per label")
        if kind in ("csm", "ksm"):
            check(np.allclose(np.exp(output).sum(axis=-1), 1, atol=1e-3),
                  "the probabilities of all labels do not sum to 1")
        elif kind != "ccm":
            check(((output >= 0) & (output <= 1)).all(), "probabilities outside of [0, 1]")
        if kind not in ("ccm", "ksm"):
            check_eq(len(output), max(int(item["input_lengths"]), 1), "one output per input")
    # Any batch of the items
    order = case.shuffled(range(len(items)))[: case.int(1, 8)]
    if case.bool(0.05):
        order = [case.one_of(order) for _ in range(case.int(9, 70))]
    lengths = [int(items[i]["input_lengths"]) for i in order]
    case.nontrivial(len(set(lengths)) > 1)
    case.note(f"batch of lengths {lengths}")
    if len(order) == 1:
        case.event("batch of one")
    inputs = torch.tensor(np.stack([np.array(items[i]["inputs"], dtype=np.float32)
                                    for i in order]))
    outputs = run(model, inputs, torch.tensor(lengths))
    check_eq(len(outputs), len(order), "one output per item of the batch")
    for output, i in zip(outputs, order):
        expected = single[i]
        if kind not in ("ccm", "ksm"):
            output = output[: len(expected)]
        same(output, expected, f"output of item {i} in a batch")
    # The interface used for inference
    if kind in ("ctm", "ccm"):
        loader = DataLoader(dataset, batch_size=case.one_of([1, 2, 3, 4, 64]), shuffle=False)
        position = 0
        for batch in loader:
            result = model.get_output(batch)
            if kind == "ctm":
                outputs, output_lengths = result
                for output, length in zip(np.array(outputs), np.array(output_lengths)):
                    check_eq(int(length), len(single[position]), "output length")
                    same(output[:int(length)], single[position], f"get_output for {position}")
                    position += 1
            else:
                for output in np.array(result):
                    check(abs(output.sum() - 1) < 1e-3 and (output >= 0).all(),
                          "the chord probabilities do not sum to 1")
                    logits = single[position] - single[position].max()
                    same(output, np.exp(logits) / np.exp(logits).sum(), f"get_output: {position}")
                    position += 1
        check_eq(position, len(items), "number of outputs")


def stepping(case):
    """Running a sequence step by step with the hidden state equals running it at once."""
    _, pieces = draw(case)
    kind = case.one_of(["csm", "csm-pitch", "ktm", "ksm"])
    model, _, items, _ = make(case, kind, pieces)
    size = case.int(1, 3) if case.bool(0.95) else 70
    order = [case.int(0, len(items) - 1) for _ in range(size)]
    arrays = [np.array(items[i]["inputs"], dtype=np.float32) for i in order]
    count = min(int(items[i]["input_lengths"]) for i in order)
    case.nontrivial(count > 1)
    case.note(f"items {order}, {count} steps")
    hidden = model.init_hidden(len(order))
    layers = model.lstm_layers
    for state in hidden:
        check_eq(tuple(state.shape), (layers, len(order), model.lstm_hidden_dim), "hidden state")
        check(not np.array(state).any(), "the initial hidden state is not zero")
    hidden = [torch.transpose(state, 0, 1) for state in hidden]
    whole = [alone(model, items[i]) for i in order]
    for step in range(count):
        inputs = torch.tensor(np.stack([array[step: step + 1] for array in arrays]))
        batch = {"inputs": inputs, "hidden_states": hidden}
        if kind == "ksm":
            batch.update(input_lengths=torch.tensor([1] * len(order)),
                         targets=torch.tensor([0] * len(order)))
            output, hidden = model.get_output(batch)
        else:
            output, hidden = model.run_one_step(batch)
        hidden = [torch.transpose(state, 0, 1) for state in hidden]
        output = np.array(output)
        check_eq(len(output), len(order), "one output per state")
        for row, (i, expected) in enumerate(zip(order, whole)):
            if kind == "ksm":
                # One output at the end of each sequence
                if step + 1 == int(items[i]["input_lengths"]):
                    same(output[row], expected, f"step {step} of item {i}")
            else:
                same(output[row][0], expected[step], f"step {step} of item {i}")


SCALE = 1.5


def tests():
    return [Test("batching", batching, 500), Test("stepping", stepping, 400)]
