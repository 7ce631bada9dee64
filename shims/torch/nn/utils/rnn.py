import numpy as np

from ..._core import ShimMissing, Tensor


class PackedSequence:
    def __init__(self, sequences):
        self.sequences = sequences


def pack_padded_sequence(value, lengths, batch_first=False, enforce_sorted=True):
    if not batch_first:
        raise ShimMissing("pack_padded_sequence(batch_first=False)")
    lengths = [int(length) for length in np.asarray(lengths)]
    if len(lengths) != len(value):
        raise RuntimeError("Expected `len(lengths)` to be equal to batch_size")
    if min(lengths) <= 0:
        raise RuntimeError("Length of all samples has to be greater than 0")
    if max(lengths) > value.shape[1]:
        raise RuntimeError("a length is larger than the padded sequence")
    if enforce_sorted and lengths != sorted(lengths, reverse=True):
        raise RuntimeError("`lengths` array must be sorted in decreasing order")
    return PackedSequence([row[:length] for row, length in zip(value.data_, lengths)])


def pad_packed_sequence(packed, batch_first=False):
    if not batch_first:
        raise ShimMissing("pad_packed_sequence(batch_first=False)")
    lengths = [len(sequence) for sequence in packed.sequences]
    result = np.zeros((len(lengths), max(lengths), packed.sequences[0].shape[1]), np.float32)
    for row, sequence in zip(result, packed.sequences):
        row[: len(sequence)] = sequence
    return Tensor(result), Tensor(np.array(lengths, dtype=np.int64))
