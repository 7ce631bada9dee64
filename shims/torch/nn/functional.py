import numpy as np

from .._core import ShimMissing, Tensor


def relu(value):
    return Tensor(np.maximum(value.data_, 0))


def log_softmax(value, dim):
    data = value.data_ - value.data_.max(axis=dim, keepdims=True)
    return Tensor(data - np.log(np.exp(data).sum(axis=dim, keepdims=True)))


def softmax(value, dim):
    return Tensor(np.exp(log_softmax(value, dim).data_))


def _reduce(losses, reduction):
    if reduction == "mean":
        return Tensor(np.asarray(losses.mean() if losses.size else np.float32("nan")))
    if reduction == "sum":
        return Tensor(np.asarray(losses.sum()))
    if reduction == "none":
        return Tensor(losses)
    raise ShimMissing(f"reduction {reduction}")


def nll_loss(value, target, ignore_index=-100, reduction="mean"):
    data = np.moveaxis(value.data_, 1, -1)
    classes = data.shape[-1]
    data, target = data.reshape(-1, classes), target.data_.reshape(-1)
    if len(data) != len(target):
        raise ValueError("Expected input batch_size to match target batch_size")
    keep = target != ignore_index
    data, target = data[keep], target[keep]
    if target.dtype.kind != "i":
        raise RuntimeError("expected scalar type Long")
    if ((target < 0) | (target >= classes)).any():
        raise IndexError("Target out of bounds")
    return _reduce(-data[np.arange(len(data)), target], reduction)


def cross_entropy(value, target, ignore_index=-100, reduction="mean"):
    return nll_loss(log_softmax(value, 1), target, ignore_index, reduction)


def binary_cross_entropy(value, target, reduction="mean"):
    if value.shape != target.shape:
        raise ValueError("Using a target size that is different to the input size")
    if target.dtype.kind != "f":
        raise RuntimeError("Found dtype Long but expected Float")
    data, target = value.data_, target.data_
    if ((data < 0) | (data > 1)).any():
        raise RuntimeError("all elements of input should be between 0 and 1")
    with np.errstate(divide="ignore"):
        losses = -(target * np.maximum(np.log(data), -100)
                   + (1 - target) * np.maximum(np.log(1 - data), -100))
    return _reduce(losses, reduction)


def sigmoid(value):
    return Tensor(1 / (1 + np.exp(-value.data_)))


def tanh(value):
    return Tensor(np.tanh(value.data_))


def binary_cross_entropy_with_logits(value, target, reduction="mean"):
    return binary_cross_entropy(sigmoid(value), target, reduction)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing(f"torch.nn.functional.{name}")
