"""Modules with reproducible random weights."""
import numpy as np

from .._core import ShimMissing, Tensor
from . import functional, utils  # noqa

RNG = [np.random.RandomState(0)]


SCALE = [0.7]


def seed_weights(seed, scale=0.7):
    RNG[0] = np.random.RandomState(seed)
    SCALE[0] = scale


def _weight(*shape):
    return RNG[0].uniform(-SCALE[0], SCALE[0], size=shape).astype(np.float32)


class Module:
    def __init__(self, *_args, **_kwargs):
        self.training = True

    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)

    def eval(self):
        return self.train(False)

    def train(self, mode=True):
        self.training = mode
        for value in list(self.__dict__.values()):
            for child in value if isinstance(value, ModuleList) else [value]:
                if isinstance(child, Module):
                    child.train(mode)
        return self

    def parameters(self):
        return iter([])

    def freeze(self):
        return self.eval()


class ModuleList(list):
    pass


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super().__init__()
        self.weight, self.bias = _weight(out_features, in_features), _weight(out_features)
        if not bias:
            self.bias *= 0

    def forward(self, value):
        if value.shape[-1] != self.weight.shape[1]:
            raise RuntimeError(f"Linear: {value.shape} does not match {self.weight.shape}")
        return Tensor((value.data_ @ self.weight.T + self.bias).astype(np.float32))


class Dropout(Module):
    def __init__(self, p=0.5):
        super().__init__()
        self.p = p

    def forward(self, value):
        if self.p and self.training:
            keep = RNG[0].uniform(size=value.shape) >= self.p
            return Tensor((value.data_ * keep / (1 - self.p)).astype(np.float32))
        return value


def _sigmoid(x):
    return 1 / (1 + np.exp(-x))


class LSTM(Module):
    def __init__(self, input_size, hidden_size, num_layers=1, bidirectional=False,
                 batch_first=False):
        super().__init__()
        if not batch_first:
            raise ShimMissing("LSTM(batch_first=False)")
        self.input_size, self.hidden_size, self.num_layers = input_size, hidden_size, num_layers
        self.directions = 2 if bidirectional else 1
        self.weights = []
        for layer in range(num_layers):
            size = input_size if layer == 0 else hidden_size * self.directions
            for _ in range(self.directions):
                self.weights.append((_weight(4 * hidden_size, size),
                                     _weight(4 * hidden_size, hidden_size),
                                     _weight(4 * hidden_size)))

    def _run(self, sequence, weights, hidden, cell):
        outputs = []
        w_in, w_hidden, bias = weights
        size = self.hidden_size
        for row in sequence:
            gates = w_in @ row + w_hidden @ hidden + bias
            i, f, g, o = (gates[k * size:(k + 1) * size] for k in range(4))
            cell = _sigmoid(f) * cell + _sigmoid(i) * np.tanh(g)
            hidden = _sigmoid(o) * np.tanh(cell)
            outputs.append(hidden)
        return np.array(outputs, dtype=np.float32), hidden, cell

    def forward(self, packed, state):
        h_0, c_0 = state
        batch = len(packed.sequences)
        expected = (self.num_layers * self.directions, batch, self.hidden_size)
        for value in state:
            if tuple(value.shape) != expected:
                raise RuntimeError(f"Expected hidden size {expected}, got {value.shape}")
        h_n, c_n = np.zeros(expected, np.float32), np.zeros(expected, np.float32)
        results = []
        for index, sequence in enumerate(packed.sequences):
            if sequence.shape[-1] != self.input_size:
                raise RuntimeError(f"input.size(-1) must be equal to {self.input_size}")
            for layer in range(self.num_layers):
                parts = []
                for direction in range(self.directions):
                    slot = layer * self.directions + direction
                    data = sequence[::-1] if direction else sequence
                    out, h_n[slot, index], c_n[slot, index] = self._run(
                        data, self.weights[slot], h_0.data_[slot, index], c_0.data_[slot, index])
                    parts.append(out[::-1] if direction else out)
                sequence = np.concatenate(parts, axis=1)
            results.append(sequence)
        return utils.rnn.PackedSequence(results), (Tensor(h_n), Tensor(c_n))


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    class Missing(Module):
        def __init__(self, *_args, **_kwargs):
            raise ShimMissing(f"torch.nn.{name}")

    return Missing
