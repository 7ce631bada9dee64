"""
A forward-only stand-in for the parts of torch that harmonic_inference uses, on numpy. The behaviour is
that of the torch documentation. Anything else raises NotImplementedError (ShimMissing).
"""
import numpy as np


class ShimMissing(NotImplementedError):
    """The stand-in lacks something: a limitation of the machinery, not of the code under test."""


class Tensor:
    __array_priority__ = 1000

    def __init__(self, data):
        self.data_ = data if isinstance(data, np.ndarray) else np.asarray(data)

    # ---- plain attributes ----
    @property
    def shape(self):
        return tuple(self.data_.shape)

    @property
    def dtype(self):
        return self.data_.dtype

    @property
    def device(self):
        return "cpu"

    @property
    def ndim(self):
        return self.data_.ndim

    def dim(self):
        return self.data_.ndim

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    def __len__(self):
        if self.data_.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return len(self.data_)

    def __iter__(self):
        if self.data_.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        return iter([Tensor(np.asarray(row)) for row in self.data_])

    def __repr__(self):
        return f"tensor({self.data_!r})"

    def __array__(self, dtype=None):
        return self.data_ if dtype is None else self.data_.astype(dtype)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.data_.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(self.data_.reshape(-1)[0])

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.data_.dtype.kind not in "iu" or self.data_.size != 1:
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return int(self.data_.reshape(-1)[0])

    def __float__(self):
        return float(self.item())

    def item(self):
        if self.data_.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return self.data_.reshape(-1)[0].item()

    def tolist(self):
        return self.data_.tolist()

    # ---- conversion ----
    def float(self):
        return Tensor(self.data_.astype(np.float32))

    def double(self):
        return Tensor(self.data_.astype(np.float64))

    def long(self):
        return Tensor(self.data_.astype(np.int64))

    def int(self):
        return Tensor(self.data_.astype(np.int32))

    def bool(self):
        return Tensor(self.data_.astype(bool))

    def numpy(self):
        return self.data_

    def detach(self):
        return self

    def cpu(self):
        return self

    def to(self, *_args, **_kwargs):
        return self

    def clone(self):
        return Tensor(self.data_.copy())

    def contiguous(self):
        return self

    # ---- shape ----
    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        return Tensor(self.data_.reshape(shape))

    view = reshape

    def unsqueeze(self, dim):
        return Tensor(np.expand_dims(self.data_, dim))

    def squeeze(self, dim=None):
        if dim is None:
            return Tensor(self.data_.squeeze())
        return Tensor(self.data_.squeeze(dim) if self.data_.shape[dim] == 1 else self.data_)

    def expand(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        own = (1,) * (len(shape) - self.data_.ndim) + self.data_.shape
        full = tuple(o if s == -1 else s for o, s in zip(own, shape))
        return Tensor(np.broadcast_to(self.data_, full))

    def permute(self, *dims):
        dims = dims[0] if len(dims) == 1 and isinstance(dims[0], (tuple, list)) else dims
        return Tensor(self.data_.transpose(dims))

    def transpose(self, dim0, dim1):
        return Tensor(np.swapaxes(self.data_, dim0, dim1))

    def flatten(self):
        return self.reshape(-1)

    # ---- reductions ----
    def sum(self, dim=None):
        data = self.data_
        if data.dtype.kind in "bui":
            data = data.astype(np.int64)
        return Tensor(np.asarray(data.sum(axis=dim)))

    def mean(self, dim=None):
        return Tensor(np.asarray(self.data_.mean(axis=dim)))

    def argmax(self, dim=None):
        return Tensor(np.asarray(self.data_.argmax(axis=dim)))

    def all(self):
        return Tensor(np.asarray(self.data_.all()))

    def any(self):
        return Tensor(np.asarray(self.data_.any()))

    def max(self, dim=None):
        if dim is not None:
            raise ShimMissing("Tensor.max(dim)")
        return Tensor(np.asarray(self.data_.max()))

    def min(self, dim=None):
        if dim is not None:
            raise ShimMissing("Tensor.min(dim)")
        return Tensor(np.asarray(self.data_.min()))

    def round(self):
        return Tensor(np.round(self.data_))

    def abs(self):
        return Tensor(np.abs(self.data_))

    def exp(self):
        return Tensor(np.exp(self.data_))

    def log(self):
        return Tensor(np.log(self.data_))

    # ---- indexing ----
    @staticmethod
    def _index(index):
        if isinstance(index, tuple):
            return tuple(Tensor._index(i) for i in index)
        if isinstance(index, Tensor):
            return index.data_
        if isinstance(index, slice):
            return slice(*[i.item() if isinstance(i, Tensor) else i
                           for i in (index.start, index.stop, index.step)])
        return index

    def __getitem__(self, index):
        return Tensor(np.asarray(self.data_[self._index(index)]))

    def __setitem__(self, index, value):
        self.data_[self._index(index)] = value.data_ if isinstance(value, Tensor) else value

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise ShimMissing(f"Tensor.{name}")


def _raw(value):
    return value.data_ if isinstance(value, Tensor) else value


def _binary(name):
    def operator(self, other):
        other = _raw(other)
        data = self.data_
        if isinstance(other, float) and data.dtype.kind == "f":
            other = data.dtype.type(other)
        return Tensor(np.asarray(getattr(np.asarray(data), name)(np.asarray(other))))

    return operator


for _name in ["add", "radd", "sub", "rsub", "mul", "rmul", "pow", "lt", "le", "gt", "ge", "eq", "ne",
              "and", "or", "xor", "mod", "floordiv"]:
    setattr(Tensor, f"__{_name}__", _binary(f"__{_name}__"))


def _truediv(self, other):
    data, other = self.data_, np.asarray(_raw(other))
    data = data.astype(np.float32) if data.dtype.kind in "iub" else data
    if other.dtype.kind in "iub":
        other = other.astype(data.dtype)
    return Tensor(np.asarray(data / other))


Tensor.__truediv__ = _truediv
Tensor.__neg__ = lambda self: Tensor(-self.data_)
Tensor.__invert__ = lambda self: Tensor(~self.data_)


def tensor(data, dtype=None, **_kwargs):
    return Tensor(np.array(_raw(data), dtype=dtype))


def as_size(shape):
    return shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape


def zeros(*shape, device=None, dtype=np.float32):
    return Tensor(np.zeros(as_size(shape), dtype=dtype))


def ones(*shape, device=None, dtype=np.float32):
    return Tensor(np.ones(as_size(shape), dtype=dtype))


def from_numpy(array):
    if not isinstance(array, np.ndarray):
        raise TypeError(f"expected np.ndarray (got {type(array)})")
    if array.dtype.kind == "O":
        raise TypeError("can't convert np.ndarray of type numpy.object_")
    return Tensor(array)


def transpose(value, dim0, dim1):
    return value.transpose(dim0, dim1)


def squeeze(value, dim=None):
    return value.squeeze(dim)


def clamp(value, min=None, max=None):
    return Tensor(np.clip(value.data_, min, max))


def chunk(value, chunks, dim=0):
    size = -(-value.shape[dim] // chunks)
    parts = np.split(value.data_, list(range(size, value.shape[dim], size)), axis=dim)
    return tuple(Tensor(part) for part in parts)


def cat(values, dim=0):
    if len({value.ndim for value in values}) != 1:
        raise RuntimeError("Tensors must have same number of dimensions")
    return Tensor(np.concatenate([value.data_ for value in values], axis=dim))


def stack(values, dim=0):
    return Tensor(np.stack([value.data_ for value in values], axis=dim))


def gather(value, dim, index):
    return Tensor(np.take_along_axis(value.data_, index.data_, axis=dim))


def roll(value, shifts, dims=None):
    return Tensor(np.roll(value.data_, shifts, axis=dims))


def sigmoid(value):
    return Tensor(1 / (1 + np.exp(-value.data_)))


# ---- Not used by the repository as it is; there so that rewritten code finds them ----
class _MaxResult(tuple):
    values = property(lambda self: self[0])
    indices = property(lambda self: self[1])


def _extreme(name):
    def method(self, dim=None, keepdim=False):
        if isinstance(dim, Tensor):
            return Tensor(getattr(np, name + "imum")(self.data_, dim.data_))
        if dim is None:
            return Tensor(np.asarray(getattr(self.data_, name)()))
        index = getattr(self.data_, "arg" + name)(axis=dim)
        values = np.take_along_axis(self.data_, np.expand_dims(index, dim), axis=dim)
        if keepdim:
            return _MaxResult((Tensor(values), Tensor(np.expand_dims(index, dim))))
        return _MaxResult((Tensor(np.asarray(values.squeeze(dim))), Tensor(np.asarray(index))))

    return method


def _sum(self, dim=None, keepdim=False, axis=None):
    data = self.data_.astype(np.int64) if self.data_.dtype.kind in "bui" else self.data_
    dim = axis if dim is None else dim
    return Tensor(np.asarray(data.sum(axis=dim, keepdims=keepdim)))


def _mean(self, dim=None, keepdim=False):
    return Tensor(np.asarray(self.data_.mean(axis=dim, keepdims=keepdim)))


def _argmax(self, dim=None, keepdim=False, axis=None):
    dim = axis if dim is None else dim
    data = np.asarray(self.data_.argmax(axis=dim))
    return Tensor(np.expand_dims(data, dim) if keepdim and dim is not None else data)


def _all(self, dim=None):
    return Tensor(np.asarray(self.data_.all(axis=dim)))


def _any(self, dim=None):
    return Tensor(np.asarray(self.data_.any(axis=dim)))


Tensor.max, Tensor.min = _extreme("max"), _extreme("min")
Tensor.sum, Tensor.mean, Tensor.argmax, Tensor.all, Tensor.any = _sum, _mean, _argmax, _all, _any
Tensor.T = property(lambda self: Tensor(self.data_.T))
Tensor.numel = lambda self: int(self.data_.size)
Tensor.nelement = Tensor.numel
Tensor.tanh = lambda self: Tensor(np.tanh(self.data_))
Tensor.sigmoid = lambda self: Tensor(1 / (1 + np.exp(-self.data_)))
Tensor.sqrt = lambda self: Tensor(np.sqrt(self.data_))
Tensor.floor = lambda self: Tensor(np.floor(self.data_))
Tensor.type = lambda self, dtype=None: self if dtype is None else Tensor(self.data_.astype(dtype))
Tensor.clamp = lambda self, min=None, max=None: Tensor(np.clip(self.data_, min, max))
Tensor.flip = lambda self, *dims: Tensor(np.flip(self.data_, as_size(dims)))
Tensor.gather = lambda self, dim, index: gather(self, dim, index)
Tensor.chunk = lambda self, chunks, dim=0: chunk(self, chunks, dim)
Tensor.roll = lambda self, shifts, dims=None: roll(self, shifts, dims)
Tensor.eq = lambda self, other: self == other
Tensor.equal = lambda self, other: (
    self.shape == other.shape and bool((self.data_ == other.data_).all()))
Tensor.allclose = lambda self, other, rtol=1e-5, atol=1e-8: bool(
    np.allclose(self.data_, other.data_, rtol, atol))
Tensor.lt = lambda self, other: self < other
Tensor.gt = lambda self, other: self > other
Tensor.add = lambda self, other: self + other
Tensor.sub = lambda self, other: self - other
Tensor.mul = lambda self, other: self * other
Tensor.div = lambda self, other: self / other
Tensor.size_ = property(lambda self: self.shape)
Tensor.copy_ = lambda self, other: self.__setitem__(slice(None), other) or self
Tensor.__deepcopy__ = lambda self, memo: Tensor(self.data_.copy())
Tensor.ne = lambda self, other: self != other
Tensor.repeat = lambda self, *sizes: Tensor(np.tile(self.data_, as_size(sizes)))
Tensor.index_select = lambda self, dim, index: Tensor(np.take(self.data_, index.data_, axis=dim))
Tensor.masked_select = lambda self, mask: Tensor(self.data_[mask.data_])
Tensor.masked_fill = lambda self, mask, value: Tensor(np.where(mask.data_, value, self.data_))
Tensor.nonzero = lambda self: Tensor(np.argwhere(self.data_))
Tensor.cumsum = lambda self, dim: Tensor(np.cumsum(self.data_, axis=dim))
Tensor.select = lambda self, dim, index: Tensor(np.asarray(np.take(self.data_, index, axis=dim)))
Tensor.narrow = lambda self, dim, start, length: Tensor(
    np.take(self.data_, range(start, start + length), axis=dim))
Tensor.swapaxes = Tensor.transpose
Tensor.__rtruediv__ = lambda self, other: Tensor(np.asarray(other / self.data_))
Tensor.__matmul__ = lambda self, other: Tensor(self.data_ @ other.data_)


def _inplace(name):
    def method(self, other):
        result = getattr(self, name)(other)
        self.data_[...] = result.data_
        return self

    return method


for _name, _op in [("iadd", "__add__"), ("isub", "__sub__"), ("imul", "__mul__"),
                   ("itruediv", "__truediv__")]:
    setattr(Tensor, f"__{_name}__", _inplace(_op))


def _function(name):
    def function(value, *args, **kwargs):
        return getattr(value, name)(*args, **kwargs)

    function.__name__ = name
    return function


for _name in ["sum", "mean", "argmax", "all", "any", "max", "min", "round", "abs", "exp", "log",
              "tanh", "sqrt", "floor", "unsqueeze", "reshape", "flatten", "permute", "flip",
              "index_select", "masked_select", "nonzero", "cumsum", "numel", "clone", "eq", "ne"]:
    globals()[_name] = _function(_name)


def zeros_like(value, dtype=None):
    return Tensor(np.zeros_like(value.data_, dtype=dtype))


def ones_like(value, dtype=None):
    return Tensor(np.ones_like(value.data_, dtype=dtype))


def full(size, fill_value, dtype=None, device=None):
    return Tensor(np.full(size, fill_value, dtype=dtype))


def arange(*args, dtype=None, device=None):
    return Tensor(np.arange(*args, dtype=dtype))


def where(condition, first, second):
    return Tensor(np.where(condition.data_, _raw(first), _raw(second)))


def as_tensor(data, dtype=None, device=None):
    return data if isinstance(data, Tensor) and dtype is None else tensor(data, dtype=dtype)


def softmax(value, dim):
    data = np.exp(value.data_ - value.data_.max(axis=dim, keepdims=True))
    return Tensor(data / data.sum(axis=dim, keepdims=True))


def log_softmax(value, dim):
    return softmax(value, dim).log()


def relu(value):
    return Tensor(np.maximum(value.data_, 0))


def matmul(first, second):
    return first @ second


def is_tensor(value):
    return isinstance(value, Tensor)


def isnan(value):
    return Tensor(np.isnan(value.data_))


def concat(values, dim=0):
    return cat(values, dim)
