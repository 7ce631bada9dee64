from ._core import *  # noqa
from ._core import ShimMissing, Tensor  # noqa
from . import autograd, nn, optim, utils  # noqa

long, float32, float64 = "int64", "float32", "float64"
int64, int32, bool_ = "int64", "int32", "bool"
double = "float64"


def set_num_threads(_number):
    pass


class no_grad:
    def __enter__(self):
        return self

    def __exit__(self, *_args):
        return False

    def __call__(self, function):
        return function


inference_mode = no_grad


def equal(first, second):
    return first.shape == second.shape and bool((first.data_ == second.data_).all())


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimMissing(f"torch.{name}")
