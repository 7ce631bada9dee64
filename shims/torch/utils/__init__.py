from . import data  # noqa
