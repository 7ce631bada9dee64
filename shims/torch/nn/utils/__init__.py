from . import rnn  # noqa
