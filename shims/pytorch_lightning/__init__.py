import inspect

from torch.nn import Module


class LightningModule(Module):
    device = "cpu"

    def __init__(self, *_args, **_kwargs):
        super().__init__()
        self.logged = {}

    def save_hyperparameters(self):
        frame = inspect.currentframe().f_back
        names = inspect.getargvalues(frame)
        self.hparams = {name: names.locals[name] for name in names.args if name != "self"}

    def log(self, name, value):
        self.logged[name] = value


class Trainer:
    """Trains nothing: keeps what it was given in RUNS."""
    RUNS = []

    def __init__(self, default_root_dir=None, profiler=None, callbacks=None, gpus=None,
                 resume_from_checkpoint=None, **kwargs):
        self.settings = dict(kwargs, default_root_dir=default_root_dir, profiler=profiler,
                             callbacks=callbacks, gpus=gpus,
                             resume_from_checkpoint=resume_from_checkpoint)

    def fit(self, model, train_dataloader=None, val_dataloaders=None):
        self.RUNS.append((self, model, train_dataloader, val_dataloaders))
