from .dataloader import DataLoader  # noqa


class Dataset:
    pass
