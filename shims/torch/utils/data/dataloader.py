import random

import numpy as np

from ..._core import ShimMissing, Tensor


def default_collate(batch):
    first = batch[0]
    if isinstance(first, Tensor):
        if any(item.shape != first.shape for item in batch):
            raise RuntimeError("stack expects each tensor to be equal size")
        return Tensor(np.stack([item.data_ for item in batch]))
    if isinstance(first, np.ndarray):
        if first.dtype.kind in "OSU":
            raise TypeError(f"default_collate: found {first.dtype}")
        return default_collate([Tensor(item) for item in batch])
    if isinstance(first, np.generic):
        return Tensor(np.array(batch))
    if isinstance(first, float):
        return Tensor(np.array(batch, dtype=np.float64))
    if isinstance(first, int):
        return Tensor(np.array(batch, dtype=np.int64))
    if isinstance(first, dict):
        return {key: default_collate([item[key] for item in batch]) for key in first}
    if isinstance(first, (tuple, list)):
        if any(len(item) != len(first) for item in batch):
            raise RuntimeError("each element in list of batch should be of equal size")
        return [default_collate(list(items)) for items in zip(*batch)]
    raise TypeError(f"default_collate: found {type(first)}")


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, num_workers=0, pin_memory=False,
                 drop_last=False, collate_fn=None, timeout=0, worker_init_fn=None,
                 prefetch_factor=2, persistent_workers=False, **kwargs):
        if kwargs:
            raise ShimMissing(f"DataLoader({kwargs})")
        self.dataset, self.batch_size, self.shuffle = dataset, batch_size, shuffle
        self.drop_last, self.collate_fn = drop_last, collate_fn or default_collate

    def __len__(self):
        if self.drop_last:
            return len(self.dataset) // self.batch_size
        return -(-len(self.dataset) // self.batch_size)

    def __iter__(self):
        order = list(range(len(self.dataset)))
        if self.shuffle:
            random.Random(len(order)).shuffle(order)
            if len(order) > 1 and order == sorted(order):
                order.reverse()
        for start in range(0, len(order), self.batch_size):
            chosen = order[start : start + self.batch_size]
            if self.drop_last and len(chosen) < self.batch_size:
                return
            yield self.collate_fn([self.dataset[i] for i in chosen])
