"""
A stand-in for h5py.File on numpy's npz format (one archive per file). Reading always gives new arrays.
FAIL holds names of data sets whose reading runs out of memory (fault injection).
"""
import os
import zipfile

import numpy as np

FAIL = set()


class Dataset:
    def __init__(self, name, array):
        self.name, self._array = name, array

    def _read(self):
        if self.name in FAIL:
            raise MemoryError(f"injected for {self.name}")
        return self._array

    @property
    def shape(self):
        return self._array.shape

    @property
    def dtype(self):
        return self._array.dtype

    def __len__(self):
        return len(self._array)

    def __getitem__(self, item):
        result = self._read()[item]
        return result.copy() if isinstance(result, np.ndarray) else result

    def __iter__(self):
        return iter(self._array.copy())

    def __array__(self, dtype=None):
        data = self._read().copy()
        return data if dtype is None else data.astype(dtype)


class File:
    def __init__(self, name, mode="r"):
        self.name, self.mode = os.fspath(name), mode
        self._data = {}
        self._open = True
        if mode == "r":
            try:
                with np.load(self.name, allow_pickle=False) as archive:
                    self._data = {key: archive[key] for key in archive.files}
            except (ValueError, zipfile.BadZipFile) as error:
                raise OSError(f"Unable to open file {name} ({error})") from error
        elif mode == "w":
            with open(self.name, "wb"):
                pass
        else:
            raise NotImplementedError(mode)

    def create_dataset(self, name, data=None, compression=None):
        if self.mode != "w" or name in self._data:
            raise ValueError(f"Unable to create dataset {name}")
        data = np.asarray(data)
        if data.dtype.kind in "OU":
            raise TypeError(f"Object dtype {data.dtype} has no native HDF5 equivalent")
        if compression is not None and data.ndim == 0:
            raise TypeError("Scalar datasets don't support chunk/filter options")
        self._data[name] = data.copy()

    def __contains__(self, name):
        return name in self._data

    def keys(self):
        return self._data.keys()

    def __getitem__(self, name):
        if not self._open:
            raise ValueError("Invalid location identifier (file is closed)")
        if name not in self._data:
            raise KeyError(f"Unable to open object (object '{name}' doesn't exist)")
        return Dataset(name, self._data[name])

    def close(self):
        if self._open and self.mode == "w":
            with open(self.name, "wb") as out:
                np.savez(out, **self._data)
        self._open = False

    def __enter__(self):
        return self

    def __exit__(self, *_args):
        self.close()
        return False
