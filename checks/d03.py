"""D03: a dataset written to disk and read back has the same items, in RAM or not."""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from pbt import shimmed  # noqa: F401
import h5py
from harmonic_inference.data import datasets as ds
from checks.d01 import draw, same
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check_eq

RULE = (
    "Every dataset class over 1-3 random pieces with random options, written once or via a second "
    "copy, read in chunks of 1-3 items or the default size (rarely fewer than there are pieces), "
    "read into RAM or (with memory errors injected while reading the inputs or targets) left on disk, "
    "padded afterwards or not. Non-trivial: more than one piece, or left on disk."
)
ASSUMPTIONS = [
    "h5py is the stand-in in shims/ (arrays in an npz archive).",
    "Values are stored in half precision.",
]


def draw_class(case):
    name = case.one_of(["ChordTransition", "ChordClassification", "ChordSequence", "KeyTransition",
                        "KeySequence"])
    kwargs = {}
    if name == "ChordClassification" or name.startswith("Key"):
        kwargs = dict(reduction=th.draw_reduction(case)[1], use_inversions=False)
        if case.bool():
            kwargs = dict(reduction=None, use_inversions=True)
    elif name == "ChordSequence":
        kwargs = dict(input_reduction=th.draw_reduction(case)[1], use_inversions_input=case.bool(),
                      output_reduction=th.draw_reduction(case)[1], use_inversions_output=False)
    if name == "ChordClassification" and case.bool():
        kwargs["transposition_range"] = (-1, case.int(0, 2))
    return getattr(ds, name + "Dataset"), kwargs


def snapshot(dataset):
    """All items, in a comparable form."""
    return [dataset[item] for item in range(len(dataset))]


def compare(actual, expected, where):
    check_eq(len(actual), len(expected), f"{where}: number of items")
    for i, (first, second) in enumerate(zip(actual, expected)):
        check_eq(set(first), set(second), f"{where}: fields of item {i}")
        for name in ["input_lengths", "target_lengths"]:
            if name in second:
                check_eq(int(first[name]), int(second[name]), f"{where}: {name} of item {i}")
        for name in ["inputs", "targets"]:
            one, two = (np.array(data[name], dtype=float) for data in (first, second))
            if one.ndim and len(one) != len(two):
                # Padded to another length: compare what counts
                length = int(second["input_lengths"])
                same(one[:length], two[:length], f"{where}: {name} of item {i}")
                empty = -100.0 if one.ndim == 1 else 0.0
                same(one[length:], np.full_like(one[length:], empty), f"{where}: padding")
            else:
                length = int(second.get("target_lengths", len(one))) if one.ndim else None
                if name == "targets" and one.ndim:
                    one, two = one[:length], two[:length]
                same(one, two, f"{where}: {name} of item {i}")
        if "intermediate_targets" in second:
            for name, value in second["intermediate_targets"].items():
                same(first["intermediate_targets"][name], value, f"{where}: {name} of item {i}")


def stored(case):
    group, pieces = draw(case)
    cls, kwargs = draw_class(case)
    if case.bool(0.5):
        # Read in small chunks
        cls = type(cls.__name__, (cls,), {"chunk_size": case.int(1, 3)})
    elif case.bool(0.06):
        group, pieces = group * 70, pieces * 70
        case.event("more pieces than a chunk")
    with gen.quiet():
        dataset = cls(pieces, **kwargs)
    if len(dataset) == 0:
        case.discard()
    fail = case.weighted([(3, None), (2, "inputs"), (2, "targets")])
    case.note(f"{cls.__name__} {kwargs} failing {fail}")
    case.event(cls.__name__ + (" in RAM" if fail is None else " on disk"))
    case.nontrivial(len(group) > 1 or fail is not None)
    folder = Path(tempfile.mkdtemp(prefix="verif-d03-"))
    try:
        expected = snapshot(dataset)
        path = folder / "sub" / "a.h5" if case.bool() else folder / "a.h5"
        ids = [100 + 7 * i for i in range(len(group))] if case.bool() else None
        with gen.quiet():
            dataset.to_h5(str(path) if case.bool() else path, file_ids=ids)
            if case.bool():
                compare(snapshot(dataset), expected, "after writing")
            with h5py.File(path, "r") as h5_file:
                if ids is not None:
                    check_eq([int(x) for x in h5_file["file_ids"][:]], ids, "file ids")
                else:
                    check_eq("file_ids" in h5_file, False, "file ids")
            if fail is not None:
                h5py.FAIL.add(fail)
            try:
                loaded = ds.h5_to_dataset(path, cls, dataset_kwargs=kwargs)
            finally:
                h5py.FAIL.clear()
            check_eq(loaded.in_ram, fail is None, "in RAM")
            compare(snapshot(loaded), expected, "read")
            if case.bool(0.4):
                if fail is None:
                    loaded.pad()
                    case.event("padded")
                    compare(snapshot(loaded), expected, "read and padded")
                copy = folder / "copies" / "b.h5"
                loaded.to_h5(copy)
                path.unlink()
                case.event("copied")
                compare(snapshot(loaded), expected, "read and copied")
                again = ds.h5_to_dataset(copy, cls, dataset_kwargs=kwargs)
                compare(snapshot(again), expected, "read from the copy")
    finally:
        shutil.rmtree(folder)
    check_eq(os.path.exists(folder), False, "scratch folder")


def tests():
    return [Test("write_and_read", stored, 700)]
