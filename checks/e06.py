"""E06: aggregate, create_h5_data, train and test hand every piece on to exactly one split's use."""
import json
import pickle

import numpy as np

from pbt import shimmed  # noqa: F401
import h5py
import pytorch_lightning
from harmonic_inference.data import corpus_reading
from harmonic_inference.data import datasets as ds
from harmonic_inference.data.piece import (
    get_score_piece_from_data_frames, get_score_piece_from_music_xml,
)
from harmonic_inference.models.initial_chord_models import SimpleInitialChordModel
from harmonic_inference.utils.data_utils import load_kwargs_from_json
from checks import c04, e04, e05, j05
from checks.d03 import compare, snapshot
from pbt import gen, musicxml, scripts
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Random corpora (DCML tables or MusicXML files with labels, some unlabelled) of 2-6 pieces, run through "
    "aggregate_corpus_data.py, create_h5_data.py, train.py and test.py as programs. Non-trivial: at least two splits with "
    "pieces."
)
ASSUMPTIONS = ["Single pieces (P01, P03) and datasets (D01-D03) are right.",
               "The networks' training is pytorch_lightning's: train.py's call of it is recorded."]

SPLITS = ["train", "valid", "test"]
DATASETS = ["ChordTransitionDataset", "ChordClassificationDataset", "ChordSequenceDataset",
            "KeyTransitionDataset", "KeySequenceDataset"]


def program(name, arguments):
    with gen.quiet():
        return scripts.program(name, arguments)


def flat(case, arguments):
    return [str(word) for group in case.shuffled(arguments) for word in group]


def read_pieces(case, load, count):
    try:
        with gen.quiet():
            piece = load()
    except (ValueError, IndexError, KeyError):
        case.discard()
    if piece.get_chords() is not None and not len(piece.get_chords()):
        case.discard()
    return piece


def tables(case, folder):
    """{id: (name, piece)} of a corpus of tables; those that are not annotated, too."""
    pieces = {}
    for number in range(case.int(2, 6)):
        base = case.one_of(["mozart", "bach", "wfbach"])
        pieces[base, f"n{number} x.tsv"] = c04.draw_piece(case, number == 0 or case.bool(0.85))
    for (base, file_name), piece in pieces.items():
        c04.write_piece(folder / "in" / base, file_name, piece)
    out = folder / "data"
    notes_only = case.bool()
    arguments = [["-i", folder / "in"], ["-o", out]] + ([["--notes-only"]] if notes_only else [])
    code, _ = program("aggregate_corpus_data", flat(case, arguments))
    check_eq(code, 0, "exit code of aggregate_corpus_data.py")
    with gen.quiet():
        files, measures, chords, notes = corpus_reading.load_clean_corpus_dfs(out)
    result = {}
    for i in files.index:
        annotated = chords is not None and i in set(chords.index.get_level_values(0))
        name = (files.loc[i, "corpus_name"], files.loc[i, "file_name"])
        check(annotated <= pieces[name]["annotated"], f"annotations of {name}")
        result[int(i)] = (f"{name[0]}/{name[1]}", read_pieces(
            case, lambda: get_score_piece_from_data_frames(
                notes.loc[i], chords.loc[i] if annotated else None, measures.loc[i]), 0))
    check_eq({name for name, _ in result.values()},
             {"/".join(name) for name, piece in pieces.items() if notes_only or piece["annotated"]},
             "pieces of the corpus")
    return out, result


def scores(case, folder):
    files = {}
    for number in range(case.int(2, 4)):
        base, stem = case.one_of(["", "bach", "bach/b 2"]), case.one_of(["a", "b c", "d.e", "F"])
        score = musicxml.draw_score(case)
        if not score.notes:
            case.discard()
        labels = e04.draw_labels(case, score.measures) if case.bool(0.8) else None
        files[base, stem] = (score, labels)
    data = folder / "data"
    found = {}
    for (base, stem), (score, labels) in files.items():
        path = data / base / "scores" / f"{stem}.mxl"
        e04.write_mxl(path, score.text)
        if labels is not None:
            csv = data / base / "chords" / f"{stem}.csv"
            csv.parent.mkdir(parents=True, exist_ok=True)
            csv.write_text(labels)
            found[path] = csv
    if not found:
        case.discard()
    result = {}
    for i, path in enumerate(sorted(found, key=str)):
        result[i] = (str(path.relative_to(data)), read_pieces(
            case, lambda: get_score_piece_from_music_xml(path, found[path]), 0))
    return data, result


def too_far(piece):
    """A chord is out of the range of the key before it: there is no data for such a piece."""
    with gen.quiet():
        for name in DATASETS:
            try:
                getattr(ds, name)([piece])
            except ValueError:
                return True
    return False


def split_of(path):
    with h5py.File(path, "r") as file:
        return [int(i) for i in file["file_ids"]]


def pipeline(case):
    xml = case.bool(0.3)
    with e04.scratch() as base:
        folder = base.parent
        data, pieces = (scores if xml else tables)(case, folder)
        usable = {i: item for i, item in pieces.items() if item[1].get_chords() is not None}
        if not usable:
            case.discard()
        h5, seed = folder / case.one_of(["h5", "my h5/x"]), case.int(0, 5)
        arguments = [["-i", data]] + ([["-x"]] if xml else [])
        arguments.append([case.one_of(["-o", "--output", "-h5"]), h5])
        if seed or case.bool():
            arguments.append([case.one_of(["-s", "--seed"]), seed])
        shares = (0.8, 0.1, 0.1)
        if case.bool(0.8):
            shares = [case.int(0, 10) for _ in range(3)]
            if not any(shares):
                shares = [1, 1, 1]
            if case.bool(0.4):
                # They need not sum up to 1
                shares = [share / case.one_of([64, 16]) for share in shares]
            arguments.append(["--splits"] + shares)
        if not xml and case.bool(0.3):
            chosen = case.subset(["mozart", "bach", "wf"], 0.6) or ["bach"]
            arguments.append([case.one_of(["-c", "--corpus"])] + chosen)
            usable = {i: item for i, item in usable.items()
                      if any(part in item[0].split("/")[0] for part in chosen)}
            case.event("corpus filter")
            if not usable:
                case.discard()
        arguments = flat(case, arguments)
        case.note(f"pieces {[(i, name) for i, (name, _) in usable.items()]} {arguments[2:]}")
        try:
            code, _ = program("create_h5_data", arguments)
        except ValueError:
            if any(too_far(piece) for _, piece in usable.values()):
                case.discard()
            raise
        check_eq(code, 0, "exit code of create_h5_data.py")
        # Every piece is in exactly one split, with the share it should have
        ids = {}
        for split, share in zip(SPLITS, shares):
            paths = {name: h5 / f"{name}_{split}_seed_{seed}.h5" for name in DATASETS}
            if not paths[DATASETS[0]].exists():
                check(not any(path.exists() for path in paths.values()), f"some data for {split}")
                ids[split] = []
            else:
                # No file without items (e.g. no key changes)
                empty = [name for name, path in paths.items() if not path.exists()]
                found = {name: split_of(path) for name, path in paths.items() if name not in empty}
                ids[split] = found[DATASETS[0]]
                for name in found:
                    check_eq(found[name], ids[split], f"ids of {name} for {split}")
                for name in empty:
                    with gen.quiet():
                        items = len(getattr(ds, name)([usable[i][1] for i in ids[split]]))
                    check_eq(items, 0, f"items of {name} for {split}, of which there is no file")
                    case.event("dataset without items")
            size = len(usable) * share / sum(shares)
            check(abs(len(ids[split]) - size) <= 1 + 1e-9,
                  f"{len(ids[split])} of {len(usable)} pieces in a split of share {share}")
        check_eq(sorted(i for split in SPLITS for i in ids[split]), sorted(usable),
                 "the pieces of all splits")
        case.nontrivial(sum(bool(ids[split]) for split in SPLITS) > 1)
        for split in SPLITS:
            path = h5 / f"pieces_{split}_seed_{seed}.pkl"
            check_eq(path.exists(), bool(ids[split]), f"pieces of {split}")
            if ids[split]:
                with open(path, "rb") as file:
                    check_eq(len(pickle.load(file)), len(ids[split]), f"number of pieces of {split}")
        given = ["-h5", h5] + (["-s", seed] if seed or case.bool() else [])
        if case.bool(0.3):
            # Without the pickled pieces: the same, slower
            for path in h5.glob("*.pkl"):
                path.unlink()
            case.event("no pickled pieces")
        if ids["train"] and case.bool(0.6):
            train_icm(case, folder, data, xml, given, [usable[i][1] for i in ids["train"]])
        if ids["train"] and ids["valid"]:
            train_network(case, folder, given, *[[usable[i][1] for i in ids[split]]
                                                 for split in ("train", "valid")])
        evaluate(case, folder, data, xml, given, usable, ids, pieces)


def train_icm(case, folder, data, xml, given, pieces):
    case.event("icm")
    arguments = [given, ["-m", "icm"], ["-i", data], ["--checkpoint", folder / "icm"]]
    code, _ = program("train", flat(case, arguments + ([["-x"]] if xml else [])))
    check_eq(code, 0, "exit code of train.py -m icm")
    model = SimpleInitialChordModel(load_kwargs_from_json(
        folder / "icm" / "icm" / "initial_chord_prior.json"))
    chords = [piece.get_chords()[0] for piece in pieces]
    expected = j05.priors([(None, (chord.root - chord.key_tonic, chord.chord_type, chord.inversion),
                            chord.key_mode) for chord in chords], 1.0, th.TPC)
    for mode in th.MODES:
        prior = np.array(model.get_prior(mode == th.MINOR, log=False))
        check(np.allclose(prior, expected[mode], rtol=1e-9), f"initial chords in {mode}")


SETTINGS = {
    "ccm": dict(lstm_layers=1, lstm_hidden_dim=3, hidden_dim=5),
    "ctm": dict(embed_dim=4, lstm_layers=1, lstm_hidden_dim=3, hidden_dim=5),
    "csm": dict(embed_dim=4, lstm_layers=1, lstm_hidden_dim=3, hidden_dim=5),
    "ktm": dict(embed_dim=4, lstm_layers=1, lstm_hidden_dim=3, hidden_dim=5),
    "ksm": dict(embed_dim=4, lstm_layers=1, lstm_hidden_dim=3, hidden_dim=5),
}
CLASSES = {"ccm": ("SimpleChordClassifier", "ChordClassificationDataset"),
           "ctm": ("SimpleChordTransitionModel", "ChordTransitionDataset"),
           "csm": ("SimpleChordSequenceModel", "ChordSequenceDataset"),
           "ktm": ("SimpleKeyTransitionModel", "KeyTransitionDataset"),
           "ksm": ("SimpleKeySequenceModel", "KeySequenceDataset")}


def train_network(case, folder, given, train, valid):
    with gen.quiet():
        names = [name for name in sorted(CLASSES) if all(
            len(getattr(ds, CLASSES[name][1])(pieces)) for pieces in (train, valid))]
    if not names:
        return
    name = case.one_of(names if case.bool() else [x for x in names if x.startswith("k")] or names)
    class_name, dataset_name = CLASSES[name]
    cls = getattr(ds, dataset_name)
    case.event(name)
    arguments = [given, ["-m", name], ["--checkpoint", folder / "nets"]]
    settings = dict(SETTINGS[name])
    dataset_kwargs = {}
    reduction = {kind: case.one_of(th.TYPES[:4]) for kind in th.TYPES} if case.bool() else None
    if reduction is not None:
        text = {str(key): str(value) for key, value in reduction.items()}
        if name == "csm":
            settings["input_reduction"] = text
            dataset_kwargs["input_reduction"] = reduction
        elif name != "ctm":
            settings.update(reduction=text, use_inversions=False)
            dataset_kwargs.update(reduction=reduction, use_inversions=False)
    if name == "csm" and case.bool(0.4):
        arguments.append(["--pitch-based"])
        class_name = "PitchBasedChordSequenceModel"
        dataset_kwargs["pitch_based"] = True
    elif name == "csm" and case.bool():
        settings["use_output_inversions"] = False
        dataset_kwargs["use_inversions_output"] = False
    if name == "ccm":
        settings["transposition_range"] = [-1, 1]
        dataset_kwargs["transposition_range"] = [-1, 1]
    (folder / "settings.json").write_text(json.dumps(settings))
    arguments.append(["--model-kwargs", folder / "settings.json"])
    rate = case.one_of([0.001, 0.5, 0.02])
    if rate != 0.001 or case.bool():
        arguments.append(["-lr", rate])
    pytorch_lightning.Trainer.RUNS.clear()
    code, _ = program("train", flat(case, arguments))
    check_eq(code, 0, f"exit code of train.py -m {name}")
    check_eq(len(pytorch_lightning.Trainer.RUNS), 1, "training runs")
    trainer, model, train_loader, valid_loader = pytorch_lightning.Trainer.RUNS.pop()
    check_eq(str(trainer.settings["default_root_dir"]), str(folder / "nets" / name), "folder of the model")
    check_eq(type(model).__name__, class_name, "class of the model")
    check_eq(model.configure_optimizers()[0][0].settings["lr"], rate, "learning rate")
    check_eq((train_loader.shuffle, valid_loader.shuffle), (True, False), "shuffling")
    for loader, pieces, split in ((train_loader, train, "train"), (valid_loader, valid, "valid")):
        with gen.quiet():
            expected = cls(pieces, **dataset_kwargs)
            check_eq(type(loader.dataset).__name__, dataset_name, "class of the dataset")
            compare(snapshot(loader.dataset), snapshot(expected), f"{dataset_name} of {split}")


def evaluate(case, folder, data, xml, given, usable, ids, pieces):
    split = case.one_of([split for split in ("valid", "test") if ids[split]] or [None])
    if split is None:
        return
    case.event(f"test.py on {split}")
    e05.write_models(folder / "models", [0])
    arguments = [given, ["-i", data], ["-o", folder / "out"], ["--checkpoint", folder / "models"]]
    arguments += ([["-x"]] if xml else []) + ([["--test"]] if split == "test" else [])
    wanted = ids[split]
    if not xml and case.bool(0.25):
        # All the pieces, whatever is in the h5 folder
        case.event("--no_h5")
        arguments.append(["--no_h5"])
        usable, wanted = pieces, sorted(pieces)
    if case.bool(0.3):
        wanted = [case.one_of(wanted)]
        arguments.append(["--id", wanted[0]])
    with e05.recorded() as made:
        code, _ = scripts.program("test", flat(case, arguments))
    check_eq(code, 0, "exit code of test.py")
    check_eq([piece.name for piece in made[0].pieces],
             [f"{i}: {usable[i][0]}" for i in wanted], f"pieces evaluated of {split}")
    for i, piece in zip(wanted, made[0].pieces):
        check_eq(e04.content(piece), e04.content(usable[i][1]), f"content of {usable[i][0]}")


def tests():
    return [Test("pipeline", pipeline, 160)]
