"""D04: splitting the data gives every piece to exactly one split, reproducibly, for all datasets."""
import pandas as pd
import numpy as np

from pbt import shimmed  # noqa: F401
from harmonic_inference.data import datasets as ds
from checks import e04
from checks.d03 import compare, snapshot
from pbt import corpus, gen, musicxml, sets
from pbt.engine import Test, check, check_eq

RULE = (
    "Corpora of 0-9 short pieces with arbitrary ids, some without notes, chords or measures; 1-4 splits "
    "of arbitrary (not normalised, possibly zero) proportions; with and without a seed; also 1-4 MusicXML "
    "scores with labels. Non-trivial: at least 2 pieces (and 2 splits)."
)
ASSUMPTIONS = ["torch is the stand-in in shims/.", "The measures of all pieces fit in memory."]

CLASSES = ["ChordTransitionDataset", "ChordClassificationDataset", "ChordSequenceDataset",
           "KeyTransitionDataset", "KeySequenceDataset"]


def draw_corpus(case):
    first = sets.draw_piece(case, high_chords=3, high_notes=4)
    group = [first]
    for _ in range(case.int(0, 8)):
        # Few different pieces are enough: the ids tell them apart
        if len(group) < 4:
            group.append(sets.draw_piece(case, high_chords=3, high_notes=4))
        else:
            group.append(case.one_of(group))
    ids, number = [], case.int(0, 3)
    for _ in group:
        ids.append(number)
        number += case.one_of([1, 1, 2, 5])
    ids = case.shuffled(ids) if case.bool(0.3) else ids
    parts = {"notes": {}, "chords": {}, "measures": {}}
    complete = []
    for file_id, item in zip(ids, group):
        missing = case.one_of(list(parts)) if case.bool(0.12) else None
        for name, frame in [("notes", item.note_df), ("chords", item.chord_df),
                            ("measures", item.df)]:
            if name != missing:
                parts[name][file_id] = frame
        if missing is None:
            complete.append(file_id)
        else:
            case.event("incomplete piece")
    if not all(parts.values()):
        case.discard()
    dfs = {name: corpus.concat(list(frames.values()), list(frames), f"{name}_id")
           for name, frames in parts.items()}
    dfs["files"] = pd.DataFrame(
        {"corpus_name": ["c"] * len(ids), "file_name": [f"f{i}" for i in ids]},
        index=pd.Index(ids, name="file_id"),
    )
    return dfs, dict(zip(ids, group)), complete


def signature(piece):
    return ([(note.onset, note.pitch_class, note.octave, note.duration)
             for note in piece.get_inputs()],
            [(chord.root, chord.chord_type, chord.inversion, chord.onset, chord.key_tonic)
             for chord in piece.get_chords()])


def split(case):
    dfs, items, complete = draw_corpus(case)
    splits = [case.int(0, 10) for _ in range(case.int(1, 4))]
    if not any(splits):
        splits[0] = 1
    given = [value / case.one_of([1, 10, 7]) for value in splits] if case.bool(0.3) else splits
    if case.bool(0.3):
        given, splits = (0.8, 0.1, 0.1), (8, 1, 1)
    if not any(given):
        case.discard()
    seed = case.int(0, 100)
    case.note(f"ids {list(items)} complete {complete} splits {given} seed {seed}")
    case.nontrivial(len(complete) > 1 and len(given) > 1)

    def run(seed, names=None):
        with gen.quiet():
            if names is None:
                return (None,) + tuple(ds.get_split_file_ids_and_pieces(
                    data_dfs=dfs, splits=given, seed=seed))
            return ds.get_dataset_splits([getattr(ds, name) for name in names], data_dfs=dfs,
                                         splits=given, seed=seed)

    classes = case.subset(CLASSES, 0.4) or [CLASSES[0]]
    datasets, ids, pieces = run(seed, classes)
    check_eq(len(ids), len(given), "number of splits")
    check_eq(len(pieces), len(given), "number of splits")
    check_eq(sorted(int(i) for part in ids for i in part), sorted(complete),
             "every complete piece is in exactly one split")
    total, cumulative = float(sum(given)), 0.0
    for part_ids, part_pieces, share in zip(ids, pieces, given):
        check_eq(len(part_ids), len(part_pieces), "pieces and ids of a split")
        expected = len(complete) * share / total
        check(abs(len(part_ids) - expected) <= 1 + 1e-9,
              f"{len(part_ids)} of {len(complete)} pieces are in a split of share {share / total}")
        cumulative += len(part_ids)
        for file_id, piece in zip(part_ids, part_pieces):
            check_eq(signature(piece), signature(items[int(file_id)].piece),
                     f"the piece with id {file_id}")
    # The same seed gives the same splits, whatever happened before and for any datasets
    np.random.seed(case.int(0, 100))
    _, again, _ = run(seed, None if case.bool() else case.subset(CLASSES, 0.3))
    check_eq([[int(i) for i in part] for part in again], [[int(i) for i in part] for part in ids],
             "splits of the same seed")
    # The datasets hold the pieces of their split
    for name, row in zip(classes, datasets):
        check_eq(len(row), len(given), "number of splits of a dataset")
        for part, dataset in zip(ids, row):
            if len(part) == 0:
                check(dataset is None, "dataset of an empty split")
                case.event("empty split")
                continue
            check_eq(type(dataset).__name__, name, "dataset class")
            with gen.quiet():
                reference = getattr(ds, name)([items[int(i)].piece for i in part])
            if case.bool(0.5) or len(dataset) < 8:
                compare(snapshot(dataset), snapshot(reference), f"{name} of {list(part)}")
    # Without a seed: still a partition
    if case.bool(0.3):
        _, ids, _ = run(None)
        check_eq(sorted(int(i) for part in ids for i in part), sorted(complete), "partition")


def split_scores(case):
    """The same for MusicXML files, whose ids are their places in the list."""
    with e04.scratch() as folder:
        folder.mkdir(parents=True, exist_ok=True)
        scores, paths = [], {"xmls": [], "csvs": []}
        for number in range(case.int(1, 4)):
            score = musicxml.draw_score(case)
            if not score.notes:
                case.discard()
            xml, csv = folder / f"{number}.musicxml", folder / f"{number}.csv"
            xml.write_text(score.text, encoding="utf-8")
            csv.write_text(e04.draw_labels(case, score.measures), encoding="utf-8")
            scores.append(score)
            paths["xmls"].append(str(xml))
            paths["csvs"].append(csv)
        shares = [case.int(0, 4) for _ in range(case.int(1, 3))]
        if not any(shares):
            shares[0] = 1
        seed = case.int(0, 100)
        case.note(f"{len(scores)} scores, splits {shares}, seed {seed}")
        case.nontrivial(len(scores) > 1)
        with gen.quiet():
            ids, split_pieces = ds.get_split_file_ids_and_pieces(
                xml_and_csv_paths=paths, splits=shares, seed=seed)
            _, again, _ = ds.get_dataset_splits(
                [], xml_and_csv_paths=paths, splits=shares, seed=seed)
    check_eq(len(ids), len(shares), "number of splits")
    check_eq(sorted(int(i) for part in ids for i in part), list(range(len(scores))),
             "every score is in exactly one split")
    check_eq([[int(i) for i in part] for part in again], [[int(i) for i in part] for part in ids],
             "splits of the same seed")
    for part_ids, part, share in zip(ids, split_pieces, shares):
        check_eq(len(part_ids), len(part), "pieces and ids of a split")
        check(abs(len(part) - len(scores) * share / sum(shares)) <= 1 + 1e-9,
              f"{len(part)} of {len(scores)} scores are in a split of {share} of {sum(shares)}")
        for i, piece in zip(part_ids, part):
            measures = scores[int(i)].measures
            check_eq(sorted((measures.time((int(note.onset[0]), note.onset[1])), note.duration,
                             note.get_midi_note_number()) for note in piece.get_inputs()),
                     sorted((start, end - start, midi)
                            for start, end, _, midi in scores[int(i)].notes),
                     f"notes of the score with id {i}")


def tests():
    return [Test("splits", split, 300), Test("splits_of_scores", split_scores, 40)]
