"""E04: pieces, model settings and models are loaded from exactly the files that were asked for."""
import contextlib
import json
import pickle
import tempfile
import zipfile
from argparse import Namespace
from fractions import Fraction
from pathlib import Path
from unittest import mock

import numpy as np

from pbt import shimmed  # noqa: F401
from harmonic_inference.data import corpus_reading
from harmonic_inference.data.data_types import PieceType
from harmonic_inference.data.piece import (
    get_score_piece_from_data_frames, get_score_piece_from_music_xml,
)
from harmonic_inference.models import joint_model
from harmonic_inference.utils import data_utils as du
from checks import c04, p03
from checks.b04 import draw_label, expected_chord
from pbt import gen, musicxml
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Random folders of MusicXML files (some with labels csv) or aggregated corpora (some pieces annotated), loaded "
    "as a whole, by ids, one by id or one by path, with and without pickled pieces; random settings files; random "
    "checkpoint folders. Non-trivial: several pieces, settings or checkpoints to tell apart."
)
ASSUMPTIONS = ["Single pieces are read correctly (P01, P03).",
               "File names without characters that are special to glob."]


@contextlib.contextmanager
def scratch():
    """A folder; music21 caches what it parses in there, too."""
    with gen.scratch() as folder:
        old = tempfile.tempdir
        tempfile.tempdir = str(folder)
        try:
            yield folder / "data"
        finally:
            tempfile.tempdir = old


def content(piece):
    """What a piece consists of, comparable."""
    notes = [tuple(sorted((key, str(value)) for key, value in note.to_dict().items()))
             for note in piece.get_inputs()]
    if piece.get_chords() is None:
        return [notes]
    return [notes, [tuple(sorted((key, str(value)) for key, value in chord.to_dict().items()))
                    for chord in piece.get_chords()],
            [tuple(sorted((key, str(value)) for key, value in key.to_dict().items()))
             for key in piece.get_keys()],
            [int(x) for x in piece.get_chord_change_indices()],
            [int(x) for x in piece.get_key_change_indices()],
            [tuple(int(x) for x in pair) for pair in piece.get_chord_ranges()]]


def write_mxl(path, text):
    path.parent.mkdir(parents=True, exist_ok=True)
    with zipfile.ZipFile(path, "w") as archive:
        archive.writestr("META-INF/container.xml",
                         '<?xml version="1.0" encoding="UTF-8"?><container><rootfiles>'
                         '<rootfile full-path="score.xml"/></rootfiles></container>')
        archive.writestr("score.xml", text)


def draw_labels(case, measures):
    times = sorted({Fraction(0)} | {gen.draw_time(case, measures) for _ in range(case.int(0, 2))})
    lines = []
    for start, end in zip(times, times[1:] + [measures.end]):
        for _ in range(40):
            row, local, relative, root = draw_label(case)
            if 10 <= local[0] <= 20 and 10 <= relative[0] <= 20 and expected_chord(
                    row, local, relative, root, None, True, True, th.TPC) is not None:
                break
        else:
            case.discard()
        lines.append(f"{p03.number(case, start)},{p03.number(case, end)},{row['key']},"
                     f"{row['degree']},{row['type']},{row['inv']}")
    return "\n".join(lines) + "\n"


def verify(case, wanted, load, folder, selectable=None):
    """
    wanted: {id: (path in the folder, piece)}; selectable: those if file ids are given;
    load(**kwargs): the loaded pieces.
    """
    case.note(f"files {[(i, str(path), piece.get_chords() is not None) for i, (path, piece) in wanted.items()]}")
    selectable = wanted if selectable is None else selectable
    kwargs, order = {}, list(wanted)
    if selectable and case.bool(0.4):
        wanted, ids = selectable, list(selectable)
        order = [i for i in case.shuffled(ids) if case.bool(0.7)] or [ids[-1]]
        kwargs["file_ids"] = list(order)
    picked = order
    if case.bool(0.4):
        picked = [case.one_of(order)]
        kwargs["specific_id"] = picked[0]
    if case.bool(0.5):
        path = folder.parent / "pieces.pkl"
        kwargs["piece_dicts_path"] = case.one_of([path, str(path)])
        if case.bool(0.6) and all(wanted[i][1].get_chords() is not None for i in order):
            with open(path, "wb") as file:
                pickle.dump([wanted[i][1].to_dict() for i in order], file)
            case.event("pickled pieces")
        else:
            case.event("no pickled pieces")
    case.note(f"{kwargs}")
    with gen.quiet():
        pieces = load(**kwargs)
    check_eq([piece.name for piece in pieces], [f"{i}: {wanted[i][0]}" for i in picked],
             "names of the pieces loaded")
    for i, piece in zip(picked, pieces):
        check_eq(content(piece), content(wanted[i][1]), f"content of {wanted[i][0]}")
    with gen.quiet():
        try:
            load(**dict(kwargs, specific_id=max(wanted) + 1))
        except ValueError:
            return
    check(False, "loaded an unknown id")


def xml(case):
    files = {}
    for _ in range(case.int(1, 4)):
        base = case.one_of(["", "bach", "my corpus", "bach/book"])
        stem = case.one_of(["a", "b c", "d.e", "F"])
        score = musicxml.draw_score(case)
        if not score.notes:
            case.discard()
        files[base, stem] = (score, draw_labels(case, score.measures) if case.bool(0.6) else None)
    case.nontrivial(len(files) > 1)
    with scratch() as folder:
        paths = {}
        for (base, stem), (score, labels) in files.items():
            path = folder / base / "scores" / f"{stem}.mxl"
            write_mxl(path, score.text)
            csv = folder / base / "chords" / f"{stem}.csv"
            if labels is not None:
                csv.parent.mkdir(parents=True, exist_ok=True)
                csv.write_text(labels)
            paths[path] = csv if labels is not None else None
        if case.bool(0.2):
            path = case.one_of(sorted(paths))
            with gen.quiet():
                pieces = du.load_pieces(xml=True, input_path=case.one_of([path, str(path)]))
                alone = get_score_piece_from_music_xml(path, None)
            case.event("one file")
            check_eq([piece.name for piece in pieces], [f"0: {path.name}"], "name of the file")
            check_eq(content(pieces[0])[0], content(alone)[0], f"notes of {path}")
            return
        (folder / "not a score.txt").write_text("x")
        wanted = {}
        with gen.quiet():
            for i, path in enumerate(sorted(paths, key=str)):
                try:
                    piece = get_score_piece_from_music_xml(path, paths[path])
                except (ValueError, IndexError):
                    case.discard()
                wanted[i] = (path.relative_to(folder), piece)
        verify(case, wanted, lambda **kwargs: du.load_pieces(
            xml=True, input_path=case.one_of([folder, str(folder)]), **kwargs),
            folder, dict(enumerate(wanted[i] for i, path in enumerate(sorted(paths, key=str))
                                   if paths[path] is not None)))


def tables(case):
    pieces = {}
    notes_only = case.bool(0.5)
    for number in range(case.int(1, 4)):
        base = case.one_of(["mozart", "bach"])
        name = (base, f"n{case.int(0, 2)} x.tsv")
        if name in pieces:
            name = (base, f"m{number}.tsv")
        pieces[name] = c04.draw_piece(case, case.bool(0.6) or not notes_only)
    case.nontrivial(len(pieces) > 1)
    with scratch() as folder:
        for (base, file_name), piece in pieces.items():
            c04.write_piece(folder / "in" / base, file_name, piece)
        out = folder / "out"
        with gen.quiet():
            corpus_reading.aggregate_annotation_dfs(folder / "in", out, notes_only=notes_only)
            files, measures, chords, notes = corpus_reading.load_clean_corpus_dfs(out)
        wanted = {}
        for i in files.index:
            path = f"{files.loc[i, 'corpus_name']}/{files.loc[i, 'file_name']}"
            annotated = chords is not None and i in set(chords.index.get_level_values(0))
            case.event("annotated" if annotated else "not annotated")
            try:
                with gen.quiet():
                    piece = get_score_piece_from_data_frames(
                        notes.loc[i], chords.loc[i] if annotated else None, measures.loc[i])
            except (ValueError, IndexError, KeyError):
                case.discard()
            if annotated and not len(piece.get_chords()):
                case.discard()
            wanted[int(i)] = (path, piece)
        verify(case, wanted, lambda **kwargs: du.load_pieces(
            input_path=case.one_of([out, str(out)]), **kwargs), folder)


def settings(case):
    raw, expected = {}, {}
    for number in range(case.int(0, 6)):
        kind = case.int(0, 6)
        name = f"{case.one_of(['input', 'gru', 'x'])}_{number}"
        if kind == 0:
            value = case.one_of(th.PITCH_TYPES)
            raw[name], expected[name] = str(value), value
        elif kind == 1:
            value = case.one_of(list(PieceType))
            raw[name], expected[name] = str(value), value
        elif kind == 2:
            name += "_reduction"
            value = {chord_type: case.one_of(th.TYPES) for chord_type in case.subset(th.TYPES)}
            raw[name] = {str(key): str(kind) for key, kind in value.items()}
            expected[name] = value
        else:
            value = case.one_of([
                1, 0.5, True, None, "text", [1, 2], {"a": 1}, "type", [], "the PitchType.TPC one", 0,
                "", False, {"a": "PitchType.TPC"}, ["PitchType.MIDI"], {}, "MIDI", -1e-9, 12345678901])
            raw[name], expected[name] = value, value
        case.event(f"kind {min(kind, 3)}")
    case.note(raw)
    case.nontrivial(len(raw) > 1)
    with gen.scratch() as folder:
        path = folder / "settings.json"
        path.write_text(json.dumps(raw))
        check_eq(du.load_kwargs_from_json(case.one_of([path, str(path)])), expected, "settings")
    check_eq(du.load_kwargs_from_json(None), {}, "no settings")


class Loaded:
    """Stands for a network class: loads the checkpoints that were saved by it."""

    @classmethod
    def load_from_checkpoint(cls, path):
        with open(path) as file:
            text = file.read()
        if text.split(" ")[0] != cls.__name__:
            raise KeyError("wrong class")
        model = cls()
        model.text, model.frozen = text, False
        return model

    def freeze(self):
        self.frozen = True


def models(case):
    classes, names = {}, ["ccm", "ctm", "csm", "ktm", "ksm"]
    for name in names:
        classes[name] = [type(f"{name}{i}", (Loaded,), {}) for i in range(case.int(1, 2))]
    classes["icm"] = joint_model.MODEL_CLASSES["icm"]
    arguments = {}
    with gen.scratch() as folder:
        root = folder / case.one_of(["checkpoints-best", "my models", "a_b"])
        wanted = {}
        for name in names:
            options = {}
            for version in case.subset([0, 1, 2, 10, 12], 0.5) or [0]:
                text = f"{case.one_of(classes[name]).__name__} version {version}"
                path = root / name / "lightning_logs" / f"version_{version}" / "checkpoints"
                path.mkdir(parents=True)
                (path / f"epoch={case.int(0, 99)}.ckpt").write_text(text)
                (path / "other.txt").write_text("x")
                options[version] = text
            arguments[name] = ("`--checkpoint`/" + name
                               + "/lightning_logs/version_*/checkpoints/*.ckpt")
            arguments[f"{name}_version"] = None
            wanted[name] = set(options.values())
            kind = case.int(0, 2)
            if kind == 1:
                version = case.one_of(sorted(options))
                arguments[f"{name}_version"] = version
                wanted[name] = {options[version]}
            if kind == 2 or (kind == 1 and case.bool(0.3)):
                path = folder / f"{name}.ckpt"
                text = f"{case.one_of(classes[name]).__name__} by path"
                path.write_text(text)
                arguments[name] = str(path)
                if kind == 2:
                    wanted[name] = {text}
            case.event(["default", "version", "path"][kind])
        case.nontrivial(any(len(values) == 1 for values in wanted.values()))
        size = len(th.chord_space(th.TPC, True, True, False, None))
        icm = {"pitch_type": "PitchType.TPC", "inversions_present": True, "reduction_present": None}
        for mode in ("major", "minor"):
            weights = [1 + (number * case.int(1, 30)) % 7 for number in range(size)]
            icm[mode] = [weight / sum(weights) for weight in weights]
        path = root / "icm" / "initial_chord_prior.json"
        arguments["icm_json"] = "`--checkpoint`/icm/initial_chord_prior.json"
        if case.bool(0.3):
            path = folder / "prior.json"
            arguments["icm_json"] = str(path)
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(json.dumps(icm))
        case.note({key: str(value) for key, value in arguments.items()})
        with mock.patch.dict(joint_model.MODEL_CLASSES, classes, clear=True), gen.quiet():
            loaded = du.load_models_from_argparse(Namespace(checkpoint=str(root), **arguments))
        check_eq(set(loaded), set(names) | {"icm"}, "models loaded")
        for name in names:
            check(loaded[name].text in wanted[name],
                  f"{name}: loaded {loaded[name].text}, expected {wanted[name]}")
            check_eq(type(loaded[name]).__name__, loaded[name].text.split(" ")[0], f"class of {name}")
            check(loaded[name].frozen, f"{name} is not frozen")
        check_eq(loaded["icm"].PITCH_TYPE, th.TPC, "pitch type of the prior")
        for mode in ("major", "minor"):
            check(np.allclose(loaded["icm"].get_prior(mode == "minor", log=False), icm[mode]),
                  f"{mode} prior")
        # A missing checkpoint is an error
        name = case.one_of(names)
        arguments[f"{name}_version"] = 7
        with mock.patch.dict(joint_model.MODEL_CLASSES, classes, clear=True), gen.quiet():
            try:
                du.load_models_from_argparse(Namespace(checkpoint=str(root), **arguments))
            except SystemExit as stop:
                check(stop.code not in (None, 0), "missing checkpoint: success")
            else:
                check(False, "a missing checkpoint was loaded")


def tests():
    return [Test("xml", xml, 100), Test("tables", tables, 120), Test("settings", settings, 300),
            Test("models", models, 200)]
