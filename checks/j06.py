"""J06: labels written into a MuseScore score force exactly what they say, where they are."""
import warnings
from fractions import Fraction
from unittest import mock

import pandas as pd

from pbt import shimmed  # noqa: F401
from harmonic_inference.utils import forces
from pbt import gen, mscx, pieces
from pbt import theory as th
from pbt.engine import Test, check, check_eq
from harmonic_inference.data.piece import get_score_piece_from_data_frames

RULE = (
    "Random tables of score labels and lyrics with force labels and other text, as ms3 gives them; random positions in "
    "random pieces. Non-trivial: at least two forces."
)
ASSUMPTIONS = ["ms3 (not under test) reads the score; in one test it is replaced by the tables it returns.",
               "One force per label."]


def draw_label(case):
    """(text, kind, value)"""
    kind = case.int(0, 6)
    if kind < 4:
        return ["!C", "=C", "!K", "=K"][kind], kind, None
    accidentals = case.int(-2, 2)
    letter = case.one_of("CDEFGAB")
    name = letter + ("#" * accidentals if accidentals > 0 else "b" * -accidentals)
    pitch = th.tpc_of(letter, accidentals)
    if kind == 4:
        chord_type = case.one_of(th.TYPES)
        inversion = case.int(0, th.inversions(chord_type) - 1)
        text = "" if inversion == 0 and case.bool() else f"_{inversion}"
        space = th.chord_space(th.TPC, True, False, False, None)
        return (f"C={name}{th.TYPE_STRING[chord_type]}{text}", 4,
                space.index((pitch, chord_type, inversion)))
    if kind == 5:
        mode = case.one_of(th.MODES)
        if mode == th.MINOR:
            name = name[0].lower() + name[1:]
        return f"K={name}", 5, pitch + (35 if mode == th.MINOR else 0)
    return case.one_of(["I", "V65", "Alleluia", "C", "viio7/V", "ah", "K", "C:M, inv:0"]), 6, None


def compare(result, expected):
    names = ["chord changes", "chord non-changes", "key changes", "key non-changes", "chords", "keys"]
    for name, given, wanted in zip(names, result, expected):
        given = [(int(force[0]), Fraction(force[1]), *[int(x) for x in force[2:]])
                 for force in given]
        check_eq(sorted(given), sorted(wanted), f"forced {name}")


def extract(case):
    rows = {"labels": [], "lyrics": []}
    expected = [[] for _ in range(6)]
    for table in rows:
        for _ in range(case.int(0, 6)):
            text, kind, value = draw_label(case)
            mc, onset = case.int(1, 40), Fraction(case.int(0, 15), 16)
            rows[table].append((mc, onset, text))
            if kind < 6:
                # (changes, non-changes, key changes, key non-changes, chords, keys)
                expected[kind].append((mc, onset) if value is None else (mc, onset, value))
    case.note(f"{rows}")
    case.nontrivial(sum(map(len, expected)) > 1)
    columns = ["mc", "mn_onset"]
    labels = pd.DataFrame([row for row in rows["labels"]], columns=columns + ["label"])
    lyrics = [row for row in rows["lyrics"]]
    for _ in range(case.int(0, 3)):
        lyrics.append((case.int(1, 40), Fraction(0), None))
    lyrics = pd.DataFrame(lyrics, columns=columns + ["lyrics"])
    for df, column in ((labels, "label"), (lyrics, "lyrics")):
        df["mn_onset"] = df["mn_onset"].astype(object)
        df[column] = df[column].astype(object)
    paths = []

    class Stub:
        def __init__(self, path, *args, **kwargs):
            paths.append(str(path))
            self.annotations = self.mscx = self

        def get_labels(self, *args, **kwargs):
            return labels.copy()

        def get_chords(self, *args, lyrics=False, **kwargs):
            return sung.copy() if lyrics else sung.drop("lyrics", axis=1)

    sung = lyrics
    with mock.patch.object(forces, "Score", Stub), gen.quiet():
        result = forces.extract_forces_from_musescore("x.mscx")
    check_eq(paths, ["x.mscx"], "score read")
    compare(result, expected)


def score(case):
    """The same from a MuseScore file, read by ms3."""
    music = mscx.Score(case, staves=case.int(1, 2), high=3)
    if not any(event[2] for measures in music.staves for events in measures for event in events):
        case.discard()
    labels, lyrics = [], []
    expected = [[] for _ in range(6)]
    for staff, measures in enumerate(music.staves):
        for mc, events in enumerate(measures):
            for onset, _, pitch in events:
                for table, chance in ((labels, 0.25), (lyrics, 0.25)):
                    if (table is lyrics and pitch is None) or not case.bool(chance):
                        continue
                    text, kind, value = draw_label(case)
                    table.append((staff, mc + 1, onset, text))
                    if kind < 6:
                        expected[kind].append((mc + 1, onset) if value is None
                                              else (mc + 1, onset, value))
    case.note(f"labels {labels} lyrics {lyrics}")
    case.nontrivial(sum(map(len, expected)) > 1)
    case.event(f"{'labels' if labels else 'no labels'}, {'lyrics' if lyrics else 'no lyrics'}")
    with gen.scratch() as folder, gen.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path = folder / "x.mscx"
        path.write_text(music.text(labels, lyrics))
        result = forces.extract_forces_from_musescore(case.one_of([path, str(path)]))
    compare(result, expected)


def positions(case):
    measures = gen.draw_measures(case, 1, 4)
    rows = pieces.draw_notes(case, measures, low=1, high=10, unrepresentable=False)
    with gen.quiet():
        piece = get_score_piece_from_data_frames(pieces.notes_frame(measures, rows), None,
                                                 measures.df())
    times = [row[0] for row in rows]
    wanted, given = [], []
    for _ in range(case.int(0, 5)):
        time = case.one_of(times)
        position, index = measures.position(time), times.index(time)
        if case.bool():
            label = case.int(0, 100)
            given.append((*position, label))
            wanted.append((index, label))
        else:
            given.append(position)
            wanted.append(index)
    case.note(f"notes at {[str(time) for time in times]} forces {given}")
    case.nontrivial(len(given) > 1)
    check_eq(forces.convert_score_positions_to_note_indexes(given, piece), wanted, "note indexes")
    time = gen.draw_time(case, measures)
    if time not in times:
        case.event("after the last note" if time > times[-1] else "not a note onset")
        try:
            forces.convert_score_positions_to_note_indexes(
                case.shuffled(given + [measures.position(time)]), piece)
        except ValueError:
            return
        check(False, f"a force at {time}, where no note is")


SCALE = 2


def tests():
    return [Test("extract", extract, 400), Test("score", score, 100),
            Test("positions", positions, 500)]
