"""B04: labels csv rows (functional harmony annotations) become the chord and key they describe."""
from collections import defaultdict
from fractions import Fraction

import pandas as pd
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.data_types import ChordType
from harmonic_inference.data.key import Key
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq
from checks.b01 import draw_key

SCALE = 8
RULE = (
    "Random label rows (key name, degree with applied root, type, inversion, on/off time) over "
    "random measures incl. incomplete ones. Non-trivial: accidental, applied root, minor key, "
    "reduction, or inversion other than 0."
)
ASSUMPTIONS = [
    "Conventions of the labels csv format: - and + are flats and sharps; degree 7 of a minor key is "
    "the leading tone (-7 the subtonic), ++6 of a minor key is +6, an applied root +6 of a minor key "
    "is 6; augmented sixth chords are major triads in root position; the mode of an applied key is "
    "its conventional one in the (major or minor) local key.",
]

CSV_TYPES = {
    "D7": ChordType.MAJ_MIN7, "M": ChordType.MAJOR, "M7": ChordType.MAJ_MAJ7,
    "d": ChordType.DIMINISHED, "a": ChordType.AUGMENTED, "d7": ChordType.DIM7,
    "m": ChordType.MINOR, "m7": ChordType.MIN_MIN7, "Gr+6": ChordType.MAJOR,
    "Fr+6": ChordType.MAJOR, "It+6": ChordType.MAJOR, "h7": ChordType.HALF_DIM7,
}
M, m = th.MAJOR, th.MINOR
# applied root -> (degree, accidentals, mode of the applied key)
APPLIED = {
    th.MAJOR: {
        "1": (1, 0, M), "+1": (1, 1, m), "-2": (2, -1, M), "2": (2, 0, m), "-3": (3, -1, M),
        "3": (3, 0, m), "-4": (4, -1, m), "4": (4, 0, M), "+4": (4, 1, M), "5": (5, 0, M),
        "+5": (5, 1, M), "6": (6, 0, m), "-7": (7, -1, M), "7": (7, 0, m),
    },
    th.MINOR: {
        "-1": (1, -1, M), "1": (1, 0, m), "-2": (2, -1, M), "2": (2, 0, m), "3": (3, 0, M),
        "-4": (4, -1, m), "4": (4, 0, m), "-5": (5, -1, m), "5": (5, 0, m), "6": (6, 0, M),
        "+6": (6, 0, M), "-7": (7, 0, M), "7": (7, 1, M), "--7": (7, -1, m),
    },
}


def draw_label(case):
    """Row columns key, degree, type, inv, and (local key, relative key, root) as TPC."""
    local_tonic = case.int(6, 24)
    local_mode = case.one_of(th.MODES)
    name = th.spell(local_tonic)
    name = name if local_mode == th.MAJOR else name[0].lower() + name[1:]
    name = name[0] + name[1:].replace("b", "-").replace("#", "+")
    relative = (local_tonic, local_mode)
    applied = None
    if case.bool(0.35):
        applied = case.one_of(list(APPLIED[local_mode]))
        number, accidentals, mode = APPLIED[local_mode][applied]
        relative = (
            local_tonic + th.degree_interval(number, accidentals, local_mode, th.TPC), mode
        )
    number = case.int(1, 7)
    accidentals = case.weighted([(6, 0), (2, -1), (2, 1), (1, -2), (1, 2)])
    written = accidentals
    if relative[1] == th.MINOR:
        if number == 7:
            accidentals += 1
        elif number == 6 and written == 2:
            accidentals = 1
    degree = ("+" * written if written > 0 else "-" * -written) + str(number)
    root = relative[0] + th.degree_interval(number, accidentals, relative[1], th.TPC)
    row = {
        "key": name,
        "degree": degree if applied is None else f"{degree}/{applied}",
        "type": case.one_of(list(CSV_TYPES)),
        "inv": case.int(0, 3),
    }
    return row, (local_tonic, local_mode), relative, root


def expected_chord(row, local, relative, root, reduction, use_inversion, use_relative, pitch_type):
    """Fields of the chord, or None if it is not representable as TPC."""
    chord_type = CSV_TYPES[row["type"]]
    chord_type = chord_type if reduction is None else reduction[chord_type]
    inversion = row["inv"] if use_inversion and "6" not in row["type"] else 0
    inversion %= th.inversions(chord_type)
    bass = root + th.chord_fifths(chord_type)[inversion]
    valid = all(th.in_range(pitch, th.TPC) for pitch in (relative[0], root, bass))
    if pitch_type == th.TPC and not valid:
        return None
    convert = (lambda x: x) if pitch_type == th.TPC else th.tpc_to_midi
    key = relative if use_relative else local
    return dict(
        root=convert(root), bass=convert(bass), key_tonic=convert(key[0]), key_mode=key[1],
        chord_type=chord_type, inversion=inversion, pitch_type=pitch_type,
    )


def labels(case):
    measures = gen.draw_measures(case, 1, 4)
    df = measures.df(last=pd.NA)
    pitch_type = case.one_of(th.PITCH_TYPES)
    cache = defaultdict(dict) if case.bool(0.7) else None
    kind, reduction = th.draw_reduction(case)
    use_inversion, use_relative = case.bool(0.75), case.bool(0.75)
    kwargs = dict(use_inversion=use_inversion, use_relative=use_relative, levels_cache=cache)
    if reduction is not None:
        kwargs["reduction"] = reduction
    global_key = None
    if case.bool(0.4):
        global_key = draw_key(case, pitch_type)
        case.note(f"global key {global_key!r}")
    for _ in range(case.size(1, 4)):
        row, local, relative, root = draw_label(case)
        start = gen.draw_time(case, measures)
        end = gen.draw_time(case, measures, include_end=True)
        start, end = min(start, end), max(start, end)
        row.update(on=start, off=end)
        case.note(f"{row} {pitch_type} reduction {kind} inversions={use_inversion}")
        case.nontrivial(row["inv"] or len(row["degree"]) > 1 or kind != "none")
        expected = expected_chord(row, local, relative, root, reduction, use_inversion,
                                  use_relative, pitch_type)
        if expected is None:
            case.event("not representable")
            raised = False
            try:
                with gen.quiet():
                    chord = Chord.from_labels_csv_row(pd.Series(row), df, pitch_type, **kwargs)
            except ValueError:
                raised = True
            check(raised, "a chord outside of the pitch range was read")
            continue
        with gen.quiet():
            chord = Chord.from_labels_csv_row(pd.Series(row), df, pitch_type, **kwargs)
        onset, offset = measures.position(start), measures.position(end)
        expected.update(
            onset=onset, onset_level=measures.level(onset), offset=offset,
            offset_level=measures.level(offset), duration=end - start, suspension=None,
        )
        for field, value in expected.items():
            check_eq(getattr(chord, field), value, f"{field} of the chord")
        key = Key.from_labels_csv_row(pd.Series(row), pitch_type, global_key=global_key)
        convert = (lambda x: x) if pitch_type == th.TPC else th.tpc_to_midi
        glob = (convert(local[0]), local[1]) if global_key is None else (
            global_key.global_tonic, global_key.global_mode)
        check_eq(
            (key.relative_tonic, key.relative_mode, key.local_tonic, key.local_mode,
             key.global_tonic, key.global_mode, key.tonic_type),
            (convert(relative[0]), relative[1], convert(local[0]), local[1]) + glob
            + (pitch_type,),
            "key of the label",
        )
        if global_key is None:
            global_key = key
        check_eq(
            (key.global_tonic, key.global_mode),
            (global_key.global_tonic, global_key.global_mode), "the global key",
        )


# Applied roots which stand for no key
UNKNOWN = {
    th.MAJOR: ["+2", "-5", "+3", "-6", "+6", "+7", "++1", "--7", "-1", "++4"],
    th.MINOR: ["+1", "+2", "-3", "+3", "+4", "+5", "-6", "++6", "+7", "---7", "--2"],
}


def unknown_applied(case):
    """An applied root which is no known key is rejected."""
    pitch_type = case.one_of(th.PITCH_TYPES)
    row, local, _, _ = draw_label(case)
    row["degree"] = row["degree"].split("/")[0] + "/" + case.one_of(UNKNOWN[local[1]])
    case.note(f"{row['key']} {row['degree']} {pitch_type}")
    case.nontrivial()
    global_key = draw_key(case, pitch_type) if case.bool() else None
    rejected = False
    try:
        with gen.quiet():
            Key.from_labels_csv_row(pd.Series(row), pitch_type, global_key=global_key)
    except ValueError:
        rejected = True
    check(rejected, "a key was made up for an applied root")


def tests():
    return [Test("label_rows", labels, 700), Test("unknown_applied_roots", unknown_applied, 300)]
