"""E02: label tables say what the analysis says, at the places where it changes."""
import re

from pbt import corpus, estimates, gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq
import harmonic_inference.utils.eval_utils as eu

RULE = (
    "Random (annotated or unannotated) pieces of 2-10 notes with random estimated states close to the annotation. "
    "Non-trivial: the estimate has more than one chord."
)
ASSUMPTIONS = ["The tones of altered chords are in the range of tonal pitch classes.", "The first chord starts no later than the first note.",
               "Chord labels over all types, roots and inversions."]

SYMBOLS = dict(zip(th.TYPES, ["M", "m", "o", "+", "MM7", "Mm7", "mM7", "mm7", "o7", "%7", "+7",
                              "+M7"]))
TRIADS = dict(zip(th.TYPES, "M m o + M M m m o o + +".split()))


def name(pitch, pitch_type):
    return th.spell(pitch) if pitch_type == th.TPC else th.MIDI_NAMES[th.tpc_to_midi(pitch)]


def chord_label(root, chord_type, inversion, pitch_type=th.TPC):
    return f"{name(root, pitch_type)}:{SYMBOLS[chord_type]}, inv:{inversion}"


def key_label(tonic, mode, pitch_type=th.TPC):
    tonic = name(tonic, pitch_type)
    return f"{tonic if mode == th.MAJOR else tonic.lower()}:{mode}"


def place(item, i):
    position = item.measures.position(item.rows[i][0])
    return position[0], corpus.mc_onset(item.measures, position), position[1]


def rows_of(frame, columns):
    if len(frame) == 0:
        return []
    check(set(columns) <= set(frame.columns), f"columns {list(frame.columns)}")
    return list(zip(*[list(frame[column]) for column in columns]))


def expected_annotation(item):
    expected, chord, key = [], None, None
    for i, duration in zip(item.starts, item.durations):
        if duration == 0:
            continue
        if item.key[i] != key:
            expected.append((key_label(*estimates.KEYS[item.key[i]]), *place(item, i)))
        if item.chord[i] != chord:
            expected.append((chord_label(*estimates.CHORDS[item.chord[i]]), *place(item, i)))
        chord, key = item.chord[i], item.key[i]
    return expected


def annotation(case):
    item = estimates.Estimated(case, annotated=case.bool())
    item.describe(case)
    case.nontrivial(len(item.steps) > 1)
    case.event("annotated" if item.annotated else "not annotated")
    frame = eu.get_annotation_df(item.state, item.piece, th.TPC, th.TPC)
    check_eq(rows_of(frame, ["label", "mc", "mc_onset", "mn_onset"]), expected_annotation(item),
             "annotation table")


def true_labels(item, i):
    chord, key = item.true_chord[i], item.true_key[i]
    return ((chord.root, chord.chord_type, chord.inversion),
            (key.relative_tonic, key.relative_mode))


def expected_labels(item):
    expected, previous = [], (None,) * 4
    for i, duration in zip(item.starts, item.durations):
        if duration == 0:
            continue
        chord, key = estimates.CHORDS[item.chord[i]], estimates.KEYS[item.key[i]]
        true_chord, true_key = true_labels(item, i)
        if (key, true_key) != previous[:2]:
            color = "red"
            if key[0] == true_key[0]:
                color = "green" if key[1] == true_key[1] else "yellow"
            label = key_label(*key) if key != previous[0] else "--"
            expected.append((label, *place(item, i), color))
        if (chord, true_chord) != previous[2:]:
            color = "red"
            if chord[0] == true_chord[0] and TRIADS[chord[1]] == TRIADS[true_chord[1]]:
                color = "green" if chord == true_chord else "yellow"
            label = chord_label(*chord) if chord != previous[2] else "--"
            expected.append((label, *place(item, i), color))
        previous = (key, true_key, chord, true_chord)
    return expected


def colors(case):
    item = estimates.Estimated(case)
    item.describe(case)
    case.nontrivial(len(item.steps) > 1)
    frame = eu.get_label_df(item.state, item.piece, th.TPC, th.TPC)
    expected = expected_labels(item)
    places = [row[1:4] for row in expected]
    for row in expected:
        if row[0] == "--" and places.count(row[1:4]) == 1:
            case.event("only the annotation changes, " + row[-1])
        case.event(row[-1] + (" unchanged" if row[0] == "--" else ""))
    check_eq(rows_of(frame, ["label", "mc", "mc_onset", "mn_onset", "color_name"]), expected,
             "coloured labels")


def expected_results(item, root_type, tonic_type):
    expected = []
    for i, duration in zip(item.starts, item.durations):
        if duration:
            chord, key = true_labels(item, i)
            expected.append((
                key_label(*key, tonic_type), chord_label(*chord, root_type),
                key_label(*estimates.KEYS[item.key[i]], tonic_type),
                chord_label(*estimates.CHORDS[item.chord[i]], root_type), duration))
    return expected


def results(case):
    item = estimates.Estimated(case)
    item.describe(case)
    case.nontrivial(len(item.steps) > 1)
    root_type, tonic_type = case.one_of(th.PITCH_TYPES), case.one_of(th.PITCH_TYPES)
    case.event(f"{root_type.name} {tonic_type.name}")
    # Models with MIDI outputs have no spelling to show
    root_out, tonic_out = th.TPC, th.TPC
    if root_type == th.MIDI and case.bool(0.3):
        root_out = th.MIDI
    if tonic_type == th.MIDI and case.bool(0.3):
        tonic_out = th.MIDI
    case.note(f"model outputs {root_out} {tonic_out}, table {root_type} {tonic_type}")
    state = item.state_of(root_out, tonic_out)
    frame = eu.get_results_df(item.piece, state, root_out, tonic_out, root_type, tonic_type)
    check_eq(rows_of(frame, ["gt_key", "gt_chord", "est_key", "est_chord", "duration"]),
             expected_results(item, root_type, tonic_type), "results table")


def parse_changes(string):
    return [(prefix, accidentals.count("#") - accidentals.count("b"), int(number))
            for prefix, accidentals, number in re.findall(r"([+^v]?)([#b]*)(1[0-4]|\d)", string)]


def suspension(case, chord, tpc_c):
    """All acceptable (tpc, midi) strings of a chord's alterations, as sets of pairs."""
    from checks.a04 import reference_changes
    pairs = reference_changes(chord.root, chord.chord_type, parse_changes(chord.suspension),
                              chord.key_tonic, chord.key_mode)
    both = []
    for removed, added in pairs:
        plus, added = ("+", int(added[1:])) if added[0] == "+" else ("", int(added))
        both.append((
            "" if removed == "" else str(int(removed) - th.C_TPC + tpc_c),
            plus + str(added - th.C_TPC + tpc_c),
            "" if removed == "" else str(th.tpc_to_midi(int(removed))),
            plus + str(th.tpc_to_midi(added))))
    return both


def labels(case):
    """The table of the annotations themselves."""
    item = estimates.Estimated(case, alterations=True)
    item.describe(case)
    tpc_c = case.one_of([th.C_TPC, 0, 14, 3])
    kwargs = {} if tpc_c == th.C_TPC and case.bool() else {"tpc_c": tpc_c}
    changes = [str(chord.suspension) for chord in item.piece.get_chords()]
    case.note(f"tpc_c {tpc_c}, alterations {changes}")
    wanted = [i for i, duration in zip(item.starts, item.durations) if duration]
    for chord in item.piece.get_chords():
        tones = th.chord_pitches(chord.chord_type, chord.root, th.TPC)
        if chord.suspension is not None and not all(th.in_range(tone, th.TPC) for tone in tones):
            case.discard()
    frame = eu.get_labels_df(item.piece, **kwargs)
    expected = []
    for i, duration in zip(item.starts, item.durations):
        if duration:
            (root, chord_type, inversion), (tonic, mode) = true_labels(item, i)
            expected.append((
                root - th.C_TPC + tpc_c, th.tpc_to_midi(root), chord_type, inversion,
                tonic - th.C_TPC + tpc_c, th.tpc_to_midi(tonic), mode, duration,
                place(item, i)[0], place(item, i)[2]))
    check_eq(rows_of(frame, ["chord_root_tpc", "chord_root_midi", "chord_type", "chord_inversion",
                             "key_tonic_tpc", "key_tonic_midi", "key_mode", "duration", "mc",
                             "mn_onset"]), expected, "table of the annotations")
    altered = False
    for i, tpc, midi in zip(wanted, frame["chord_suspension_tpc"], frame["chord_suspension_midi"]):
        chord = item.true_chord[i]
        if chord.suspension is None:
            check_eq((tpc, midi), ("", ""), "alterations of an unaltered chord")
            continue
        altered = True
        both = suspension(case, chord, tpc_c)
        for text, columns in ((tpc, (0, 1)), (midi, (2, 3))):
            pairs = sorted((row[columns[0]], row[columns[1]]) for row in both)
            given = sorted(tuple(part.split(":")) for part in text.split(";"))
            check(given == pairs,
                  f"alterations {chord.suspension} of {chord}: {given}, expected {pairs}")
    case.nontrivial(altered)


SCALE = 4


def tests():
    return [Test("annotation", annotation, 300), Test("colors", colors, 800),
            Test("results", results, 300), Test("labels", labels, 300)]
