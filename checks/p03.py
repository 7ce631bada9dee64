"""P03: a MusicXML score with its labels csv becomes the piece that it describes."""
import shutil
import tempfile
from bisect import bisect_right
from fractions import Fraction
from pathlib import Path

from harmonic_inference.data.piece import get_score_piece_from_music_xml
from checks.b04 import draw_label, expected_chord
from pbt import gen, musicxml, pieces
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Random MusicXML scores of 2-6 measures, 1-2 parts with 1-2 voices, chords, rests, triplets, ties "
    "over beats and barlines, pick-ups, changing meters, first and second endings, split measures, a "
    "shortened last measure; with labels as csv. Non-trivial: at least two labels and one note."
)
ASSUMPTIONS = [
    "music21 (not under test) parses the MusicXML; ties tie whole chords of parts with a single voice (music21 cannot strip others), and do not cross an ending.",
    "Measures are complete, except for a pick-up, the last one, and those in a first ending.",
]


def number(case, value):
    value *= 4
    if value.denominator in (1, 2, 4, 8, 16) and case.bool():
        return repr(float(value))
    return str(value)


def read(case):
    score = musicxml.draw_score(case)
    measures = score.measures
    labelled = case.bool(0.85)
    times = sorted({Fraction(0)} | {gen.draw_time(case, measures)
                                    for _ in range(case.size(0, 5))})
    labels = []
    previous = None
    for start, end in zip(times, times[1:] + [measures.end]):
        for _ in range(40):
            row, local, relative, root = draw_label(case)
            expected = expected_chord(row, local, relative, root, None, True, True, th.TPC)
            near = previous is None or abs(relative[0] - previous[0]) <= 14
            if expected is not None and near and 8 <= local[0] <= 22:
                break
        else:
            case.discard()
        previous = relative
        labels.append((start, end, row, expected, local, relative))
    lines = []
    for start, end, row, _, _, _ in labels:
        degree = row["degree"]
        if degree in "12345" and case.bool(0.3):
            degree += "+"  # So do some labels of augmented chords
        lines.append(f"{number(case, start)},{number(case, end)},{row['key']},{degree},"
                     f"{row['type']},{row['inv']}")
        if case.bool(0.1):
            lines.append(f"{number(case, end)},{number(case, end)},C,1,M,0")
            case.event("label of duration 0")
    if case.bool(0.1):
        lines.insert(0, "-2.0,0,C,1,M,0")
        case.event("label before the beginning")
    case.note(f"layout {[tuple(map(str, row.values())) for row in score.layout]}")
    case.note(f"notes {[(str(a), str(b), t, m) for a, b, t, m in score.notes]}")
    case.note(f"labels {lines if labelled else None}")
    if not score.notes:
        case.discard()
    if any(row["ending"] for row in score.layout):
        case.event("endings")
    if score.layout[0].get("pickup"):
        case.event("pick-up")
    scratch = Path(tempfile.mkdtemp(prefix="verif-p03-"))
    old_temp = tempfile.tempdir
    tempfile.tempdir = str(scratch)  # music21 caches what it parses in there
    try:
        xml, csv = scratch / "score.musicxml", scratch / "score.csv"
        xml.write_text(score.text, encoding="utf-8")
        csv.write_text("\n".join(lines) + "\n", encoding="utf-8")
        kind = case.one_of([str, Path])
        with gen.quiet():
            piece = get_score_piece_from_music_xml(kind(xml), kind(csv) if labelled else None,
                                                   name="n")
    finally:
        tempfile.tempdir = old_temp
        shutil.rmtree(scratch, ignore_errors=True)
    check_eq(piece.name, "n", "name")
    df = piece.measures_df
    check_eq(
        [(int(row["mc"]), row["timesig"], row["start"], row["act_dur"], row["mc_offset"])
         for _, row in df.iterrows()],
        [(row["mc"], row["timesig"], row["start"], row["act_dur"], row["mc_offset"])
         for row in measures.rows], "measures")
    got = [((int(note.onset[0]), note.onset[1]), (int(note.offset[0]), note.offset[1]),
            note.duration, note.pitch_class, note.get_midi_note_number(), note.onset_level,
            note.offset_level, note.mc_onset) for note in piece.get_inputs()]
    check_eq([row[0] for row in got], sorted(row[0] for row in got), "notes in order of onset")
    want = []
    for start, end, tpc, midi in score.notes:
        onset, offset = measures.position(start), measures.position(end)
        want.append((onset, offset, end - start, tpc + 15, midi, measures.level(onset),
                     measures.level(offset), onset[1] - measures.by_mc[onset[0]]["mc_offset"]))
    check_eq(sorted(got), sorted(want), "notes")
    case.nontrivial(len(labels) > 1)
    if not labelled:
        for name in ["get_chords", "get_chord_change_indices", "get_keys"]:
            check(getattr(piece, name)() is None, f"{name} of a piece without labels")
        return
    chords = list(piece.get_chords())
    check_eq(len(chords), len(labels), "number of chords")
    for chord, (start, end, row, expected, _, _) in zip(chords, labels):
        for field, value in expected.items():
            check_eq(getattr(chord, field), value, f"{field} of the chord {row}")
        check_eq(((int(chord.onset[0]), chord.onset[1]), (int(chord.offset[0]), chord.offset[1]),
                  chord.duration), (measures.position(start), measures.position(end), end - start),
                 f"position of the chord {row}")
    changes, ranges = pieces.alignment([label[0] for label in labels],
                                       [note[0] for note in score.notes],
                                       [note[1] for note in score.notes])
    check_eq([int(x) for x in piece.get_chord_change_indices()], changes, "chord changes")
    # The order of simultaneous notes is not defined
    order = [measures.time(row[0]) for row in got]
    ends = [order[i] + row[2] for i, row in enumerate(got)]
    _, ranges = pieces.alignment([label[0] for label in labels], order, ends)
    check_eq([tuple(int(x) for x in pair) for pair in piece.get_chord_ranges()], ranges, "ranges")
    keys, key_changes = list(piece.get_keys()), [int(x) for x in piece.get_key_change_indices()]
    check_eq(key_changes[0], 0, "first key change")
    check_eq(len(keys), len(key_changes), "number of keys")
    for i, (_, _, row, _, local, relative) in enumerate(labels):
        key = keys[bisect_right(key_changes, i) - 1]
        check_eq((key.relative_tonic, key.relative_mode), relative, f"key of chord {row}")
        if i in key_changes:
            check_eq((key.local_tonic, key.local_mode), local, f"local key of chord {row}")
        check_eq((key.global_tonic, key.global_mode), labels[0][4], "global key")
    for first, second in zip(keys, keys[1:]):
        check((first.relative_tonic, first.relative_mode)
              != (second.relative_tonic, second.relative_mode), "a key changes to itself")


def tests():
    return [Test("music_xml", read, 300)]
