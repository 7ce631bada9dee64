"""P02: the note inputs of every chord (with window) describe exactly the notes around it."""
import numpy as np
import pandas as pd
from harmonic_inference.data.piece import get_score_piece_from_data_frames
from checks.b01 import one_hot
from checks.p01 import draw
from pbt import gen, pieces
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Random pieces as in P01, windows of 0-4 notes, for the annotated chords and for arbitrary "
    "ranges of notes. Non-trivial: at least 2 chords/ranges and 3 notes."
)
ASSUMPTIONS = ["Values are compared with a tolerance of half precision (np.float16)."]


def note_reference(measures, notes, index, low, high, start, end, total_end):
    note_start, note_end, tpc, midi = notes[index]
    length = end - start
    previous = 0 if index == 0 else note_start - notes[index - 1][0]
    following = (notes[index + 1][0] if index + 1 < len(notes) else total_end) - note_start
    return (
        one_hot(tpc + 15, 35) + one_hot(midi // 12, 10)
        + one_hot(measures.level(measures.position(note_start)), 4)
        + one_hot(measures.level(measures.position(note_end)), 4)
        + [(note_start - start) / length, (note_end - start) / length,
           (note_end - note_start) / length]
        + [previous, following, int(midi == low)]
        + one_hot(midi // 12 - low // 12, 10)
        + [midi / 127, (midi - low) / (high - low) if high > low else 0]
    )


def compare(tensor, measures, notes, first, last, window, start, end, total_end, what):
    check_eq(tuple(tensor.shape), (last - first + 2 * window, 35 + 10 + 4 + 4 + 3 + 3 + 10 + 2),
             f"shape of the inputs of {what}")
    inside = [i for i in range(first - window, last + window) if 0 <= i < len(notes)]
    low, high = min(notes[i][3] for i in inside), max(notes[i][3] for i in inside)
    for row, index in enumerate(range(first - window, last + window)):
        values = np.array(tensor[row], dtype=float)
        if not 0 <= index < len(notes):
            check(not values.any(), f"row {row} of {what} lies outside of the piece, but is not 0")
            continue
        expected = np.array([float(x) for x in note_reference(
            measures, notes, index, low, high, start, end, total_end)])
        bad = np.where(~np.isclose(values, expected, rtol=2e-3, atol=2e-4))[0]
        check(len(bad) == 0, f"row {row} (note {index}) of {what}: entries {list(bad)} are "
              f"{list(values[bad])}, expected {list(expected[bad])}")


def inputs(case):
    measures, df, note_rows, chord_rows = draw(case)
    notes = [row for row in note_rows if th.in_range(row[2] + 15, th.TPC)]
    ref = pieces.interpret(chord_rows, None, True, True)
    labelled = case.bool(0.85)
    if not notes or not ref:
        case.discard()
    merged = pieces.merge(ref, True, False)
    if any(not a.end == b.start for a, b in zip(merged, merged[1:])):
        # A chord that cannot be represented leaves a gap
        case.event("gap between chords")
    note_df = pieces.notes_frame(measures, note_rows)
    chord_df = pd.DataFrame([row for _, _, row, _, _ in chord_rows]) if labelled else None
    window = case.int(0, 4)
    case.note(f"notes {[(str(a), str(b), t, m) for a, b, t, m in notes]} window {window}")
    case.note(f"chords {[(str(c.start), str(c.end)) for c in merged]} labelled {labelled} "
              f"measures {[tuple(map(str, row.values())) for row in measures.rows]}")
    piece = get_score_piece_from_data_frames(note_df, chord_df, df)
    times, ends = [row[0] for row in notes], [row[1] for row in notes]
    total_end = pieces.end_of(merged if labelled else None, times, ends)
    with gen.quiet():
        cache = piece.get_duration_cache()
    check_eq(list(cache), [b - a for a, b in zip(times, times[1:] + [total_end])],
             "durations between the notes")
    changes, ranges = pieces.alignment([chord.start for chord in merged], times, ends)
    if labelled:
        empty = [a == b for a, b in ranges]
        if window == 0 and any(empty):
            case.discard()
        if any(b + window <= a - window or (a >= len(notes) and window == 0) for a, b in ranges):
            case.discard()
        if any(chord.duration != chord.end - chord.start for chord in merged):
            # Equal chords around a gap are one chord of debatable length
            case.discard()
        with gen.quiet():
            tensors = piece.get_chord_note_inputs(window=window)
        check_eq(len(tensors), len(merged), "one input per chord")
        case.nontrivial(len(merged) > 1 and len(notes) > 2)
        for i, (tensor, chord, (first, last)) in enumerate(zip(tensors, merged, ranges)):
            compare(tensor, measures, notes, first, last, window, chord.start, chord.end,
                    total_end, f"chord {i}")

    # Arbitrary ranges, as proposed by a model
    given, given_changes = [], []
    for _ in range(case.size(1, 4)):
        change = case.int(0, len(notes) - 1)
        last = case.int(change + 1, len(notes))
        start = times[change]
        end = times[last] if last < len(notes) else total_end
        if end <= start:
            continue
        given.append((case.int(max(change - 2, 0), change), last))
        given_changes.append(change)
    if not given:
        return
    case.nontrivial(len(given) > 1 and len(notes) > 2)
    case.note(f"ranges {given} changes {given_changes}")
    with gen.quiet():
        tensors = piece.get_chord_note_inputs(window=window, ranges=given,
                                              change_indices=given_changes)
    check_eq(len(tensors), len(given), "one input per range")
    for i, (tensor, change, (first, last)) in enumerate(zip(tensors, given_changes, given)):
        end = times[last] if last < len(notes) else total_end
        compare(tensor, measures, notes, first, last, window, times[change], end, total_end,
                f"range {i}")


SCALE = 3


def tests():
    return [Test("chord_note_inputs", inputs, 1000)]
