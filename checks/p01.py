"""P01: a piece read from data frames has aligned notes, chords, ranges and keys."""
from bisect import bisect_right

from harmonic_inference.data.piece import (
    get_range_start, get_score_piece_from_data_frames, get_score_piece_from_dict,
)
from pbt import corpus, gen, pieces
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Random pieces of 1-12 (rarely 72) notes and 1-8 (48) annotations over 1-6 (36) measures, with "
    "repeated chords, key changes (and the same key written differently), pitches that cannot be "
    "represented, chords without new notes. Non-trivial: at least 2 chords and 3 notes."
)
ASSUMPTIONS = ["Notes are in order of their onsets; a chord lasts until the next annotation."]


def draw(case):
    factor = 6 if case.bool(0.02) else 1  # Rarely a whole movement
    score = corpus.draw_score(case, 1, 6 * factor)
    measures = score.played
    df = corpus.played_df({0: score}).loc[0]
    note_rows = pieces.draw_notes(case, measures, 1, 12 * factor)
    chord_rows = pieces.draw_chord_rows(case, measures, 1, 8 * factor)
    return measures, df, note_rows, chord_rows


def options(case):
    kind, reduction = th.draw_reduction(case)
    kwargs = dict(use_inversions=case.bool(0.7), use_relative=case.bool(0.7),
                  use_suspensions=case.bool(0.3))
    if reduction is not None:
        kwargs["chord_reduction"] = reduction
    return kind, reduction, kwargs


def from_frames(case):
    import pandas as pd

    measures, df, note_rows, chord_rows = draw(case)
    kind, reduction, kwargs = options(case)
    note_df = pieces.notes_frame(measures, note_rows)
    chord_df = pd.DataFrame([row for _, _, row, _, _ in chord_rows])
    case.note(f"notes {[(str(a), str(b), t, m) for a, b, t, m in note_rows]}")
    case.note(f"chords {[list(row.values()) for _, _, row, _, _ in chord_rows]}")
    case.note(f"measures {[tuple(row.values()) for row in measures.rows]} reduction {kind} {kwargs}"
              [:600])
    notes = [row for row in note_rows if th.in_range(row[2] + 15, th.TPC)]
    ref = pieces.interpret(chord_rows, reduction, kwargs["use_inversions"], kwargs["use_relative"])
    if not notes or not ref:
        case.discard()
    merged = pieces.merge(ref, kwargs["use_inversions"], kwargs["use_suspensions"])
    case.nontrivial(len(merged) > 1 and len(notes) > 2)
    if len(merged) < len(ref):
        case.event("repeated chords")
    if len(notes) == 1 or len(merged) == 1:
        case.event("single note or chord")
    if len(notes) < len(note_rows) or len(ref) < len(chord_rows):
        case.event("unrepresentable")

    unlabelled = case.bool(0.1)
    piece = get_score_piece_from_data_frames(
        note_df, None if unlabelled else chord_df, df, name="x", **kwargs
    )
    check_eq(piece.name, "x", "name")
    got = [(note.onset, note.offset, note.duration, note.pitch_class, note.get_midi_note_number())
           for note in piece.get_inputs()]
    check_eq(got, [(measures.position(start), measures.position(end), end - start, tpc + 15, midi)
                   for start, end, tpc, midi in notes], "notes")
    if unlabelled:
        for name in ["get_chords", "get_chord_change_indices", "get_chord_ranges", "get_keys",
                     "get_key_change_indices", "get_key_change_input_indices"]:
            check(getattr(piece, name)() is None, f"{name} of a piece without labels")
        check_eq(piece.get_chords_within_range(), [], "chords of a piece without labels")
        return
    chords = list(piece.get_chords())
    fields = ["root", "bass", "chord_type", "inversion", "key_tonic", "key_mode", "suspension",
              "duration"]
    check_eq([[getattr(chord, field) for field in fields] for chord in chords],
             [[getattr(chord, field) for field in fields] for chord in merged], "chords")
    check_eq([(chord.onset, chord.offset) for chord in chords],
             [(measures.position(chord.start), measures.position(chord.end)) for chord in merged],
             "chord positions")
    check_eq([(chord.onset_level, chord.offset_level) for chord in chords],
             [(measures.level(chord.onset), measures.level(chord.offset)) for chord in chords],
             "metrical levels of the chords")
    times, ends = [row[0] for row in notes], [row[1] for row in notes]
    changes, ranges = pieces.alignment([chord.start for chord in merged], times, ends)
    check_eq([int(x) for x in piece.get_chord_change_indices()], changes, "chord changes")
    check_eq([tuple(int(x) for x in pair) for pair in piece.get_chord_ranges()], ranges, "ranges")

    # Every chord is in the key that the piece says, and consecutive keys differ
    keys, key_changes = list(piece.get_keys()), [int(x) for x in piece.get_key_change_indices()]
    check_eq(len(keys), len(key_changes), "number of keys and key changes")
    check_eq(key_changes[0], 0, "first key change")
    check_eq(key_changes, sorted(set(key_changes)), "key changes in order")
    prefix = "relative" if kwargs["use_relative"] else "local"

    def tonic_mode(key):
        return (getattr(key, f"{prefix}_tonic"), getattr(key, f"{prefix}_mode"))

    for i, chord in enumerate(merged):
        key = keys[bisect_right(key_changes, i) - 1]
        check_eq(tonic_mode(key), (chord.key_tonic, chord.key_mode), f"key of chord {i}")
    for i, key in zip(key_changes, keys):
        check_eq((key.relative_tonic, key.local_tonic, key.global_tonic, key.relative_mode,
                  key.local_mode, key.global_mode), merged[i].key.expected(th.TPC),
                 f"key of chord {i}")
    for first, second in zip(keys, keys[1:]):
        check(tonic_mode(first) != tonic_mode(second), "a key changes to itself")
    check_eq([int(x) for x in piece.get_key_change_input_indices()],
             [changes[i] for i in key_changes], "inputs with a key change")

    # The chords of any range of inputs
    for _ in range(3):
        start = case.int(0, len(notes))
        stop = case.int(start, len(notes)) if case.bool(0.7) else None
        inside = [i for i, change in enumerate(changes)
                  if change >= start and (stop is None or change < stop)]
        before = [i for i, change in enumerate(changes) if change < start]
        if before and start not in changes and (stop is None or stop > start):
            inside = [before[-1]] + inside
        elif stop is not None and stop == start:
            inside = None
        if inside is not None:
            result = list(piece.get_chords_within_range(start, stop))
            check_eq(result, [chords[i] for i in inside], f"chords within {start}-{stop}")

    # Saving and loading
    copy = get_score_piece_from_dict(df, piece.to_dict(), name="x")
    for name in ["get_inputs", "get_chords", "get_keys"]:
        check_eq(list(getattr(copy, name)()), list(getattr(piece, name)()), f"{name} of the copy")
    for name in ["get_chord_change_indices", "get_key_change_indices", "get_chord_ranges"]:
        check_eq(getattr(copy, name)().tolist(), getattr(piece, name)().tolist(),
                 f"{name} of the copy")
    check_eq(get_range_start(measures.position(merged[-1].start), piece.get_inputs()),
             ranges[-1][0], "first sounding note")


SCALE = 3


def tests():
    return [Test("from_data_frames", from_frames, 1500)]
