"""Lists of pieces, with the vectors and labels that the datasets should hold for them."""
import numpy as np
import pandas as pd

from checks.b01 import chord_reference, one_hot, rel
from harmonic_inference.data.piece import get_score_piece_from_data_frames
from pbt import corpus, gen, pieces
from pbt import theory as th


class SetPiece:
    """A piece together with its note times and its own view of chords and keys."""

    def __init__(self, piece, times, changes):
        self.piece, self.times, self.changes = piece, times, changes
        self.chords = list(piece.get_chords())
        self.keys = list(piece.get_keys())
        self.key_changes = [int(i) for i in piece.get_key_change_indices()]

    def key_of(self, index):
        """(number of the key that chord ``index`` is in)."""
        return sum(1 for change in self.key_changes if change <= index) - 1


def draw_piece(case, keys=None, high_chords=8, high_notes=12, large=False):
    """One representable piece, or Discard."""
    score = corpus.draw_score(case, *((20, 40) if large else (1, 4)))
    measures = score.played
    df = corpus.played_df({0: score}).loc[0]
    if large:
        note_rows = pieces.draw_notes(case, measures, 70, 150, unrepresentable=False)
        chord_rows = pieces.draw_chord_rows(case, measures, 10, 90, unrepresentable=False,
                                            new_key=0.03)
    else:
        note_rows = pieces.draw_notes(case, measures, high=high_notes, unrepresentable=False)
        chord_rows = pieces.draw_chord_rows(case, measures, high=high_chords,
                                            unrepresentable=False)
    ref = pieces.interpret(chord_rows, None, True, True)
    if not ref:
        case.discard()
    # Keep the chords that both relative encodings can represent
    keep = []
    for row in chord_rows:
        chords = pieces.interpret([row], None, True, True)
        if chords and all(-14 <= p - chords[0].key_tonic < 15
                          for p in (chords[0].root, chords[0].bass)):
            keep.append(row)
    if not keep:
        case.discard()
    merged = pieces.merge(pieces.interpret(keep, None, True, True), True, False)
    note_df = pieces.notes_frame(measures, note_rows)
    chord_df = pd.DataFrame([row for _, _, row, _, _ in keep])
    with gen.quiet():
        piece = get_score_piece_from_data_frames(note_df, chord_df, df)
    times, ends = [row[0] for row in note_rows], [row[1] for row in note_rows]
    changes, _ = pieces.alignment([chord.start for chord in merged], times, ends)
    result = SetPiece(piece, times, changes)
    result.end = pieces.end_of(merged, times, ends)
    result.notes = note_rows
    result.measures = measures
    result.df, result.note_df, result.chord_df = df, note_df, chord_df
    # The modulations must be encodable, too
    for first, second, change in zip(result.keys, result.keys[1:], result.key_changes[1:]):
        if not -14 <= second.relative_tonic - first.relative_tonic < 15:
            case.discard()
        chord = result.chords[change]
        if chord_reference(chord, first.relative_tonic, first.relative_mode, True,
                           chord.chord_type) is None:
            case.discard()
    return result


def draw_pieces(case, low=1, high=3, **kwargs):
    count = case.int(low, high)
    if case.bool(0.04):
        case.event("large piece")
        kwargs["large"] = True
    group = [draw_piece(case, **kwargs)]
    kwargs.pop("large", None)
    return case.shuffled(group + [draw_piece(case, **kwargs) for _ in range(count - 1)])


def describe(case, group):
    for item in group:
        case.note(f"{len(item.times)} notes {[str(t) for t in item.times]}; chords "
                  f"{[(c.root, c.chord_type.name, c.inversion, c.key_tonic) for c in item.chords]} "
                  f"at {item.changes}; keys {item.keys} at {item.key_changes}")


def chord_row(chord, key, pad, reduction=None, inversions=True):
    """The chord vector relative to a key, with a reduced type / without its inversion."""
    chord_type = chord.chord_type if reduction is None else reduction[chord.chord_type]
    row = chord_reference(chord, key.relative_tonic, key.relative_mode, pad, chord_type)
    if not inversions:
        low, high = th.relative_bounds(pad)
        width = 12 if chord.pitch_type == th.MIDI else high - low
        row[2 * width + 12: 2 * width + 16] = [1, 0, 0, 0]
    return [float(value) for value in row]


def key_columns(first, second):
    """Key change vector and flag."""
    width = 29 if second.tonic_type == th.TPC else 12
    if first is None:
        return [0.0] * (width + 3)
    index = rel(second.relative_tonic, first.relative_tonic, second.tonic_type, False)
    return [float(value) for value in one_hot(index, width)
            + one_hot(th.MODES.index(second.relative_mode), 2) + [1]]


def sequence_rows(item, pad, reduction, inversions):
    """Rows of the chord sequence / key models: chord relative to its key, key change columns."""
    rows = []
    for index, chord in enumerate(item.chords):
        number = item.key_of(index)
        change = index in item.key_changes and index > 0
        columns = key_columns(item.keys[number - 1] if change else None, item.keys[number])
        rows.append(chord_row(chord, item.keys[number], pad, reduction, inversions) + columns)
    return rows


def label(space, root, chord_type, inversion, reduction, inversions):
    """Index of the reduced label in the space, None if the reduction has no such inversion."""
    chord_type = chord_type if reduction is None else reduction[chord_type]
    entry = (root, chord_type, inversion if inversions else 0)
    return space.index(entry) if entry in space else None


def padded(rows, length):
    rows = np.array(rows, dtype=float)
    result = np.zeros((length,) + rows.shape[1:])
    result[: len(rows)] = rows
    return result


def key_change_index(first, second):
    width = 29 if first.tonic_type == th.TPC else 12
    return (th.MODES.index(second.relative_mode) * width
            + rel(second.relative_tonic, first.relative_tonic, first.tonic_type, False))
