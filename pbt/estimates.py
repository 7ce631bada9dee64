"""Annotated pieces with estimated analyses (search states) of them."""
from bisect import bisect_right

import pandas as pd

from pbt import shimmed  # noqa: F401
from harmonic_inference.data.piece import get_score_piece_from_data_frames
from harmonic_inference.utils.beam_search_utils import State
from pbt import corpus, gen, pieces
from pbt import theory as th

CHORDS = th.chord_space(th.TPC, True, False, False, None)
MIDI_CHORDS = {
    label: i for i, label in enumerate(th.chord_space(th.MIDI, True, False, False, None))}
KEYS = [(tonic, mode) for mode in th.MODES for tonic in range(35)]


class Estimated:
    """A piece, per onset: (first note, time, duration), true and estimated chord and key."""

    def __init__(self, case, annotated=True, alterations=False, name=None):
        self.score = corpus.draw_score(case, 1, 4)
        measures = self.score.played
        self.measures = measures
        self.frame = corpus.played_df({0: self.score}).loc[0]
        large = case.bool(0.03)
        rows = pieces.draw_notes(case, measures, low=40 if large else 2, high=90 if large else 10,
                                 unrepresentable=False)
        suspensions = case.bool(0.4)
        chord_rows = pieces.draw_chord_rows(case, measures, high=6, unrepresentable=False,
                                            pivots=0.7 if suspensions else 0.3)
        if alterations:
            for row in chord_rows:
                row[2]["changes"] = "".join(
                    case.one_of(["4", "b9", "2", "+6", "b6", "+11", "#4", "+b2", "v4", "^2", "+9",
                                 "9", "+4", "13"])
                    for _ in range(case.weighted([(2, 0), (6, 1), (3, 2), (1, 3)]))
                ) or float("nan")
        self.chord_rows = chord_rows
        chord_frame = pd.DataFrame([row for _, _, row, _, _ in chord_rows])
        chords = pieces.interpret(chord_rows, None, True, True)
        if not chords:
            case.discard()
        with gen.quiet():
            self.piece = get_score_piece_from_data_frames(
                pieces.notes_frame(measures, rows), chord_frame if annotated else None, self.frame,
                name=name, use_suspensions=suspensions)
        self.rows = rows
        self.count = len(rows)
        times = [row[0] for row in rows]
        self.starts = [i for i in range(self.count) if i == 0 or times[i] != times[i - 1]]
        # The last onset lasts until the end of the last chord (or of the last note)
        last = pieces.end_of(chords if annotated else None, times, [row[1] for row in rows])
        ends = [times[i] for i in self.starts[1:]] + [last]
        self.durations = [end - times[i] for i, end in zip(self.starts, ends)]
        self.total = sum(self.durations)
        if self.total == 0:
            case.discard()  # Only grace notes
        self.annotated = annotated
        if annotated:
            changes = [int(x) for x in self.piece.get_chord_change_indices()]
            key_changes = [int(x) for x in self.piece.get_key_change_input_indices()]
            if changes[0] != 0:
                case.discard()
            chords, keys = list(self.piece.get_chords()), list(self.piece.get_keys())
            # Those of the last note of an onset, in case a chord starts after the last onset
            last = {i: max(j for j in range(self.count) if times[j] == times[i])
                    for i in range(self.count)}
            self.true_chord = [chords[bisect_right(changes, last[i]) - 1]
                               for i in range(self.count)]
            self.true_key = [keys[bisect_right(key_changes, last[i]) - 1]
                             for i in range(self.count)]
        self.draw_estimate(case)

    def draw_estimate(self, case):
        changes = [i for i in self.starts[1:] if case.bool(0.5)] + [self.count]
        state = State(key=0)
        self.chord, self.key = [None] * self.count, [None] * self.count
        first, key, chord, start = None, None, None, 0
        steps = []
        for end in changes:
            old = key
            if key is None or case.bool(0.4):
                key = self.guess_key(case, start)
            if chord is None or key == old or not case.bool(0.15):
                new = self.guess_chord(case, start)
                while new == chord:
                    new = (new + 1) % len(CHORDS)
                chord = new
            if first is None:
                first = key
            steps.append((chord, key, end))
            for i in range(start, end):
                self.chord[i], self.key[i] = chord, key
            start = end
        state = State(key=first)
        for chord, key, end in steps:
            state = State(chord=chord, key=key, change_index=end, prev_state=state)
        self.state, self.steps = state, steps

    def state_of(self, root_type, tonic_type):
        """The estimate of a model with other output types."""
        chord_of = range(len(CHORDS)) if root_type == th.TPC else [
            MIDI_CHORDS[th.tpc_to_midi(root), chord_type, inversion]
            for root, chord_type, inversion in CHORDS]
        key_of = [i if tonic_type == th.TPC else
                  th.tpc_to_midi(tonic) + 12 * th.MODES.index(mode)
                  for i, (tonic, mode) in enumerate(KEYS)]
        state = State(key=key_of[self.steps[0][1]])
        for chord, key, end in self.steps:
            state = State(chord=chord_of[chord], key=key_of[key], change_index=end,
                          prev_state=state)
        return state

    def guess_chord(self, case, index):
        if self.annotated and case.bool(0.75):
            true = self.true_chord[index]
            root, chord_type, inversion = true.root, true.chord_type, true.inversion
            if case.bool(0.3):
                inversion = case.int(0, th.inversions(chord_type) - 1)
            if case.bool(0.3):
                chord_type = case.one_of(th.TYPES)
                inversion %= th.inversions(chord_type)
            if case.bool(0.1):
                root = (root + 12) % 35
            return CHORDS.index((root, chord_type, inversion))
        return case.int(0, len(CHORDS) - 1)

    def guess_key(self, case, index):
        if self.annotated and case.bool(0.75):
            true = self.true_key[index]
            mode = true.relative_mode if case.bool(0.7) else case.one_of(th.MODES)
            return KEYS.index((true.relative_tonic, mode))
        return case.int(0, len(KEYS) - 1)

    def describe(self, case):
        case.note(f"notes at {[str(row[0]) for row in self.rows]}, end {self.rows[-1][1]}")
        if self.annotated:
            case.note(f"chords {[str(c) for c in self.piece.get_chords()]} at "
                      f"{list(self.piece.get_chord_change_indices())}, keys "
                      f"{[str(k) for k in self.piece.get_keys()]}"[:500])
        case.note(f"estimated {[(CHORDS[c], KEYS[k], e) for c, k, e in self.steps]}"[:500])
