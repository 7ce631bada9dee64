"""Generators of whole pieces (as data frames) with a reference interpretation."""
from fractions import Fraction

import pandas as pd

from pbt import corpus, gen
from pbt import theory as th


class RefChord:
    """A chord of the reference: interval [start, end), harmony and key."""

    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


class PieceData:
    """Data frames of one piece, together with what they mean."""

    notes = None  # [(time, end, tpc, midi)] that are representable, in order
    chords = None  # [RefChord] that are representable, unmerged


def draw_notes(case, measures, low=1, high=12, unrepresentable=True):
    rows = []
    count = case.size(low, high, mean=0.6 * high)
    dense = case.bool()
    for _ in range(count):
        start = gen.draw_time(case, measures)
        if rows and case.bool(0.3 if dense else 0.15):
            start = rows[-1][0]
        end = min(start + Fraction(case.int(1, 16), 16), measures.end)
        if case.bool(0.15):
            # Sounding over several measures
            end = min(start + Fraction(case.int(1, 12), 4), measures.end)
        if case.bool(0.08):
            # A grace note
            end = start
        tpc, midi = gen.draw_spelled_pitch(case)
        if unrepresentable and case.bool(0.05):
            tpc = 12 * 2 + tpc  # Beyond the TPC range, the same key on the piano
        rows.append((start, end, tpc, midi))
    rows.sort(key=lambda row: (row[0], row[3]))
    return rows


def notes_frame(measures, rows):
    records = []
    for start, end, tpc, midi in rows:
        onset, offset = measures.position(start), measures.position(end)
        records.append(dict(
            mc=onset[0], mn_onset=onset[1], mc_onset=corpus.mc_onset(measures, onset),
            duration=end - start, midi=midi, tpc=tpc, offset_mc=offset[0], offset_beat=offset[1],
        ))
    return pd.DataFrame(records)


def draw_chord_rows(case, measures, low=1, high=8, unrepresentable=True, pivots=0.3,
                    new_key=0.4):
    """[(start, end, row, key, type, figure)] over contiguous times up to the end of the piece."""
    count = case.size(low, high, mean=0.6 * high)
    times = sorted({gen.draw_time(case, measures) for _ in range(count)})
    if case.bool(0.5):
        times[0] = Fraction(0)
    result = []
    columns = key = None
    root, chord_type, figure, changes = 0, th.TYPES[0], None, None
    for start, end in zip(times, times[1:] + [measures.end]):
        previous = key
        for _ in range(50):
            if key is None or case.bool(new_key):
                if columns is not None and case.bool(0.3):
                    # Another way to write the same key
                    new = dict(columns, relativeroot="I" if key.local[1] == th.MAJOR else "i")
                    if pd.isnull(columns["relativeroot"]):
                        columns = new
                else:
                    columns, key = gen.draw_corpus_key(case, tonic_range=(12, 18), chain=1,
                                                       applied=0.25)
            if key.valid or (unrepresentable and case.bool(0.1)):
                break
        else:
            case.discard()
        pivot = result and key is not previous and case.bool(pivots)
        if pivot:
            # The same chord in another key
            root += previous.local[0] - key.local[0]
        elif not result or case.bool(0.65):
            root = case.sint(-5, 5) if not unrepresentable or case.bool(0.9) else case.sint(-17, 17)
        if not result or not pivot and case.bool(0.5):
            chord_type = case.one_of(th.TYPES)
        if not result or not pivot and case.bool(0.5):
            figure = case.one_of([float("nan"), "7", "6", "65", "64", "43", "2"])
        if not result or case.bool(0.5):
            changes = case.weighted([(3, float("nan")), (1, "4"), (1, "b9")])
        onset, offset = measures.position(start), measures.position(end)
        row = dict(columns)
        row.update(
            numeral="V", root=root, bass_note=0, chord_type=th.TYPE_STRING[chord_type],
            figbass=figure, changes=changes, mc=onset[0], mn_onset=onset[1], mc_next=offset[0],
            mn_onset_next=offset[1], duration=end - start,
        )
        result.append((start, end, row, key, chord_type))
    return result


INVERSION = {None: 0, "7": 0, "6": 1, "65": 1, "64": 2, "43": 2, "2": 3}


def interpret(rows, reduction, use_inversions, use_relative):
    """The chords that the rows stand for (TPC), before merging repeated ones."""
    chords = []
    for start, end, row, key, chord_type in rows:
        if reduction is not None:
            chord_type = reduction[chord_type]
        figure = None if pd.isnull(row["figbass"]) else row["figbass"]
        inversion = INVERSION[figure] % th.inversions(chord_type) if use_inversions else 0
        root = key.local[0] + row["root"]
        bass = root + th.chord_fifths(chord_type)[inversion]
        if not (key.valid and th.in_range(root, th.TPC) and th.in_range(bass, th.TPC)):
            continue
        tonic, mode = key.relative if use_relative else key.local
        chords.append(RefChord(
            start=start, end=end, duration=end - start, root=root, bass=bass,
            chord_type=chord_type, inversion=inversion, key_tonic=tonic, key_mode=mode, key=key,
            suspension=None if pd.isnull(row["changes"]) else row["changes"],
        ))
    return chords


def merge(chords, use_inversions, use_suspensions):
    merged = []
    previous = None
    for chord in chords:
        same = previous is not None and all(
            getattr(chord, field) == getattr(previous, field)
            for field in ["root", "chord_type"] + ["inversion"] * use_inversions
            + ["suspension"] * use_suspensions
        )
        previous = chord
        if same:
            merged[-1].end = chord.end
            merged[-1].duration += chord.duration
        else:
            merged.append(RefChord(**chord.__dict__))
    return merged


def end_of(chords, times, ends):
    """Until when the last note counts: the end of the last chord, if it sounds by then."""
    return chords[-1].end if chords and chords[-1].end > times[-1] else max(ends)


def alignment(starts, note_times, note_ends):
    """(changes, ranges) of chords starting at the given times."""
    changes = []
    for start in starts:
        later = [i for i, time in enumerate(note_times) if time >= start]
        changes.append(later[0] if later else len(note_times) - 1)
    first = []
    for start in starts:
        sounding = [i for i, (time, end) in enumerate(zip(note_times, note_ends))
                    if time >= start or end > start]
        first.append(sounding[0] if sounding else len(note_times))
    return changes, list(zip(first, changes[1:] + [len(note_times)]))
