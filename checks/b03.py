"""B03: corpus (TSV) rows become the notes, chords and keys they describe, or nothing."""
from collections import defaultdict
from fractions import Fraction

import pandas as pd
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq

SCALE = 5
RULE = (
    "Random annotation rows (global key, local key numeral, applied roots, root, type, figured bass, "
    "position) and note rows over random measures, several rows sharing one levels cache. "
    "Non-trivial: applied root, inversion, reduction, accidental, or an incomplete measure."
)
ASSUMPTIONS = ["A figured bass beyond the inversions of the (reduced) type wraps around, as documented."]


def draw_chord_row(case, measures):
    columns, key = gen.draw_corpus_key(case)
    chord_type = case.one_of(th.TYPES)
    figure = case.one_of(gen.FIGBASS[case.int(0, 3)])
    start = gen.draw_time(case, measures)
    end = gen.draw_time(case, measures, include_end=True)
    start, end = min(start, end), max(start, end)
    onset, offset = measures.position(start), measures.position(end)
    row = dict(columns)
    numeral = case.weighted([(14, "I"), (1, "@none"), (1, float("nan")), (1, None)])
    row.update(
        numeral=numeral,
        root=case.sint(-12, 12),
        bass_note=0,
        chord_type=th.TYPE_STRING[chord_type],
        figbass=figure,
        mc=onset[0], mn_onset=onset[1], mc_next=offset[0], mn_onset_next=offset[1],
        duration=end - start,
        changes=case.weighted([(5, float("nan")), (1, "4"), (1, "b9"), (1, None)]),
    )
    return row, key, chord_type, (onset, offset)


INVERSION = {None: 0, "": 0, "7": 0, "6": 1, "65": 1, "64": 2, "43": 2, "2": 3}


def chords(case):
    measures = gen.draw_measures(case, 1, 4)
    df = measures.df()
    pitch_type = case.one_of(th.PITCH_TYPES)
    kind, reduction = th.draw_reduction(case)
    use_inversion, use_relative = case.bool(0.75), case.bool(0.75)
    cache = defaultdict(dict) if case.bool(0.7) else None
    kwargs = dict(use_inversion=use_inversion, use_relative=use_relative, levels_cache=cache)
    if reduction is not None:
        kwargs["reduction"] = reduction
    for _ in range(case.size(1, 4)):
        row, key, chord_type, (onset, offset) = draw_chord_row(case, measures)
        case.note(f"{row} {pitch_type} reduction {kind} inversions={use_inversion}")
        chord_type = chord_type if reduction is None else reduction[chord_type]
        figure = row["figbass"]
        inversion = INVERSION[None if pd.isnull(figure) else figure] if use_inversion else 0
        inversion %= th.inversions(chord_type)
        root = key.local[0] + row["root"]
        bass = root + th.chord_fifths(chord_type)[inversion]
        valid = key.valid and th.in_range(root, th.TPC) and th.in_range(bass, th.TPC)
        chord = Chord.from_series(pd.Series(row), df, pitch_type, **kwargs)
        if pd.isnull(row["numeral"]) or row["numeral"] == "@none":
            case.event("no chord")
            check(chord is None, f"a chord was read from a no-chord row: {chord}")
            continue
        if pitch_type == th.TPC and not valid:
            case.event("not representable")
            check(chord is None, f"a chord outside of the pitch range was read as {chord}")
            continue
        case.nontrivial(inversion or row["root"] or kind != "none")
        check(chord is not None, "no chord was read from a valid row")
        if pitch_type == th.MIDI:
            root, bass = th.tpc_to_midi(root), th.tpc_to_midi(bass)
        rel_tonic, loc_tonic, _, rel_mode, loc_mode, _ = key.expected(pitch_type)
        expected = dict(
            root=root, bass=bass,
            key_tonic=rel_tonic if use_relative else loc_tonic,
            key_mode=rel_mode if use_relative else loc_mode,
            chord_type=chord_type, inversion=inversion,
            onset=onset, onset_level=measures.level(onset),
            offset=offset, offset_level=measures.level(offset),
            duration=row["duration"], pitch_type=pitch_type,
            suspension=None if pd.isnull(row["changes"]) else row["changes"],
        )
        for field, value in expected.items():
            check_eq(getattr(chord, field), value, f"{field} of the chord")
        given = Key.from_series(pd.Series(row), pitch_type)
        again = Chord.from_series(pd.Series(row), df, pitch_type, key=given, **kwargs)
        check_eq(again, chord, "chord with a given key")


def keys(case):
    columns, key = gen.draw_corpus_key(case, tonic_range=(2, 30), chain=3, applied=0.5)
    pitch_type = case.one_of(th.PITCH_TYPES)
    case.note(f"{columns} {pitch_type}")
    case.nontrivial(columns["localkey"] != "I")
    result = Key.from_series(pd.Series(columns), pitch_type)
    if pitch_type == th.TPC and not key.valid:
        case.event("not representable")
        check(result is None, f"a key outside of the pitch range was read as {result}")
        return
    check(result is not None, "no key was read from a valid row")
    check_eq(
        (result.relative_tonic, result.local_tonic, result.global_tonic, result.relative_mode,
         result.local_mode, result.global_mode),
        key.expected(pitch_type), "key",
    )
    check_eq(result.tonic_type, pitch_type, "tonic type")
    # The mode of the global key is what the row says it is, whatever its name's case
    flipped = dict(columns)
    flipped["globalkey"] = columns["globalkey"][0].swapcase() + columns["globalkey"][1:]
    check_eq(Key.from_series(pd.Series(flipped), pitch_type), result, "key name in other case")


def notes(case):
    measures = gen.draw_measures(case, 1, 5)
    df = measures.df()
    pitch_type = case.one_of(th.PITCH_TYPES)
    cache = defaultdict(dict) if case.bool(0.7) else None
    for _ in range(case.size(1, 5)):
        tpc = case.weighted([(12, None), (1, 20), (1, -16), (1, 25)])
        if tpc is None:
            tpc, midi = gen.draw_spelled_pitch(case, 0, 127)
        else:
            midi = (7 * tpc) % 12 + 60
        start = gen.draw_time(case, measures)
        end = min(start + Fraction(case.int(0, 24), 16), measures.end)
        onset, offset = measures.position(start), measures.position(end)
        row = dict(
            midi=midi, tpc=tpc, mc=onset[0], mn_onset=onset[1],
            mc_onset=onset[1] - measures.by_mc[onset[0]]["mc_offset"],
            offset_mc=offset[0], offset_beat=offset[1], duration=end - start,
        )
        case.note(f"{row} {pitch_type}")
        case.nontrivial(onset[1] != 0)
        note = Note.from_series(pd.Series(row), df, pitch_type, levels_cache=cache)
        if pitch_type == th.TPC and not th.in_range(tpc + 15, th.TPC):
            case.event("not representable")
            check(note is None, f"a note outside of the TPC range was read as {note!r}")
            continue
        check(note is not None, "no note was read from a valid row")
        expected = dict(
            pitch_class=tpc + 15 if pitch_type == th.TPC else midi % 12, octave=midi // 12,
            onset=onset, onset_level=measures.level(onset), duration=end - start,
            offset=offset, offset_level=measures.level(offset), pitch_type=pitch_type,
            mc_onset=row["mc_onset"],
        )
        for field, value in expected.items():
            check_eq(getattr(note, field), value, f"{field} of the note")
        check_eq(note.get_midi_note_number(), midi, "MIDI note number")


def tests():
    return [
        Test("chord_rows", chords, 500),
        Test("key_rows", keys, 1500),
        Test("note_rows", notes, 500),
    ]
