"""B01: note, chord and key change vectors encode exactly what they are documented to encode."""
from fractions import Fraction

import numpy as np
from harmonic_inference.data.chord import Chord, get_chord_vector_length
from harmonic_inference.data.key import Key, get_key_change_vector_length
from harmonic_inference.data.note import Note, get_note_vector_length
from harmonic_inference.data import vector_decoding as vd
from checks.a01 import raises_value_error
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq

SCALE = 6
RULE = (
    "Random notes, chords, keys and metrical contexts of both pitch types; non-trivial: a chord in "
    "inversion or off its tonic / a note with a chord context / a modulation to another tonic."
)
ASSUMPTIONS = [
    "MIDI note numbers are below 120 (the encoding reserves ten octaves).",
    "Vectors are compared with a tolerance of half precision (np.float16).",
]


def close(actual, expected, message):
    actual = np.array(actual, dtype=float)
    expected = np.array([float(value) for value in expected], dtype=float)
    check_eq(actual.shape, expected.shape, message + ": shape")
    bad = np.where(~np.isclose(actual, expected, rtol=2e-3, atol=1e-4))[0]
    check(len(bad) == 0, f"{message}: entries {list(bad)} are {list(actual[bad])}, expected "
          f"{list(expected[bad])}")


def one_hot(index, length):
    return [1 if i == index else 0 for i in range(length)]


def draw_chord(case, pitch_type):
    chord_type = case.one_of(th.TYPES)
    inversion = case.int(0, th.inversions(chord_type) - 1)
    root = case.int(0, th.COUNT[pitch_type] - 1)
    bass = th.chord_pitches(chord_type, root, pitch_type)[inversion]
    if not th.in_range(bass, pitch_type):
        case.discard()
    if pitch_type == th.TPC:
        tonic = max(0, min(34, root + case.sint(-17, 17)))
    else:
        tonic = case.int(0, 11)
    measures = gen.draw_measures(case, 1, 3)
    start = gen.draw_time(case, measures)
    end = gen.draw_time(case, measures, include_end=True)
    start, end = min(start, end), max(start, end)
    onset, offset = measures.position(start), measures.position(end)
    chord = Chord(
        root, bass, tonic, case.one_of(th.MODES), chord_type, inversion, onset,
        measures.level(onset), offset, measures.level(offset), end - start, pitch_type,
    )
    return chord


def rel(pitch, tonic, pitch_type, pad):
    """Position in the relative one-hot, or None."""
    if pitch_type == th.MIDI:
        return (pitch - tonic) % 12
    low, high = th.relative_bounds(pad)
    return pitch - tonic - low if low <= pitch - tonic < high else None


def chord_reference(chord, tonic, mode, pad, chord_type):
    pitch_type = chord.pitch_type
    low, high = th.relative_bounds(pad)
    width = 12 if pitch_type == th.MIDI else high - low
    root, bass = (rel(p, tonic, pitch_type, pad) for p in (chord.root, chord.bass))
    if root is None or bass is None:
        return None
    return (
        one_hot(root, width) + one_hot(th.TYPES.index(chord_type), 12) + one_hot(bass, width)
        + one_hot(chord.inversion, 4) + one_hot(chord.onset_level, 4)
        + one_hot(chord.offset_level, 4) + [chord.duration] + [1 if mode == th.MAJOR else 0]
    )


def draw_key(case, pitch_type):
    count = th.COUNT[pitch_type]
    return Key(
        case.int(0, count - 1), case.int(0, count - 1), case.int(0, count - 1),
        case.one_of(th.MODES), case.one_of(th.MODES), case.one_of(th.MODES), pitch_type,
    )


def chord_vector(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    pad = case.bool()
    chord = draw_chord(case, pitch_type)
    relative_to = draw_key(case, pitch_type) if case.bool(0.4) else None
    kind, reduction = th.draw_reduction(case)
    kwargs = {} if reduction is None else {"reduction": reduction}
    tonic = chord.key_tonic if relative_to is None else relative_to.relative_tonic
    mode = chord.key_mode if relative_to is None else relative_to.relative_mode
    case.note(f"{chord!r} pad={pad} relative to {relative_to} reduction {kind}")
    case.nontrivial(chord.root != tonic or chord.inversion > 0)
    chord_type = chord.chord_type if reduction is None else reduction[chord.chord_type]
    expected = chord_reference(chord, tonic, mode, pad, chord_type)
    if expected is None:
        case.event("outside of the relative range")
        check(raises_value_error(chord.to_vec, relative_to=relative_to, pad=pad, **kwargs),
              "a chord outside of the relative pitch range was encoded")
        return
    vector = chord.to_vec(relative_to=relative_to, pad=pad, **kwargs)
    close(vector, expected, "chord vector")
    length = get_chord_vector_length(pitch_type, one_hot=False, relative=True, pad=pad)
    check_eq(length, len(vector), "documented chord vector length")
    lengths = gen.sparse(case, dict(one_hot=False, relative=True, pad=pad), relative=True, pad=False)
    check_eq(chord.get_chord_vector_length(**lengths), len(vector),
             "documented chord vector length (method)")
    # Decoding
    with gen.quiet():
        decoded = vd.decode_chord_vector(
            vector, pad=pad, pitch_type=pitch_type if case.bool() else None
        )
    difference = (lambda p: p - tonic) if pitch_type == th.TPC else (lambda p: (p - tonic) % 12)
    check_eq(
        (decoded.root, decoded.chord_type, decoded.bass, decoded.inversion, decoded.onset_level,
         decoded.offset_level, decoded.key_mode, decoded.pitch_type),
        (difference(chord.root), chord_type, difference(chord.bass), chord.inversion,
         chord.onset_level, chord.offset_level, mode, pitch_type),
        "decoded chord vector",
    )


def transposed(case):
    """The relative encoding does not change when chord and key are transposed together."""
    pitch_type = case.one_of(th.PITCH_TYPES)
    pad = case.bool()
    chord = draw_chord(case, pitch_type)
    interval = case.sint(-12, 12)
    moved = chord.to_dict()
    for field in ["root", "bass", "key_tonic"]:
        moved[field] += interval
        if pitch_type == th.MIDI:
            moved[field] %= 12
        elif not th.in_range(moved[field], th.TPC):
            case.discard()
    moved = Chord(**moved)
    case.note(f"{chord!r} by {interval}, pad={pad}")
    case.nontrivial(interval != 0)
    if chord_reference(chord, chord.key_tonic, chord.key_mode, pad, chord.chord_type) is None:
        case.discard()
    check_eq(list(chord.to_vec(pad=pad)), list(moved.to_vec(pad=pad)), "transposed chord vector")
    for inversions in [True, False]:
        kwargs = dict(relative=True, use_inversion=inversions, pad=pad)
        check_eq(chord.get_one_hot_index(**kwargs), moved.get_one_hot_index(**kwargs),
                 "transposed relative one-hot index")
    kwargs = dict(relative=False, use_inversion=False)
    if interval % th.COUNT[pitch_type] != 0:
        check(chord.get_one_hot_index(**kwargs) != moved.get_one_hot_index(**kwargs),
              "the absolute index must change with transposition")


def chord_index(case):
    """Chord.get_one_hot_index against the reference label space."""
    pitch_type = case.one_of(th.PITCH_TYPES)
    pad, relative, inversions = case.bool(), case.bool(), case.bool()
    chord = draw_chord(case, pitch_type)
    kind, reduction = th.draw_reduction(case)
    chord_type = chord.chord_type if reduction is None else reduction[chord.chord_type]
    case.note(f"{chord!r} relative={relative} pad={pad} inversions={inversions} {kind}")
    case.nontrivial(chord.inversion > 0 or relative)
    root = chord.root
    if relative:
        root = root - chord.key_tonic if pitch_type == th.TPC else (root - chord.key_tonic) % 12
    space = th.chord_space(pitch_type, inversions, relative, pad, reduction)
    label = (root, chord_type, chord.inversion if inversions else 0)
    kwargs = dict(relative=relative, use_inversion=inversions, pad=pad, reduction=reduction)
    if label not in space:
        case.event("not in the label space")
        check(raises_value_error(chord.get_one_hot_index, **kwargs),
              "a chord outside of the label space was given an index")
        return
    check_eq(chord.get_one_hot_index(**kwargs), space.index(label), "one-hot index of a chord")


def key_change(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    first, second = draw_key(case, pitch_type), draw_key(case, pitch_type)
    case.note(f"{first!r} -> {second!r}")
    width = 12 if pitch_type == th.MIDI else 29
    index = rel(second.relative_tonic, first.relative_tonic, pitch_type, False)
    case.nontrivial(second.relative_tonic != first.relative_tonic)
    vector = first.get_key_change_vector(second)
    mode_index = th.MODES.index(second.relative_mode)
    expected = one_hot(index, width) + one_hot(mode_index, 2)
    close(vector, expected, "key change vector")
    check_eq(get_key_change_vector_length(pitch_type, one_hot=False), width + 2, "vector length")
    check_eq(first.get_key_change_vector_length(one_hot=False), width + 2, "vector length")
    check_eq(get_key_change_vector_length(pitch_type, one_hot=True), 2 * width, "one-hot length")
    check_eq(first.get_key_change_vector_length(one_hot=True), 2 * width, "one-hot length")
    if index is None:
        case.event("outside of the key change range")
        check(raises_value_error(first.get_key_change_one_hot_index, second),
              "a key change outside of the range was given an index")
    else:
        check_eq(first.get_key_change_one_hot_index(second), mode_index * width + index,
                 "key change index")
        with gen.quiet():
            key = vd.decode_key_change_vector(vector)
        interval = index if pitch_type == th.MIDI else index - 14
        check_eq((key.relative_tonic, key.relative_mode, key.tonic_type),
                 (interval, second.relative_mode, pitch_type), "decoded key change")
    check_eq(first.get_one_hot_index(),
             th.MODES.index(first.relative_mode) * th.COUNT[pitch_type] + first.relative_tonic,
             "key index")


def combined(case):
    """decode_chord_and_key_change_vector on a sequence model's input vectors."""
    pitch_type = case.one_of(th.PITCH_TYPES)
    pad = case.bool()
    chord = draw_chord(case, pitch_type)
    if chord_reference(chord, chord.key_tonic, chord.key_mode, pad, chord.chord_type) is None:
        case.discard()
    chord_vec = chord.to_vec(pad=pad)
    width = 12 if pitch_type == th.MIDI else 29
    change = case.bool()
    first, second = draw_key(case, pitch_type), draw_key(case, pitch_type)
    index = rel(second.relative_tonic, first.relative_tonic, pitch_type, False)
    if change and index is not None:
        key_vec, flag = first.get_key_change_vector(second), 1
    else:
        key_vec, flag = np.zeros(width + 2), 0
    case.note(f"{chord!r} with key change {flag} to {second}")
    case.nontrivial(flag)
    vector = np.concatenate([chord_vec, key_vec, [flag]])
    kwargs = case.one_of([
        {"root_type": pitch_type}, {"tonic_type": pitch_type},
        {"root_type": pitch_type, "tonic_type": pitch_type},
    ])
    with gen.quiet():
        decoded, key = vd.decode_chord_and_key_change_vector(vector, pad=pad, **kwargs)
        alone = vd.decode_chord_vector(chord_vec, pad=pad)
    check_eq(decoded, alone, "chord decoded from a chord and key change vector")
    if flag:
        interval = index if pitch_type == th.MIDI else index - 14
        check_eq((key.relative_tonic, key.relative_mode), (interval, second.relative_mode),
                 "key change decoded from a chord and key change vector")
    else:
        check(key is None, "a key was decoded although there is no key change")
        dirty = vector.copy()
        dirty[len(chord_vec) + case.int(0, width + 1)] = 1
        with gen.quiet():
            check(raises_value_error(vd.decode_chord_and_key_change_vector, dirty, pad=pad,
                                     root_type=pitch_type),
                  "an inconsistent key change vector was accepted")


def note_vector(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    measures = gen.draw_measures(case, 1, 4)
    df = measures.df()
    start = gen.draw_time(case, measures)
    duration = Fraction(case.int(0, 8), case.one_of([4, 8, 16, 12]))
    end = min(start + duration, measures.end)
    duration = end - start
    onset, offset = measures.position(start), measures.position(end)
    tpc, midi = gen.draw_spelled_pitch(case, 0, 119)
    pitch = tpc + 15 if pitch_type == th.TPC else midi % 12
    note = Note(pitch, midi // 12, onset, measures.level(onset), duration, offset,
                measures.level(offset), pitch_type)
    check_eq(note.get_midi_note_number(), midi, "MIDI note number")
    case.note(repr(note))

    kwargs = {}
    proportions = [0, 0, 0]
    if case.bool(0.75):
        chord_start = gen.draw_time(case, measures)
        chord_end = gen.draw_time(case, measures, include_end=True)
        chord_start, chord_end = min(chord_start, chord_end), max(chord_start, chord_end)
        if chord_start == chord_end:
            chord_start, chord_end = Fraction(0), measures.end
        length = chord_end - chord_start
        kwargs.update(
            chord_onset=measures.position(chord_start), chord_offset=measures.position(chord_end),
            chord_duration=length, measures_df=df,
        )
        if case.bool():
            kwargs["note_onset"] = start - chord_start
            case.event("onset given")
        else:
            case.event("onset computed")
        proportions = [(start - chord_start) / length, (end - chord_start) / length,
                       duration / length]
        case.note(f"chord {kwargs['chord_onset']} - {kwargs['chord_offset']}")
        case.nontrivial()
    previous = following = 0
    if case.bool():
        previous, following = Fraction(case.int(0, 8), 8), Fraction(case.int(0, 8), 8)
        kwargs.update(dur_from_prev=previous, dur_to_next=following)
    is_min, lowest, relative_height = 0, 0, 0
    if case.bool(0.7):
        low = midi - case.int(0, midi) if case.bool(0.7) else midi
        high = midi + case.int(0, 119 - midi) if case.bool(0.7) else midi
        kwargs["min_pitch"] = (low // 12, low)
        is_min, lowest = int(low == midi), low // 12
        if case.bool(0.8):
            kwargs["max_pitch"] = (high // 12, high)
            relative_height = (midi - low) / (high - low) if high > low else 0
        case.note(f"range {low} - {high}")
    expected = (
        one_hot(pitch, th.COUNT[pitch_type]) + one_hot(midi // 12, 10)
        + one_hot(measures.level(onset), 4) + one_hot(measures.level(offset), 4)
        + proportions + [previous, following, is_min] + one_hot(midi // 12 - lowest, 10)
        + [midi / 127, relative_height]
    )
    vector = note.to_vec(**kwargs)
    close(vector, expected, "note vector")
    check_eq(get_note_vector_length(pitch_type), len(vector), "documented note vector length")
    check_eq(note.get_vector_length(), len(vector), "documented note vector length (method)")
    with gen.quiet():
        decoded = vd.decode_note_vector(vector)
    check_eq((decoded.pitch_class, decoded.octave, decoded.onset_level, decoded.offset_level,
              decoded.pitch_type),
             (pitch, midi // 12, measures.level(onset), measures.level(offset), pitch_type),
             "decoded note vector")
    close([decoded.duration], [proportions[2]], "decoded duration")


def tests():
    return [
        Test("chord_vector", chord_vector, 2500),
        Test("transposition_invariance", transposed, 1200),
        Test("chord_index", chord_index, 1200),
        Test("key_change_vector", key_change, 1500),
        Test("chord_and_key_change", combined, 800),
        Test("note_vector", note_vector, 2000),
    ]
