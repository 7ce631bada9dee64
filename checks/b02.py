"""B02: reductions and transpositions of encoded data equal encoding the reduced/transposed data."""
import numpy as np
from harmonic_inference.data import vector_decoding as vd
from checks.a01 import raises_value_error
from checks.b01 import chord_reference, draw_chord, draw_key, rel
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq

SCALE = 8
RULE = (
    "Random tensors of 1-6 chord vectors (plus padding rows and key change columns) under any chord "
    "type reduction; random label indices in every label space; note vectors under any interval. "
    "Non-trivial: the reduction or interval changes something."
)
ASSUMPTIONS = [
    "An inversion is only kept under a reduction whose target type has that inversion "
    "(e.g. 3rd inversions with triad targets need use_inversions=False).",
]


def draw_tensor(case, pitch_type, pad):
    chords, rows = [], []
    width = 12 if pitch_type == th.MIDI else 29
    with_key = case.bool()
    for _ in range(case.size(1, 6)):
        chord = draw_chord(case, pitch_type)
        if chord_reference(chord, chord.key_tonic, chord.key_mode, pad, chord.chord_type) is None:
            continue
        row = chord.to_vec(pad=pad)
        if with_key:
            key_vec = np.zeros(width + 2)
            flag = 0
            if case.bool():
                first, second = draw_key(case, pitch_type), draw_key(case, pitch_type)
                if rel(second.relative_tonic, first.relative_tonic, pitch_type, False) is not None:
                    key_vec, flag = first.get_key_change_vector(second), 1
            row = np.concatenate([row, key_vec, [flag]])
        chords.append(chord)
        rows.append(row)
    if not rows:
        case.discard()
    if case.bool(0.03):
        times = case.int(10, 800)
        chords, rows = chords * times, rows * times
    padding = case.int(0, 2)
    tensor = np.vstack(rows + [np.zeros(len(rows[0]))] * padding)
    return chords, tensor, with_key


def reduce_types(case):
    pitch_type, pad = case.one_of(th.PITCH_TYPES), case.bool()
    chords, tensor, with_key = draw_tensor(case, pitch_type, pad)
    if case.bool(0.3):
        kind, reduction = "any map", th.draw_nonidempotent_reduction(case)
    else:
        kind, reduction = th.draw_reduction(case)
    given = pitch_type if case.bool() else None
    case.note(f"{[str(c.chord_type) for c in chords[:10]]} x{len(chords)} pad={pad} {kind} keys={with_key}")
    case.nontrivial(reduction is not None
                    and any(reduction[c.chord_type] != c.chord_type for c in chords))
    expected = tensor.copy()
    for row, chord in enumerate(chords):
        if reduction is not None:
            vector = chord.to_vec(pad=pad, reduction=reduction)
            expected[row, : len(vector)] = vector
    result = tensor.copy()
    vd.reduce_chord_types(result, reduction, pad, pitch_type=given)
    check(np.array_equal(result, expected),
          f"reduced vectors differ from the vectors of the reduced chords at "
          f"{[tuple(x) for x in np.argwhere(result != expected)]}")


def remove_inversions(case):
    pitch_type, pad = case.one_of(th.PITCH_TYPES), case.bool()
    chords, tensor, with_key = draw_tensor(case, pitch_type, pad)
    given = pitch_type if case.bool() else None
    case.note(f"inversions {[c.inversion for c in chords[:10]]} x{len(chords)} pad={pad} keys={with_key}")
    case.nontrivial(any(c.inversion for c in chords))
    width = 12 if pitch_type == th.MIDI else 39 if pad else 29
    start = 2 * width + 12
    expected = tensor.copy()
    for row in range(len(chords)):
        expected[row, start : start + 4] = [1, 0, 0, 0]
    result = tensor.copy()
    vd.remove_chord_inversions(result, pad, pitch_type=given)
    check(np.array_equal(result, expected), "vectors without inversions differ from the expected "
          f"ones at {[tuple(x) for x in np.argwhere(result != expected)]}")


def reduce_one_hots(case):
    pitch_type, pad, relative = case.one_of(th.PITCH_TYPES), case.bool(), case.bool()
    present, use = case.bool(0.7), case.bool()
    _, reduction_present = th.draw_reduction(case) if case.bool(0.4) else ("", None)
    kind, reduction = th.draw_reduction(case)
    old = th.chord_space(pitch_type, present, relative, pad, reduction_present)
    new = th.chord_space(pitch_type, use, relative, pad, reduction)
    indexes, expected = [], []
    for _ in range(case.size(1, 12)):
        index = case.int(0, len(old) - 1)
        root, chord_type, inversion = old[index]
        target = chord_type if reduction is None else reduction[chord_type]
        label = (root, target, inversion if use else 0)
        if label not in new:
            case.event("inversion lost by the reduction (skipped)")
            continue
        indexes.append(index)
        expected.append(new.index(label))
    if not indexes:
        case.discard()
    if case.bool(0.03):
        times = case.int(10, 200)
        indexes, expected = indexes * times, expected * times
    as_list = case.bool(0.3)
    dtype = case.one_of([np.int64, np.float32, np.float16, np.int32])
    given = list(indexes) if as_list else np.array(indexes, dtype=dtype)
    case.note(f"{indexes[:20]} x{len(indexes)} {pitch_type} relative={relative} pad={pad} inversions {present}->{use} "
              f"{kind}")
    case.nontrivial(indexes != expected)
    result = vd.reduce_chord_one_hots(
        given, pad, pitch_type, inversions_present=present, reduction_present=reduction_present,
        relative=relative, reduction=reduction, use_inversions=use,
    )
    check_eq([int(value) for value in result], expected, "reduced label indices")
    check_eq(len(result), len(given), "number of labels")
    check_eq([int(value) for value in given], indexes, "the given labels were modified")
    if not as_list:
        check_eq(result.dtype, np.dtype(dtype), "dtype")


def transpose_note(case):
    from harmonic_inference.data.note import Note

    pitch_type = case.one_of(th.PITCH_TYPES)
    pitch = case.int(0, th.COUNT[pitch_type] - 1)
    measures = gen.draw_measures(case, 1, 2)
    onset, offset = measures.position(0), measures.position(measures.end)
    note = Note(pitch, case.int(0, 9), onset, measures.level(onset), measures.end, offset,
                measures.level(offset), pitch_type)
    vector = note.to_vec(dur_from_prev=case.int(0, 2), dur_to_next=case.int(0, 2))
    interval = case.sint(-40, 40)
    case.note(f"pitch {pitch} {pitch_type} by {interval}")
    case.nontrivial(interval != 0)
    original = vector.copy()
    given = pitch_type if case.bool() else None
    target = pitch + interval if pitch_type == th.TPC else (pitch + interval) % 12
    if not th.in_range(target, pitch_type):
        case.event("out of range")
        check(raises_value_error(vd.transpose_note_vector, vector, interval, pitch_type=given),
              "a note vector was transposed out of the pitch range")
    else:
        result = vd.transpose_note_vector(vector, interval, pitch_type=given)
        expected = original.copy()
        expected[pitch] = 0
        expected[target] = 1
        check(np.array_equal(result, expected), "transposed note vector differs at "
              f"{list(np.where(np.array(result) != expected)[0])}")
    check(np.array_equal(vector, original), "the given note vector was modified")


def tests():
    return [
        Test("reduce_chord_types", reduce_types, 1200),
        Test("remove_inversions", remove_inversions, 700),
        Test("reduce_one_hots", reduce_one_hots, 900),
        Test("transpose_note_vector", transpose_note, 1500),
    ]
