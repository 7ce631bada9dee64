"""A03: the chord and key label spaces are bijections in every configuration."""
import harmonic_inference.utils.harmonic_utils as hu
from checks.a01 import raises_value_error
from harmonic_inference.data.chord import Chord, get_chord_vector_length
from harmonic_inference.data.key import get_key_change_vector_length
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq

SCALE = 8
RULE = (
    "Configurations (pitch type, inversions, relative, padded, chord type reduction incl. arbitrary "
    "ones) are drawn at random; for each, the whole label space is enumerated against a reference "
    "enumeration. Non-trivial: relative, padded, reduced or without inversions."
)
ASSUMPTIONS = ["The label order is chord type (enum order), then root, then inversion."]


def configuration(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    use_inversions = not case.bool(0.4)
    relative = case.bool()
    pad = case.bool(0.4)
    name, reduction = th.draw_reduction(case)
    if name == "random" and case.bool(0.3):
        reduction = th.draw_nonidempotent_reduction(case)
    case.note(
        f"{pitch_type} inversions={use_inversions} relative={relative} pad={pad} reduction={name}"
    )
    if name == "random":
        case.note({k.name: v.name for k, v in reduction.items()})
    case.nontrivial(relative or pad or reduction is not None or not use_inversions)
    case.event(name)
    return pitch_type, use_inversions, relative, pad, reduction


def chord_space(case):
    pitch_type, use_inversions, relative, pad, reduction = configuration(case)
    space = th.chord_space(pitch_type, use_inversions, relative, pad, reduction)
    kwargs = gen.sparse(case, dict(relative=relative, pad=pad, reduction=reduction),
                        relative=False, pad=False, reduction=None)
    inversions = gen.sparse(case, dict(use_inversions=use_inversions), use_inversions=True)
    one_inversion = gen.sparse(case, dict(use_inversion=use_inversions), use_inversion=True)

    labels = hu.get_chord_label_list(pitch_type, **inversions, **kwargs)
    check_eq(len(labels), len(space), "number of chord labels")
    check_eq(len(set(labels)), len(labels), "chord labels are not unique")
    decoded = hu.get_chord_from_one_hot_index(
        slice(len(labels)), pitch_type, **inversions, **kwargs
    )
    check_eq([(r, t, i) for r, t, i in decoded], space, "decoded label space")
    lengths = gen.sparse(
        case, dict(one_hot=True, relative=relative, use_inversions=use_inversions, pad=pad,
                   reduction=reduction),
        one_hot=True, relative=True, use_inversions=True, pad=False, reduction=None)
    check_eq(get_chord_vector_length(pitch_type, **lengths), len(space), "one-hot vector length")
    chord = Chord(0, 0, 0, th.MAJOR, th.TYPES[0], 0, (1, 0), 0, (2, 0), 0, 1, pitch_type)
    check_eq(chord.get_chord_vector_length(**lengths), len(space), "one-hot vector length (method)")

    low = th.relative_bounds(pad)[0] if relative and pitch_type == th.TPC else 0
    step = case.int(1, 7)
    for index in range(case.draw(step - 1), len(space), step):
        root, chord_type, inversion = space[index]
        if relative:
            root_name = str(root)
        else:
            root_name = th.MIDI_NAMES[root] if pitch_type == th.MIDI else th.spell(root)
        expected = f"{root_name}:{th.TYPE_STRING[chord_type]}"
        if use_inversions:
            expected += f", inv:{inversion}"
        check_eq(labels[index], expected, f"label {index}")
        single = hu.get_chord_from_one_hot_index(
            index, pitch_type, **inversions, **kwargs
        )
        check_eq(tuple(single), (root, chord_type, inversion), f"decoding of {index}")
        # Every chord type which is reduced to this one has this index
        sources = [
            t for t in th.TYPES
            if reduction is None and t == chord_type
            or reduction is not None and reduction[t] == chord_type
        ]
        for source in sources:
            encoded = hu.get_chord_one_hot_index(
                source, root - low, pitch_type,
                **gen.sparse(case, dict(inversion=inversion), inversion=0), **one_inversion, **kwargs
            )
            check_eq(int(encoded), index, f"index of {source} {root} {inversion}")


def chord_rejects(case):
    """Roots and inversions outside of the label space are rejected."""
    pitch_type, use_inversions, relative, pad, reduction = configuration(case)
    kwargs = dict(relative=relative, pad=pad, reduction=reduction)
    chord_type = case.one_of(th.TYPES)
    reduced = chord_type if reduction is None else reduction[chord_type]
    if relative and pitch_type == th.TPC:
        low, high = th.relative_bounds(pad)
        count = high - low
    else:
        count = th.COUNT[pitch_type]
    if case.bool():
        root = case.one_of([-1, count, count + case.int(1, 40), -1 - case.int(1, 40)])
        inversion = 0
    else:
        root = case.int(0, count - 1)
        inversion = case.one_of([-1, th.inversions(reduced), th.inversions(reduced) + 1])
        if not use_inversions:
            case.event("inversion ignored")
            index = hu.get_chord_one_hot_index(
                chord_type, root, pitch_type, inversion=inversion, use_inversion=False, **kwargs
            )
            other = hu.get_chord_one_hot_index(
                chord_type, root, pitch_type, inversion=0, use_inversion=False, **kwargs
            )
            check_eq(int(index), int(other), "the inversion must not matter")
            return
    case.note(f"{chord_type} root={root} inversion={inversion}")
    check(
        raises_value_error(
            hu.get_chord_one_hot_index, chord_type, root, pitch_type, inversion=inversion,
            use_inversion=use_inversions, **kwargs
        ),
        "an invalid chord was given an index",
    )


KEY_CONFIGS = [(p, r) for p in th.PITCH_TYPES for r in (False, True)]


def key_space(case, item):
    pitch_type, relative = item
    case.note(f"{pitch_type} relative={relative}")
    case.nontrivial()
    if relative and pitch_type == th.TPC:
        tonics = list(range(th.REL_MIN, th.REL_MAX))
    else:
        tonics = list(range(th.COUNT[pitch_type]))
    space = [(tonic, mode) for mode in th.MODES for tonic in tonics]
    labels = hu.get_key_label_list(pitch_type, relative=relative)
    check_eq(len(labels), len(space), "number of key labels")
    check_eq(len(set(labels)), len(labels), "key labels are not unique")
    decoded = hu.get_key_from_one_hot_index(slice(len(labels)), pitch_type, relative=relative)
    check_eq([(t, m) for t, m in decoded], space, "decoded key space")
    if relative:
        check_eq(get_key_change_vector_length(pitch_type, one_hot=True), len(space),
                 "one-hot key change vector length")
    for index, (tonic, mode) in enumerate(space):
        check_eq(tuple(hu.get_key_from_one_hot_index(index, pitch_type, relative=relative)),
                 (tonic, mode), f"decoding of key {index}")
        if relative:
            name = str(tonic)
        else:
            name = th.MIDI_NAMES[tonic] if pitch_type == th.MIDI else th.spell(tonic)
            check_eq(int(hu.get_key_one_hot_index(mode, tonic, pitch_type)), index,
                     f"index of {tonic} {mode}")
        name = name.lower() if mode == th.MINOR else name
        check_eq(labels[index], f"{name}:{mode}", f"key label {index}")
    if not relative:
        for tonic in (-1, -5, len(tonics), len(tonics) + 3):
            for mode in th.MODES:
                check(raises_value_error(hu.get_key_one_hot_index, mode, tonic, pitch_type),
                      f"key with tonic {tonic} was given an index")


def relative_to(case):
    """Relative labels rendered with respect to a tonic name the absolute root."""
    pitch_type = case.one_of(th.PITCH_TYPES)
    tonic = case.int(0, th.COUNT[pitch_type] - 1)
    pad = case.bool()
    case.note(f"{pitch_type} relative to {tonic} pad={pad}")
    case.nontrivial(tonic != th.C_OF[pitch_type])
    if pitch_type == th.TPC:
        roots = list(range(*th.relative_bounds(pad)))
        tonics = list(range(th.REL_MIN, th.REL_MAX))
    else:
        roots = tonics = list(range(12))

    def name(root):
        if pitch_type == th.MIDI:
            return th.MIDI_NAMES[(root + tonic) % 12]
        return th.spell(root + tonic) if th.in_range(root + tonic, th.TPC) else str(root)

    labels = hu.get_chord_label_list(
        pitch_type, use_inversions=False, relative=True, relative_to=tonic, pad=pad
    )
    check_eq(labels, [f"{name(root)}:{th.TYPE_STRING[t]}" for t in th.TYPES for root in roots],
             "chord labels relative to a tonic")
    labels = hu.get_key_label_list(pitch_type, relative=True, relative_to=tonic)
    check_eq(
        labels,
        [
            f"{name(root).lower() if mode == th.MINOR else name(root)}:{mode}"
            for mode in th.MODES for root in tonics
        ],
        "key labels relative to a tonic",
    )


def tests():
    return [
        Test("chord_label_space", chord_space, 300, 4000),
        Test("chord_index_rejects", chord_rejects, 3000),
        Test("key_label_space", key_space, space=KEY_CONFIGS),
        Test("labels_relative_to_tonic", relative_to, 200, 2000),
    ]
