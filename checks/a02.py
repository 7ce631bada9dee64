"""A02: scale degrees, numerals, intervals and transposition."""
import numpy as np

import harmonic_inference.utils.harmonic_utils as hu
from checks.a01 import raises_value_error
from pbt import theory as th
from pbt.engine import Test, check, check_eq

SCALE = 10
RULE = (
    "Scale degrees (roman upper/lower case and arabic) x accidentals x mode x pitch type, intervals, "
    "applied-numeral chains, pitches and vectors are enumerated or drawn at random; non-trivial: an "
    "accidental, an interval other than 0, or a chain of at least two numerals."
)
ASSUMPTIONS = [
    "Numerals carry accidentals of one kind only (b.. or #..), as in the annotation standard.",
    "MIDI intervals of scale degrees are compared modulo an octave.",
]

DEGREES = [
    (form, number, accidentals, mode, pitch_type)
    for form in ("upper", "lower", "arabic")
    for number in range(1, 8)
    for accidentals in range(-3, 4)
    for mode in th.MODES
    for pitch_type in th.PITCH_TYPES
]


def body(form, number):
    if form == "arabic":
        return str(number)
    numeral = th.NUMERALS[number - 1]
    return numeral if form == "upper" else numeral.lower()


def same(actual, expected, pitch_type, message):
    if pitch_type == th.MIDI:
        check_eq(actual % 12, expected % 12, message)
    else:
        check_eq(actual, expected, message)


def degree_to_interval(case, item):
    form, number, accidentals, mode, pitch_type = item
    string = body(form, number)
    acc = th.accidental_string(accidentals)
    case.note(f"{acc}{string} in {mode} {pitch_type}")
    case.nontrivial(accidentals != 0)
    expected = th.degree_interval(number, accidentals, mode, pitch_type)
    message = f"interval of {acc}{string} in {mode} as {pitch_type}"
    same(hu.get_interval_from_scale_degree(acc + string, True, mode, pitch_type), expected,
         pitch_type, message)
    same(hu.get_interval_from_scale_degree(string + acc, False, mode, pitch_type), expected,
         pitch_type, message + " (suffixed)")
    if form != "arabic":
        same(hu.get_interval_from_numeral(acc + string, mode, pitch_type), expected, pitch_type,
             message + " (numeral)")


INTERVALS = [
    (interval, mode, pitch_type)
    for pitch_type in th.PITCH_TYPES
    for mode in th.MODES
    for interval in (range(-34, 35) if pitch_type == th.TPC else range(-24, 25))
]


def interval_to_degree(case, item):
    interval, mode, pitch_type = item
    case.note(f"{interval} in {mode} {pitch_type}")
    case.nontrivial(interval != 0)
    numeral = hu.get_scale_degree_from_interval(interval, mode, pitch_type)
    plain = numeral.lstrip("#b")
    acc = numeral[: len(numeral) - len(plain)]
    check(plain in th.NUMERALS, f"{numeral} is not a numeral")
    check(len(set(acc)) <= 1, f"{numeral} mixes accidentals")
    if pitch_type == th.MIDI:
        check("b" not in acc, "MIDI intervals are spelled with sharps")
        check(len(acc) <= 1, f"{numeral}: more sharps than needed")
    count = len(acc) if "#" in acc else -len(acc)
    same(th.degree_interval(th.NUMERALS.index(plain) + 1, count, mode, pitch_type), interval,
         pitch_type, f"{numeral} does not denote the interval {interval} in {mode}")
    same(hu.get_interval_from_scale_degree(numeral, True, mode, pitch_type), interval, pitch_type,
         f"round trip of interval {interval} through {numeral}")


def transposition(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    pitch = case.int(0, th.COUNT[pitch_type] - 1)
    first = case.sint(-40, 40)
    case.note(f"{pitch} by {first}, {pitch_type}")
    case.nontrivial(first != 0)
    if pitch_type == th.MIDI:
        result = hu.transpose_pitch(pitch, first, pitch_type)
        check_eq(result, (pitch + first) % 12, "MIDI transposition")
        check_eq(hu.transpose_pitch(result, -first, pitch_type), pitch, "inverse transposition")
        return
    if not th.in_range(pitch + first, th.TPC):
        case.event("rejected")
        check(raises_value_error(hu.transpose_pitch, pitch, first, pitch_type),
              f"TPC {pitch} transposed by {first} leaves the range but was not rejected")
        return
    case.event("accepted")
    result = hu.transpose_pitch(pitch, first, pitch_type)
    check_eq(result, pitch + first, "TPC transposition")
    check_eq(hu.transpose_pitch(result, -first, pitch_type), pitch, "inverse transposition")
    midi = hu.transpose_pitch(th.tpc_to_midi(pitch), hu.tpc_interval_to_midi_interval(first),
                              th.MIDI)
    check_eq(midi, th.tpc_to_midi(result), "TPC and MIDI transposition disagree")


def tpc_intervals(case, interval):
    case.note(str(interval))
    case.nontrivial(interval != 0)
    check_eq(hu.tpc_interval_to_midi_interval(interval), (7 * interval) % 12, f"interval {interval}")


def relative(case):
    """absolute_to_relative is the position of the pitch in the relative label range."""
    pitch_type = case.one_of(th.PITCH_TYPES)
    pitch = case.int(0, th.COUNT[pitch_type] - 1)
    tonic = case.int(0, th.COUNT[pitch_type] - 1)
    is_key_change, pad = case.bool(), case.bool()
    case.note(f"{pitch} relative to {tonic}, {pitch_type}, key_change={is_key_change}, pad={pad}")
    case.nontrivial(pitch != tonic)
    args = dict(is_key_change=is_key_change, pad=pad)
    if pitch_type == th.MIDI:
        check_eq(hu.absolute_to_relative(pitch, tonic, pitch_type, **args), (pitch - tonic) % 12,
                 "relative MIDI pitch")
        return
    low, high = th.relative_bounds(pad and not is_key_change)
    if low <= pitch - tonic < high:
        case.event("accepted")
        check_eq(hu.absolute_to_relative(pitch, tonic, pitch_type, **args), pitch - tonic - low,
                 "relative TPC pitch")
    else:
        case.event("rejected")
        check(raises_value_error(hu.absolute_to_relative, pitch, tonic, pitch_type, **args),
              "relative TPC pitch outside of the range was not rejected")


def chain(case):
    """Applied keys: V/ii etc., innermost last."""
    mode = case.one_of(th.MODES)
    tonic = case.int(8, 22)
    links = case.list(
        lambda c: (c.int(1, 7), c.bool(), c.weighted([(6, 0), (1, 1), (1, -1)])), 1, 3
    )
    string = "/".join(
        th.accidental_string(acc) + (th.NUMERALS[n - 1].lower() if low else th.NUMERALS[n - 1])
        for n, low, acc in links
    )
    case.note(f"{string} in {tonic} {mode}")
    case.nontrivial(len(links) > 1 or links[0][2] != 0)
    expected_tonic, expected_mode = tonic, mode
    valid = True
    for number, low, acc in reversed(links):
        expected_tonic += th.degree_interval(number, acc, expected_mode, th.TPC)
        valid = valid and th.in_range(expected_tonic, th.TPC)
        expected_mode = th.MINOR if low else th.MAJOR
    midi = hu.decode_relative_keys(string, th.tpc_to_midi(tonic), mode, th.MIDI)
    check_eq((midi[0], midi[1]), (th.tpc_to_midi(expected_tonic), expected_mode),
             f"MIDI key of {string} in {mode}")
    if valid:
        tpc = hu.decode_relative_keys(string, tonic, mode, th.TPC)
        check_eq((tpc[0], tpc[1]), (expected_tonic, expected_mode), f"TPC key of {string}")
        case.event("in range")
    else:
        case.event("out of range")
        check(raises_value_error(hu.decode_relative_keys, string, tonic, mode, th.TPC),
              "applied key outside of the TPC range was not rejected")


def vector(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    length = th.COUNT[pitch_type]
    ones = [i for i in range(length) if case.bool(0.25)]
    interval = case.sint(-length - 10, length + 10)
    values = [1 if i in ones else 0 for i in range(length)]
    case.note(f"{ones} by {interval} {pitch_type}")
    case.nontrivial(interval != 0 and ones)
    source = np.array(values)
    result = list(hu.transpose_chord_vector(source, interval, pitch_type))
    if pitch_type == th.MIDI:
        expected = sorted((one + interval) % 12 for one in ones)
    else:
        expected = sorted(one + interval for one in ones if 0 <= one + interval < length)
    check_eq(len(result), length, "length of the transposed vector")
    check_eq([i for i, value in enumerate(result) if value], expected, "transposed vector")
    check(set(int(v) for v in result) <= {0, 1}, "transposed vector is not binary")
    check_eq(list(source), values, "the input vector was modified")


def tests():
    return [
        Test("degree_to_interval", degree_to_interval, space=DEGREES),
        Test("interval_to_degree", interval_to_degree, space=INTERVALS),
        Test("transpose_pitch", transposition, 4000),
        Test("tpc_interval_to_midi", tpc_intervals, space=list(range(-40, 41))),
        Test("absolute_to_relative", relative, 6000),
        Test("applied_key_chain", chain, 3000),
        Test("transpose_vector", vector, 3000),
    ]
