"""B05: notes, chords and keys survive copying, conversion, comparison and merging."""
from fractions import Fraction

from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note
from checks.b01 import draw_chord, draw_key
from pbt import gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq

SCALE = 8
RULE = "Random notes, chords and keys of both pitch types; non-trivial: a conversion or a change."
ASSUMPTIONS = ["MIDI to TPC conversion may choose any spelling of the pitch class."]


def draw_note(case, pitch_type):
    measures = gen.draw_measures(case, 1, 3)
    start = gen.draw_time(case, measures)
    end = min(start + Fraction(case.int(0, 16), 8), measures.end)
    onset, offset = measures.position(start), measures.position(end)
    tpc, midi = gen.draw_spelled_pitch(case, 0, 119)
    return Note(
        tpc + 15 if pitch_type == th.TPC else midi % 12, midi // 12, onset, measures.level(onset),
        end - start, offset, measures.level(offset), pitch_type,
        mc_onset=onset[1] - measures.by_mc[onset[0]]["mc_offset"] if case.bool() else None,
    )


FIELDS = {
    Note: ["pitch_class", "octave", "onset", "onset_level", "duration", "offset", "offset_level",
           "pitch_type", "mc_onset"],
    Chord: ["root", "bass", "key_tonic", "key_mode", "chord_type", "inversion", "onset",
            "onset_level", "offset", "offset_level", "duration", "pitch_type", "suspension"],
    Key: ["relative_tonic", "local_tonic", "global_tonic", "relative_mode", "local_mode",
          "global_mode", "tonic_type"],
}
PITCHES = {Note: ["pitch_class"], Chord: ["root", "bass", "key_tonic"],
           Key: ["relative_tonic", "local_tonic", "global_tonic"]}
TYPE_FIELD = {Note: "pitch_type", Chord: "pitch_type", Key: "tonic_type"}


def draw_object(case, pitch_type):
    kind = case.one_of([Note, Chord, Key])
    if kind is Note:
        return draw_note(case, pitch_type)
    if kind is Chord:
        chord = draw_chord(case, pitch_type)
        chord.suspension = case.one_of([None, "4", "b9"])
        return chord
    return draw_key(case, pitch_type)


def values(item):
    return {field: getattr(item, field) for field in FIELDS[type(item)]}


def round_trip(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    item = draw_object(case, pitch_type)
    kind = type(item)
    case.note(repr(item))
    case.nontrivial()
    before = values(item)
    as_dict = item.to_dict()
    check_eq(as_dict, before, "dictionary of all fields")
    copy = kind(**as_dict)
    check_eq(values(copy), before, "object made from its dictionary")
    check(copy == item and item == copy, "a copy is not equal to the original")
    # Changing any single field makes it different
    field = case.one_of(FIELDS[kind])
    changed = dict(before)
    changed[field] = case.one_of(["something else", 77, (99, Fraction(1, 3))])
    other = kind(**changed)
    check(not other == item, f"objects differing in {field} are equal")
    check(other != item, f"objects differing in {field} are not unequal")
    for stranger in [None, 3, "x", draw_object(case, pitch_type)]:
        if type(stranger) is not kind:
            check(not item == stranger, "an object of another type is equal")


def convert(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    target = case.one_of(th.PITCH_TYPES)
    item = draw_object(case, pitch_type)
    kind = type(item)
    case.note(f"{item!r} to {target}")
    case.nontrivial(target != pitch_type)
    before = values(item)
    result = item.to_pitch_type(target)
    check(result is not item, "the conversion must be a copy")
    check_eq(values(item), before, "the original was changed")
    check_eq(getattr(result, TYPE_FIELD[kind]), target, "pitch type of the result")
    after = values(result)
    for field, value in before.items():
        if field == TYPE_FIELD[kind]:
            continue
        if field in PITCHES[kind] and target != pitch_type:
            if target == th.MIDI:
                check_eq(after[field], th.tpc_to_midi(value), f"{field} as MIDI")
            else:
                check(th.in_range(after[field], th.TPC), f"{field} outside of the TPC range")
                check_eq(th.tpc_to_midi(after[field]), value, f"{field} as TPC")
        else:
            check_eq(after[field], value, f"{field} after the conversion")
    if kind is Note:
        check_eq(result.get_midi_note_number(), item.get_midi_note_number(), "MIDI note number")


def repeated_chord(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    first = draw_chord(case, pitch_type)
    first.suspension = case.one_of([None, "4"])
    second = draw_chord(case, pitch_type)
    second.suspension = case.one_of([None, "4"])
    same = case.subset(["root", "chord_type", "inversion", "suspension", "key_tonic", "key_mode"],
                       0.75)
    for field in same:
        setattr(second, field, getattr(first, field))
    if case.bool(0.1):
        second.pitch_type = case.one_of(th.PITCH_TYPES)
    inversion, suspension = case.bool(), case.bool()
    case.note(f"{first!r} / {second!r} inversion={inversion} suspension={suspension}")
    fields = ["pitch_type", "root", "chord_type"] + ["inversion"] * inversion + ["suspension"] * suspension
    expected = all(getattr(first, field) == getattr(second, field) for field in fields)
    case.event("repeated" if expected else "different")
    case.nontrivial(expected)
    for a, b in [(first, second), (second, first)]:
        check_eq(bool(a.is_repeated(b, use_inversion=inversion, use_suspension=suspension)),
                 expected, "is_repeated")
    check(first.is_repeated(first, use_inversion=inversion, use_suspension=suspension),
          "a chord is not a repeat of itself")
    check(not first.is_repeated(None), "repeat of None")
    before = values(first)
    merged = Chord(**before)
    merged.merge_with(second)
    expected = dict(before, offset=second.offset, offset_level=second.offset_level,
                    duration=first.duration + second.duration)
    check_eq(values(merged), expected, "merged chord")


def repeated_key(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    first, second = draw_key(case, pitch_type), draw_key(case, pitch_type)
    for field in case.subset(FIELDS[Key], 0.8):
        setattr(second, field, getattr(first, field))
    relative = case.bool()
    prefix = "relative" if relative else "local"
    expected = all(getattr(first, f"{prefix}_{part}") == getattr(second, f"{prefix}_{part}")
                   for part in ["tonic", "mode"])
    case.note(f"{first!r} / {second!r} relative={relative}")
    case.event("repeated" if expected else "different")
    case.nontrivial(first != second)
    for method in ["is_repeated", "equals"]:
        check_eq(bool(getattr(first, method)(second, use_relative=relative)), expected, method)
        check_eq(bool(getattr(second, method)(first, use_relative=relative)), expected, method)
        other = first.to_pitch_type(th.MIDI if pitch_type == th.TPC else th.TPC)
        check(not getattr(first, method)(other, use_relative=relative),
              "keys of different pitch types are equal")
        check(not getattr(first, method)(None, use_relative=relative), "a key equals None")


def tests():
    return [
        Test("dict_and_equality", round_trip, 1500),
        Test("pitch_type_conversion", convert, 1500),
        Test("chord_repeats_and_merging", repeated_chord, 1200),
        Test("key_repeats", repeated_key, 1200),
    ]
