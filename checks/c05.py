"""C05: lengths of ranges, proportions and metrical levels agree with the measures."""
from fractions import Fraction

import pandas as pd
from harmonic_inference.utils import rhythmic_utils as ru
from pbt import corpus, gen
from pbt.engine import Test, check, check_eq

RULE = (
    "Random pieces (incomplete, split measures, measures removed with a repeat, changing meters) and "
    "positions in them, in any order. Non-trivial: the range crosses a measure's end."
)
ASSUMPTIONS = ["A position is inside of its measure (or at the end of the last one)."]


def draw_piece(case):
    score = corpus.draw_score(case, 1, 8, long=0.03)
    played = score.played
    df = corpus.played_df({0: score}).loc[0]
    return played, df


def range_length(case):
    played, df = draw_piece(case)
    times = [gen.draw_time(case, played, include_end=True) for _ in range(3)]
    positions = [played.position(time) for time in times]
    case.note(f"{positions} in {[tuple(row.values()) for row in played.rows]}")
    case.nontrivial(positions[0][0] != positions[1][0])
    # A measure's end is the same time as the next measure's beginning
    for index, (mc, beat) in enumerate(positions):
        row = played.by_mc[mc]
        place = played.rows.index(row)
        if place > 0 and beat == row["mc_offset"] and case.bool(0.3):
            previous = played.rows[place - 1]
            positions[index] = (previous["mc"], previous["mc_offset"] + previous["act_dur"])
            case.event("position at a measure's end")
    for i in range(3):
        for j in range(3):
            expected = times[j] - times[i]
            # (a measure's end and the following beginning are ordered, with length 0)
            check_eq(ru.get_range_length(positions[i], positions[j], df), expected,
                     f"length from {positions[i]} to {positions[j]}")


def proportion(case):
    played, df = draw_piece(case)
    start, end = gen.draw_time(case, played), gen.draw_time(case, played, include_end=True)
    start, end = min(start, end), max(start, end)
    if start == end:
        end = played.end
    time = gen.draw_time(case, played)
    duration = Fraction(case.int(0, 24), 16)
    position = played.position(time)
    note = pd.Series(dict(mc=position[0], mn_onset=position[1], duration=duration))
    case.note(f"note {position} +{duration} in range {start}-{end} of "
              f"{[tuple(row.values()) for row in played.rows]}")
    case.nontrivial(not start <= time < end or position[0] != played.position(start)[0])
    case.event("before" if time < start else "inside" if time < end else "after")
    length = end - start
    kwargs = {"range_len": length} if case.bool() else {}
    result = ru.get_rhythmic_info_as_proportion_of_range(
        note, played.position(start), played.position(end), df, **kwargs
    )
    check_eq(tuple(result), ((time - start) / length, (time + duration - start) / length,
                             duration / length), "onset, offset, duration")


def level(case):
    numerator, denominator = case.int(1, 24), case.one_of([4, 8, 2, 16, 1, 32])
    timesig = f"{numerator}/{denominator}"
    beat = Fraction(case.int(0, 200), case.one_of([1, 2, 4, 8, 16, 32, 64, 3, 6, 12, 24, 48, 5, 7]))
    case.note(f"{timesig} beat {beat}")
    expected = gen.metrical_level(beat, timesig)
    case.nontrivial(0 < expected < 3)
    case.event(f"level {expected}")
    check_eq(ru.get_metrical_level(beat, pd.Series(dict(timesig=timesig))), expected, "level")
    measure, beat_length, sub_beat = ru.get_metrical_level_lengths(timesig)
    check_eq(measure, Fraction(numerator, denominator), "measure length")
    compound = numerator % 3 == 0 and numerator > 3
    check_eq(beat_length, Fraction(3 if compound else 1, denominator), "beat length")
    check_eq(beat_length / sub_beat, 3 if compound else 2, "sub beats per beat")
    check((measure / beat_length).denominator == 1, "a measure has a whole number of beats")


def tests():
    return [
        Test("range_length", range_length, 1500),
        Test("proportion_of_range", proportion, 2000),
        Test("metrical_level", level, 10000),
    ]
