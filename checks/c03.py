"""C03: every chord lasts until the next one (or the end of the piece)."""
import pandas as pd
import harmonic_inference.utils.corpus_utils as cu
from pbt import corpus, gen
from pbt.corpus import values
from pbt.engine import Test, check, check_eq

RULE = (
    "Corpora of 1-3 pieces with repeats, incomplete and split measures, with 1-8 chords each at "
    "increasing positions (some simultaneous). Non-trivial: a chord lasts over a measure's end."
)
ASSUMPTIONS = ["The chords of a piece are in order, in measures that remain without the repeats."]


def chords(case):
    ids = corpus.draw_file_ids(case)
    scores = {file_id: corpus.draw_score(case, 1, 6, long=0.04) for file_id in ids}
    raw = case.bool(0.15)
    if raw:
        measures = corpus.concat([score.measures_df() for score in scores.values()], ids,
                                 "measure_id")
    else:
        measures = corpus.played_df(scores)
    rows, expected = [], []
    total = {}
    for file_id, score in scores.items():
        times = sorted(case.list(lambda c, m=score.played: gen.draw_time(c, m), 0, 7))
        if not times and case.bool(0.8):
            times = [gen.draw_time(case, score.played)]
        if times:
            total[file_id] = score.played.end - times[0]
        for index, time in enumerate(times):
            mc, beat = score.played.position(time)
            last = index + 1 == len(times)
            end = score.played.end if last else times[index + 1]
            position = score.played.position(end)
            rows.append((file_id, index, mc, beat, score.played.by_mc[mc]["timesig"]))
            expected.append((position[0], position[1], end - time))
            case.nontrivial(position[0] != mc)
    if not rows:
        case.discard()
    case.note(f"{rows} in {[[tuple(row.values()) for row in s.played.rows] for s in scores.values()]}")
    case.event(f"{len(scores)} files")
    df = pd.DataFrame(rows, columns=["file_id", "chord_id", "mc", "mn_onset", "timesig"])
    df["mc"] = df["mc"].astype("Int64")
    df = df.set_index(["file_id", "chord_id"])
    before = df.copy()
    result = cu.add_chord_metrical_data(df, measures)
    check(df.equals(before), "the given data frame was changed")
    check(result[list(df.columns)].equals(df), "the other columns were changed")
    check_eq(set(result.columns) - set(df.columns), {"mc_next", "mn_onset_next", "duration"},
             "new columns")
    got = list(zip(values(result["mc_next"]), values(result["mn_onset_next"]),
                   values(result["duration"])))
    check_eq(got, expected, "next position and duration of the chords")
    for file_id, duration in total.items():
        check_eq(sum(result.loc[file_id]["duration"]), duration, "total duration of the chords")


SCALE = 2


def tests():
    return [Test("chord_metrical_data", chords, 900)]
