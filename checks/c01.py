"""C01: removing the repeats keeps exactly one pass through every piece."""
import pandas as pd
import harmonic_inference.utils.corpus_utils as cu
from pbt import corpus
from pbt.corpus import values
from pbt.engine import Test, check, check_eq

RULE = (
    "Corpora of 1-3 pieces of 1-8 (rarely up to 64) measures with repeated sections, 2-3 endings of "
    "1-2 (rarely up to 24) measures and all kinds of final measures. Non-trivial: the corpus has a "
    "repeat."
)
ASSUMPTIONS = ["No jumps besides repeats and alternate endings (a Fine inside of a piece ends it)."]


def describe(scores):
    return {file_id: list(zip([row["mc"] for row in score.all.rows], score.nexts))
            for file_id, score in scores.items()}


def repeats(case):
    scores, df = corpus.draw_corpus_measures(case, long=0.04)
    case.note(f"{describe(scores)}")
    case.nontrivial(any(score.has_repeats for score in scores.values()))
    case.event(f"{len(scores)} files")
    before = df.copy()
    with_unreachable = cu.remove_repeats(df, remove_unreachable=False)
    result = cu.remove_repeats(df)
    check(df.equals(before), "the given data frame was changed")
    other = [column for column in df.columns if column != "next"]
    check_eq(list(result.columns), list(df.columns), "columns")
    expected_index = []
    expected_next = []
    for file_id, score in scores.items():
        mcs = [row["mc"] for row in score.played.rows]
        position = {row["mc"]: i for i, row in enumerate(score.all.rows)}
        expected_index += [(file_id, position[mc]) for mc in mcs]
        expected_next += mcs[1:] + [None]
        # Follow the next pointers of the unfiltered data frame
        part = with_unreachable.loc[file_id]
        check_eq(len(part), len(score.all.rows), "measures with unreachable ones")
        pointer = dict(zip(part["mc"], values(part["next"])))
        walk, current = [], mcs[0]
        while current is not None and len(walk) <= len(pointer):
            walk.append(int(current))
            current = pointer[current]
        check_eq(walk, mcs, "walk through the measures (unreachable ones kept)")
    check_eq(list(result.index), expected_index, "measures kept")
    check_eq(values(result["next"]), expected_next, "next measures")
    check(result[other].equals(df.loc[expected_index, other]), "other columns were changed")
    check_eq(str(result["next"].dtype), "Int64", "type of next")
    check_eq(str(result["mc"].dtype), "Int64", "type of mc")
    check(with_unreachable[other].equals(df[other]), "other columns were changed")


def unmatched(case):
    scores, _ = corpus.draw_corpus_measures(case, 5)
    measures = corpus.played_df(scores)
    name = case.one_of(["note_id", "chord_id"])
    rows, keep = [], []
    counters = {}
    ids = sorted(set(scores) | {9})
    for file_id in ids:
        mcs = case.list(lambda c: c.int(0, 10), 0, 6)
        for mc in mcs if case.bool(0.2) else sorted(mcs):
            ok = file_id in scores and mc in scores[file_id].played.by_mc
            if ok:
                keep.append(len(rows))
            rows.append((file_id, counters.get(file_id, 0), mc, case.int(0, 99)))
            counters[file_id] = counters.get(file_id, 0) + 1
    if not rows:
        case.discard()
    df = pd.DataFrame(rows, columns=["file_id", name, "mc", "extra"])
    df["mc"] = df["mc"].astype("Int64")
    df = df.set_index(["file_id", name])
    case.note(f"{rows} measures "
              f"{ {file_id: list(score.played.by_mc) for file_id, score in scores.items()} }")
    case.nontrivial(0 < len(keep) < len(rows))
    before = df.copy()
    result = cu.remove_unmatched(df, measures)
    check(df.equals(before), "the given data frame was changed")
    kept = [tuple(row) for row in result.reset_index()[["file_id", name, "mc", "extra"]]
            .itertuples(index=False)]
    if rows != sorted(rows, key=lambda row: (row[0], row[2])):
        kept.sort()  # The order is only kept for rows in score order
    check_eq(kept, [rows[i] for i in keep], "rows kept")


SCALE = 2


def tests():
    return [Test("repeats", repeats, 900), Test("unmatched", unmatched, 700)]
