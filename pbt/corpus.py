"""Generators of corpus data (files with measures, repeats, notes, ties, chords) with references."""
from fractions import Fraction

import pandas as pd

from pbt import gen


class Score:
    """
    A piece: `all` are its Measures in score order, `nexts` the next tuples as in the corpus, and
    `played` the Measures that remain when no repeat is taken.
    """

    def __init__(self, every, nexts, played):
        self.all, self.nexts, self.played = every, nexts, played

    def measures_df(self):
        df = self.all.df()
        df["next"] = pd.Series(self.nexts, dtype=object)
        df["mc"] = df["mc"].astype("Int64")
        return df.drop("start", axis=1)


def draw_score(case, low=1, high=8, repeats=True, long=0.0):
    longest_ending = 2
    if long and case.bool(long):
        # A whole movement, with endings of many measures
        low, high, longest_ending = 4 * high, 8 * high, 3 * high
    every = gen.draw_measures(case, low, high, mean=0.6 * high)
    rows = every.rows
    count = len(rows)
    mcs = [row["mc"] for row in rows]
    nexts = [[mc] for mc in mcs[1:]] + [[]]
    played = []
    has_repeats = False
    index = 0
    while index < count:
        left = count - index
        kind = case.weighted([(4, "plain"), (3, "repeat"), (3, "volta")]) if repeats else "plain"
        if kind == "volta" and left < 3:
            kind = "repeat"
        if kind == "volta":
            body = case.int(1, min(2, left - 2))
            start = index
            index += body
            played += range(start, index)
            endings = []
            for _ in range(case.int(2, 3)):
                room = count - index
                if room == 0:
                    break
                length = case.int(1, min(longest_ending, room))
                endings.append(list(range(index, index + length)))
                index += length
            nexts[start + body - 1] = [mcs[ending[0]] for ending in endings]
            for ending in endings[:-1]:
                nexts[ending[-1]] = [mcs[start]]
            if len(endings) > 1:
                has_repeats = True
            played += endings[-1]
            continue
        length = case.int(1, min(3, left))
        start = index
        index += length
        played += range(start, index)
        if kind == "repeat" and index < count:
            has_repeats = True
            nexts[index - 1] = [mcs[start], mcs[index]]
            if case.bool(0.2):
                nexts[index - 1] = [mcs[start], mcs[start], mcs[index]]
    final = case.weighted([(3, "empty"), (2, "end"), (2, "repeat"), (1, "da capo")])
    start = case.one_of(mcs)
    nexts[-1] = {"empty": [], "end": [-1], "repeat": [start, -1], "da capo": [start]}[final]
    nexts = [tuple(case.shuffled(options)) for options in nexts]
    score = Score(every, nexts, gen.Measures([dict(rows[i]) for i in played]))
    score.has_repeats = has_repeats
    return score


def draw_file_ids(case, low=1, high=3):
    ids, current = [], case.one_of([0, 0, 2])
    for _ in range(case.size(low, high)):
        ids.append(current)
        current += case.one_of([1, 1, 3])
    return ids


def concat(dfs, ids, name):
    return pd.concat(dfs, keys=ids, axis=0, names=["file_id", name])


def draw_corpus_measures(case, high=8, long=0.0):
    ids = draw_file_ids(case)
    scores = {file_id: draw_score(case, 1, high, long=long) for file_id in ids}
    df = concat([scores[file_id].measures_df() for file_id in ids], ids, "measure_id")
    return scores, df


def played_df(scores):
    """The measures data frame after removing the repeats."""
    dfs = []
    for score in scores.values():
        df = score.played.df().drop("start", axis=1)
        df["mc"] = df["mc"].astype("Int64")
        df["next"] = pd.array(
            [row["mc"] for row in score.played.rows[1:]] + [pd.NA], dtype="Int64"
        )
        dfs.append(df)
    return concat(dfs, list(scores), "measure_id")


def values(series):
    """A column as a list, with None for every null."""
    return [None if value is pd.NA or value is None or value != value else value
            for value in series]


def offset_position(measures, start, duration):
    """
    The offset position of a note: the start of the next measure at a measure's end, but in (or
    beyond) the last measure where there is none.
    """
    end = start + duration
    if end >= measures.end:
        last = measures.rows[-1]
        return (last["mc"], last["mc_offset"] + end - last["start"])
    return measures.position(end)


def mc_onset(measures, position):
    return position[1] - measures.by_mc[position[0]]["mc_offset"]


def frac(value):
    return Fraction(value)


def keep_text_readers():
    """
    PyPy aborts the process when a pandas TextReader is garbage collected (an incompatibility of
    the two, see DESIGN.md), so keep every reader alive.
    """
    from pandas._libs import parsers  # pylint: disable=import-outside-toplevel

    original = parsers.TextReader
    if getattr(original, "_verif_keep", False):
        return
    alive = []

    def text_reader(*args, **kwargs):
        reader = original(*args, **kwargs)
        alive.append(reader)
        return reader

    text_reader._verif_keep = True
    parsers.TextReader = text_reader


keep_text_readers()
