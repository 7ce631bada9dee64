"""Generators of musical material (measures, notes, chords, keys) with reference positions."""
import contextlib
import io
import logging
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path

import pandas as pd

from pbt import theory as th

logging.disable(logging.CRITICAL)

TIME_SIGNATURES = ["4/4", "3/4", "2/4", "6/8", "2/2", "9/8", "3/8", "12/8", "5/4", "6/4", "1/4", "4/8"]
GRID = [Fraction(1, 4), Fraction(1, 8), Fraction(1, 16), Fraction(1, 12), Fraction(1, 24)]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    """A folder that is removed afterwards."""
    folder = Path(tempfile.mkdtemp(prefix="verif-scratch-"))
    try:
        yield folder
    finally:
        shutil.rmtree(folder)


@contextlib.contextmanager
def logged(level=logging.DEBUG):
    """The messages that are logged meanwhile."""
    messages, root = [], logging.getLogger()

    class Keep(logging.Handler):
        def emit(self, record):
            messages.append(record.getMessage())

    handlers, old = root.handlers, root.level
    root.handlers = [Keep()]
    root.setLevel(level)
    logging.disable(logging.NOTSET)
    try:
        yield messages
    finally:
        logging.disable(logging.CRITICAL)
        root.handlers = handlers
        root.setLevel(old)


def metrical_level(beat, timesig):
    """Reference: 3 downbeat, 2 beat, 1 sub-beat, 0 lower; compound meters have dotted beats."""
    numerator, denominator = (int(part) for part in timesig.split("/"))
    unit = Fraction(1, denominator)
    if numerator % 3 == 0 and numerator != 3:
        beat_length, sub_beat = 3 * unit, unit
    else:
        beat_length, sub_beat = unit, unit / 2

    def on(length):
        return (beat / length).denominator == 1

    return 3 if on(numerator * unit) else 2 if on(beat_length) else 1 if on(sub_beat) else 0


class Measures:
    """
    Measures in playing order: mc, timesig, act_dur, mc_offset, absolute start. A position is
    (mc, beat), with the beat counted from the last downbeat (i.e. including mc_offset).
    """

    def __init__(self, rows):
        self.rows = rows
        start = Fraction(0)
        for row in rows:
            row["start"] = start
            start += row["act_dur"]
        self.end = start
        self.by_mc = {row["mc"]: row for row in rows}

    def df(self, last=None):
        nexts = [row["mc"] for row in self.rows[1:]] + [last]
        return pd.DataFrame(
            {
                "mc": [row["mc"] for row in self.rows],
                "mn": [row["mn"] for row in self.rows],
                "timesig": [row["timesig"] for row in self.rows],
                "act_dur": [row["act_dur"] for row in self.rows],
                "mc_offset": [row["mc_offset"] for row in self.rows],
                "start": [row["start"] for row in self.rows],
                "next": pd.Series(nexts, dtype=object),
            }
        )

    def time(self, position):
        mc, beat = position
        row = self.by_mc[mc]
        return row["start"] + beat - row["mc_offset"]

    def position(self, time):
        """The position of an absolute time; the end of the piece is in the last measure."""
        for row in reversed(self.rows):
            if time >= row["start"]:
                return (row["mc"], row["mc_offset"] + time - row["start"])
        raise ValueError(time)

    def level(self, position):
        return metrical_level(position[1], self.by_mc[position[0]]["timesig"])


def draw_measures(case, low=1, high=5, first_mc=None, uneven=True, mean=None):
    count = case.size(low, high, mean)
    first = case.one_of([1, 0, 3]) if first_mc is None else first_mc
    timesig = case.one_of(TIME_SIGNATURES)
    rows = []
    mn = 1
    while len(rows) < count:
        if rows and case.bool(0.15):
            timesig = case.one_of(TIME_SIGNATURES)
        length = Fraction(timesig)
        kind = case.weighted([(6, "full"), (2, "odd")]) if uneven else "full"
        if kind == "full":
            rows.append(dict(mn=mn, timesig=timesig, act_dur=length, mc_offset=Fraction(0)))
        else:
            part = length * Fraction(case.int(1, 7), 8)
            if not rows:
                # Pick-up: ends at the next downbeat
                rows.append(dict(mn=0, timesig=timesig, act_dur=part, mc_offset=length - part))
                mn = 0
            elif len(rows) + 2 <= count and case.bool():
                # A measure split over two mcs
                rows.append(dict(mn=mn, timesig=timesig, act_dur=part, mc_offset=Fraction(0)))
                rows.append(
                    dict(mn=mn, timesig=timesig, act_dur=length - part, mc_offset=part)
                )
            else:
                # A shortened measure
                rows.append(dict(mn=mn, timesig=timesig, act_dur=part, mc_offset=Fraction(0)))
        mn += 1
    for index, row in enumerate(rows):
        row["mc"] = first + index
    return Measures(rows)


def draw_time(case, measures, include_end=False, strictly_before=None):
    """A time on a musical grid within the measures."""
    end = measures.end if strictly_before is None else strictly_before
    grid = case.one_of(GRID)
    steps = end / grid
    top = int(steps)
    if not include_end and Fraction(top) == steps:
        top -= 1
    return grid * case.int(0, max(top, 0))


def draw_spelled_pitch(case, low_midi=24, high_midi=108):
    """(tpc relative to C = 0, midi number), consistent with each other."""
    tpc = case.one_of([0, 1, 2, 3, 4, 5, -1, -2, -3, 6, 7, -4, -5, 8, 9, 12, -9, 19, -15, 14, -14])
    pitch_class = (7 * tpc) % 12
    low = -(-(low_midi - pitch_class) // 12)
    high = (high_midi - pitch_class) // 12
    return tpc, pitch_class + 12 * case.int(low, high)


# ---- keys and chords in corpus notation ----
def draw_numeral(case, chain=1, accidentals=True):
    """(string, links): a numeral or an applied chain, e.g. "V/ii"."""
    links = [
        (
            case.int(1, 7),
            case.bool(),
            case.weighted([(8, 0), (1, 1), (1, -1)]) if accidentals else 0,
        )
        for _ in range(case.size(1, chain, mean=1.3))
    ]
    string = "/".join(
        th.accidental_string(acc) + (th.NUMERALS[n - 1].lower() if low else th.NUMERALS[n - 1])
        for n, low, acc in links
    )
    return string, links


def resolve(tonic, mode, links):
    """(tonic as any line-of-fifths position, mode, all steps in the TPC range)."""
    valid = True
    for number, low, acc in reversed(links):
        tonic += th.degree_interval(number, acc, mode, th.TPC)
        valid = valid and th.in_range(tonic, th.TPC)
        mode = th.MINOR if low else th.MAJOR
    return tonic, mode, valid


class RefKey:
    def __init__(self, glob, local, relative, valid):
        self.glob, self.local, self.relative = glob, local, relative
        self.valid = valid  # Representable as TPC

    def expected(self, pitch_type):
        """(relative_tonic, local_tonic, global_tonic, modes...)."""
        convert = (lambda x: x) if pitch_type == th.TPC else th.tpc_to_midi
        return (
            convert(self.relative[0]), convert(self.local[0]), convert(self.glob[0]),
            self.relative[1], self.local[1], self.glob[1],
        )


def draw_corpus_key(case, tonic_range=(8, 22), chain=2, applied=0.3):
    """Key columns of a corpus row and the reference key."""
    tonic = case.int(*tonic_range)
    mode = case.one_of(th.MODES)
    name = th.spell(tonic)
    name = name if mode == th.MAJOR else name[0].lower() + name[1:]
    local_string, local_links = draw_numeral(case, chain=chain)
    local_tonic, local_mode, valid = resolve(tonic, mode, local_links)
    relative = (local_tonic, local_mode)
    relative_string = None
    if case.bool(applied):
        relative_string, links = draw_numeral(case, chain=chain)
        relative_tonic, relative_mode, valid2 = resolve(local_tonic, local_mode, links)
        relative = (relative_tonic, relative_mode)
        valid = valid and valid2
    columns = {
        "globalkey": name,
        "globalkey_is_minor": mode == th.MINOR,
        "localkey": local_string,
        "localkey_is_minor": local_mode == th.MINOR,
        "relativeroot": relative_string if relative_string is not None else float("nan"),
    }
    return columns, RefKey((tonic, mode), (local_tonic, local_mode), relative, valid)


FIGBASS = {0: [float("nan"), "7", ""], 1: ["6", "65"], 2: ["64", "43"], 3: ["2"]}


def sparse(case, kwargs, **defaults):
    """Leave out some of the arguments that have their documented default."""
    return {key: value for key, value in kwargs.items()
            if not (key in defaults and value == defaults[key] and case.bool())}
