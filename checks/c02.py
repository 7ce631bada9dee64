"""C02: note offsets and merged ties: every note sounds exactly as long as it is written."""
from collections import Counter
from fractions import Fraction

import pandas as pd
import harmonic_inference.utils.corpus_utils as cu
from pbt import corpus, gen
from pbt.corpus import values
from pbt.engine import Test, check, check_eq

RULE = (
    "Corpora of 1-3 pieces with incomplete and split measures. Offsets: notes of all lengths, incl. "
    "over several measures, up to a measure's end, and beyond the piece. Ties: chains of 1-5 notes, "
    "complete or with missing beginning or end, several pieces, pitches and voices at once, grace "
    "notes in between. Non-trivial: a note crosses a measure / a chain of 2+ notes is merged."
)
ASSUMPTIONS = [
    "Simultaneous tied notes of one pitch: which continuation belongs to which note is only "
    "determined when staff and voice tell, so only then it is checked.",
]


def piece_notes(case, score, max_notes=5):
    measures = score.played
    notes = []
    for _ in range(case.size(0 if case.bool(0.2) else 1, max_notes)):
        start = gen.draw_time(case, measures)
        kind = case.weighted([(3, "any"), (2, "measure end"), (2, "long"), (1, "zero"), (1, "beyond")])
        if kind == "any":
            duration = Fraction(case.int(1, 16), case.one_of([8, 16, 12]))
        elif kind == "measure end":
            ends = [row["start"] + row["act_dur"] for row in measures.rows]
            duration = case.one_of([end for end in ends if end > start]) - start
        elif kind == "long":
            duration = Fraction(case.int(1, 16), 4) * case.weighted([(4, 1), (1, 8)])
        elif kind == "zero":
            duration = Fraction(0)
        else:
            duration = measures.end - start + Fraction(case.int(0, 4), 8)
        notes.append((start, duration))
    return notes


def offsets(case):
    ids = corpus.draw_file_ids(case)
    scores = {file_id: corpus.draw_score(case, 1, 6, long=0.04) for file_id in ids}
    raw = case.bool(0.15)
    if raw:
        measures = corpus.concat([score.measures_df() for score in scores.values()], ids,
                                 "measure_id")
    else:
        measures = corpus.played_df(scores)
    rows, expected = [], []
    for file_id, score in scores.items():
        for note_id, (start, duration) in enumerate(piece_notes(case, score)):
            mc, beat = score.played.position(start)
            rows.append((file_id, note_id, mc, beat, duration))
            expected.append(corpus.offset_position(score.played, start, duration))
            case.nontrivial(expected[-1][0] != mc)
    if not rows:
        case.discard()
    case.note(f"{rows} in {[[tuple(row.values()) for row in s.played.rows] for s in scores.values()]}")
    df = pd.DataFrame(rows, columns=["file_id", "note_id", "mc", "mn_onset", "duration"])
    df["mc"] = df["mc"].astype("Int64")
    df = df.set_index(["file_id", "note_id"])
    before = df.copy()
    result = cu.add_note_offsets(df, measures)
    check(df.equals(before), "the given data frame was changed")
    check(result[list(df.columns)].equals(df), "the other columns were changed")
    check_eq(list(zip(values(result["offset_mc"]), values(result["offset_beat"]))), expected,
             "offset positions")
    check_eq(str(result["offset_mc"].dtype), "Int64", "type of offset_mc")


COLUMNS = ["file_id", "note_id", "mc", "mn_onset", "duration", "midi", "staff", "voice",
           "gracenote", "tied", "offset_mc", "offset_beat"]


def frame(notes):
    df = pd.DataFrame([[note[column] for column in COLUMNS] for note in notes], columns=COLUMNS)
    for column in ["mc", "midi", "staff", "voice", "tied", "offset_mc"]:
        df[column] = df[column].astype("Int64")
    return df.set_index(["file_id", "note_id"])


def rows_of(df):
    df = df.reset_index()
    return list(zip(*[values(df[column]) for column in COLUMNS]))


def draw_chain(case, score, file_id, midi, staff, voice, complete):
    """A chain of contiguous notes: [note dicts], tied together."""
    measures = score.played
    time = gen.draw_time(case, measures)
    length = case.weighted([(2, 1), (4, 2), (3, 3), (1, 4), (1, 5)])
    notes = []
    for _ in range(length):
        duration = Fraction(case.int(1, 8), 8)
        if time + duration > measures.end:
            break
        onset, offset = measures.position(time), measures.position(time + duration)
        notes.append(dict(
            file_id=file_id, mc=onset[0], mn_onset=onset[1], duration=duration, midi=midi,
            staff=staff, voice=voice, gracenote=None, offset_mc=offset[0],
            offset_beat=offset[1], time=time, end=time + duration, tied=0,
        ))
        time += duration
    if not notes:
        return []
    if complete or case.bool(0.6):
        if len(notes) == 1:
            notes[0]["tied"] = None
        else:
            notes[0]["tied"], notes[-1]["tied"] = 1, -1
    else:
        notes[0]["tied"] = case.one_of([1, 0])
        if len(notes) > 1:
            notes[-1]["tied"] = case.one_of([-1, 0])
        else:
            notes[0]["tied"] = case.one_of([1, 0, -1])
    return notes


def merge_reference(notes):
    """Notes of one file, pitch and voice that do not overlap, in order of time."""
    result = []
    previous = None
    for note in sorted(notes, key=lambda n: n["time"]):
        out = previous is not None and previous["open"]
        if out and note["tied"] in (0, -1) and previous["end"] == note["time"]:
            previous["duration"] += note["duration"]
            for field in ["offset_mc", "offset_beat", "end"]:
                previous[field] = note[field]
            if note["tied"] == -1:
                previous["open"] = False
                previous["tied"] = None if previous["tied"] == 1 else -1
        else:
            previous = dict(note, open=note["tied"] in (0, 1))
            result.append(previous)
    return result


def ties(case):
    ids = corpus.draw_file_ids(case)
    notes, expected = [], []
    for file_id in ids:
        score = corpus.draw_score(case, 2, 5, repeats=False)
        here = []
        for midi in case.subset([60, 64, 72], 0.6):
            voices = case.weighted([(3, [(1, 1)]), (2, [(1, 1), (1, 2)]), (1, [(1, 1), (2, 1)]),
                                    (1, [(1, 1), (1, 2), (2, 2)])])
            for staff, voice in voices:
                busy = []
                line = []
                for _ in range(case.size(1, 3)):
                    chain = draw_chain(case, score, file_id, midi, staff, voice, len(voices) > 1)
                    if chain and all(chain[-1]["end"] <= start or end <= chain[0]["time"]
                                     for start, end in busy):
                        busy.append((chain[0]["time"], chain[-1]["end"]))
                        line += chain
                if len(voices) == 1:
                    # A tie may also change staff and voice
                    for note in line:
                        note["staff"] = case.weighted([(5, note["staff"]), (1, 2)])
                        note["voice"] = case.weighted([(5, note["voice"]), (1, 2)])
                if line and case.bool(0.2):
                    grace = dict(case.one_of(line), gracenote="acciaccatura",
                                 tied=case.one_of([None, 1, 0, -1]))
                    here.append(grace)
                    expected.append(grace)
                here += line
                merged = merge_reference(line)
                case.nontrivial(len(merged) < len(line))
                for note in merged:
                    note["source"] = next(n for n in line if n["time"] == note["time"])
                expected += merged
        here = sorted(here, key=lambda n: (n["time"], n["midi"], n["staff"]))
        if case.bool(0.3):
            here = case.shuffled(here)
        for note_id, note in enumerate(here):
            note["note_id"] = note_id
        notes += here
    if not notes:
        case.discard()
    for note in expected:
        if "source" in note:
            note["note_id"] = note["source"]["note_id"]
    df = frame(notes)
    case.note(f"{rows_of(df)}")
    before = df.copy()
    result = cu.merge_ties(df)
    check(df.equals(before), "the given data frame was changed")
    want = sorted((tuple(note[column] for column in COLUMNS) for note in expected),
                  key=lambda row: row[:2])
    check_eq(rows_of(result), want, "merged notes")


def conserve(case):
    """Any notes at all: no sounding time, onset or grace note is lost or invented."""
    score = corpus.draw_score(case, 2, 4, repeats=False)
    measures = score.played
    notes = []
    for file_id in [0, 4][:case.int(1, 2)]:
        for note_id in range(case.size(1, 12, mean=8)):
            start = Fraction(case.int(0, max(int(measures.end * 4) - 1, 0)), 4)
            duration = min(Fraction(case.int(1, 3), 4), measures.end - start)
            if duration <= 0:
                case.discard()
            onset, offset = measures.position(start), measures.position(start + duration)
            notes.append(dict(
                file_id=file_id, note_id=note_id, mc=onset[0], mn_onset=onset[1],
                duration=duration, midi=case.weighted([(4, 60), (1, 67)]), staff=case.int(1, 2),
                voice=case.int(1, 2), gracenote=case.weighted([(9, None), (1, "grace4")]),
                tied=case.weighted([(1, None), (4, 1), (3, 0), (4, -1)]), offset_mc=offset[0],
                offset_beat=offset[1], time=start,
            ))
    df = frame(notes)
    case.note(f"{rows_of(df)}")
    result = cu.merge_ties(df)
    case.nontrivial(len(result) < len(df))
    original = {row[:2]: dict(zip(COLUMNS, row)) for row in rows_of(df)}
    total, merged_total = Counter(), Counter()
    for key, note in original.items():
        if note["gracenote"] is None:
            total[key[0], note["midi"]] += note["duration"]
    rows = rows_of(result)
    check_eq(len({row[:2] for row in rows}), len(rows), "no note appears twice")
    for row in rows:
        note = dict(zip(COLUMNS, row))
        check(row[:2] in original, "a note was invented")
        source = original[row[:2]]
        if source["gracenote"] is not None or source["tied"] in (None, -1):
            check_eq(note, source, "a note without tie out was changed")
        for column in ["mc", "mn_onset", "midi", "staff", "voice", "gracenote"]:
            check_eq(note[column], source[column], f"{column} of a note")
        if note["gracenote"] is None:
            merged_total[row[0], note["midi"]] += note["duration"]
            start = measures.time((note["mc"], note["mn_onset"]))
            end = measures.time((note["offset_mc"], note["offset_beat"]))
            check_eq(end - start, note["duration"], "duration and offset disagree")
            open_out = note["tied"] in (0, 1)
            if source["tied"] == 1:
                check(note["tied"] in (None, 1), "tied value of a first note")
            if source["tied"] == 0:
                check(note["tied"] in (0, -1), "tied value of a middle note")
            if open_out:
                # Nothing is left that it could have been tied to
                for other in rows:
                    other = dict(zip(COLUMNS, other))
                    if (other["file_id"], other["midi"]) == (note["file_id"], note["midi"]) and (
                        (other["mc"], other["mn_onset"])
                        == (note["offset_mc"], note["offset_beat"])
                    ) and other["gracenote"] is None:
                        check(other["tied"] not in (0, -1), "a tie was left open")
    for key, note in original.items():
        if note["tied"] in (None, 1) or note["gracenote"] is not None:
            check(any(row[:2] == key for row in rows), "a note was lost")
    check_eq(merged_total, total, "total sounding duration per pitch")


def tests():
    return [
        Test("offsets", offsets, 400),
        Test("ties", ties, 450),
        Test("tie_conservation", conserve, 400),
    ]
