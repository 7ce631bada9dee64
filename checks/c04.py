"""C04: aggregating and loading a corpus yields exactly the music of every one of its pieces."""
import os
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path

from harmonic_inference.data.corpus_reading import (
    aggregate_annotation_dfs, load_clean_corpus_dfs, read_dump,
)
from checks.c02 import draw_chain, merge_reference
from pbt import corpus, gen
from pbt import theory as th
from pbt.corpus import values
from pbt.engine import HarnessError, Test, check, check_eq

RULE = (
    "Directories with 1-4 pieces in 1-2 corpora (annotated or not), with repeats, ties, notes in "
    "removed or outside of measures, labels without a chord and simultaneous labels; aggregated, "
    "then loaded. Non-trivial: at least two pieces, or a repeat, tie or dropped row. Also directories "
    "with missing files (non-trivial: several pieces, some of them missing files), only aggregated."
)
ASSUMPTIONS = ["Every piece has a notes and a measures file with at least one note."]

MEASURE_COLUMNS = ["mc", "mn", "timesig", "act_dur", "mc_offset", "next"]
NOTE_COLUMNS = ["mc", "mn", "timesig", "mc_onset", "mn_onset", "duration", "gracenote", "tied",
                "tpc", "midi", "staff", "voice"]
CHORD_COLUMNS = ["mc", "mn", "timesig", "mc_onset", "mn_onset", "label", "globalkey", "localkey",
                 "relativeroot", "numeral", "figbass", "changes", "chord_type",
                 "globalkey_is_minor", "localkey_is_minor", "root", "bass_note"]


def write_tsv(path, columns, rows, names=None):
    def cell(value):
        if value is None or value != value:
            return ""
        if isinstance(value, bool):
            return str(int(value))
        if isinstance(value, tuple):
            return ", ".join(str(part) for part in value)
        return str(value)

    path.parent.mkdir(parents=True, exist_ok=True)
    lines = ["\t".join(names or columns)]
    lines += ["\t".join(cell(row.get(column)) for column in columns) for row in rows]
    path.write_text("\n".join(lines) + "\n", encoding="utf-8")


def draw_piece(case, annotated):
    score = corpus.draw_score(case, 1, 6, long=0.03)
    played = score.played
    removed = [row for row in score.all.rows if row["mc"] not in played.by_mc]
    interesting = bool(removed)
    notes, kept = [], []
    for midi in [60] + case.subset([62, 65, 72], 0.5):
        line = []
        for _ in range(case.size(1, 3)):
            chain = draw_chain(case, score, 0, midi, 1, 1, False)
            if chain and all(chain[-1]["end"] <= note["time"] or note["end"] <= chain[0]["time"]
                             for note in line):
                line += chain
        notes += line
        merged = merge_reference(line)
        interesting |= len(merged) < len(line)
        kept += merged
    if not kept:
        onset, offset = played.position(Fraction(0)), played.position(Fraction(1, 32))
        notes = [dict(mc=onset[0], mn_onset=onset[1], duration=Fraction(1, 32), midi=60, staff=1,
                      voice=1, tied=None, offset_mc=offset[0], offset_beat=offset[1])]
        kept = [dict(notes[0])]
    for note in notes + kept:
        row = played.by_mc[note["mc"]]
        note.update(mc_onset=note["mn_onset"] - row["mc_offset"], timesig=row["timesig"],
                    mn=row["mn"], tpc={60: 0, 62: 2, 65: -1, 72: 0}[note["midi"]])
    dropped = []
    for row in case.subset(removed, 0.5):
        dropped.append(dict(mc=row["mc"], mn_onset=row["mc_offset"], mc_onset=Fraction(0)))
    if case.bool(0.25):
        row = case.one_of(played.rows)
        dropped.append(dict(mc=row["mc"], mc_onset=row["act_dur"],
                            mn_onset=row["act_dur"] + row["mc_offset"]))
    if case.bool(0.2):
        row = case.one_of(played.rows)
        if row["mc_offset"] > 0:
            dropped.append(dict(mc=row["mc"], mc_onset=-row["mc_offset"] / 2,
                                mn_onset=row["mc_offset"] / 2))
    for note in dropped:
        note.update(duration=Fraction(1, 8), midi=47, tpc=5, staff=1, voice=1)
    interesting |= bool(dropped)
    # In score order, as a corpus is
    notes = sorted(notes + dropped, key=lambda note: (note["mc"], note["mn_onset"]))
    chords, kept_chords = [], []
    if annotated:
        times = sorted(case.list(lambda c: gen.draw_time(c, played), 1, 6))
        real = []
        for time in times:
            columns, _ = gen.draw_corpus_key(case)
            position = played.position(time)
            row = dict(columns)
            row.update(
                mc=position[0], mn=1, timesig=played.by_mc[position[0]]["timesig"],
                mn_onset=position[1], mc_onset=corpus.mc_onset(played, position), label="x",
                numeral=case.weighted([(6, "V"), (1, "@none"), (1, None)]),
                chord_type=th.TYPE_STRING[case.one_of(th.TYPES)], figbass=case.one_of([None, "6", "7"]),
                changes=case.weighted([(4, None), (1, "4")]), root=case.sint(-5, 5),
                bass_note=case.sint(-5, 5), time=time,
            )
            chords.append(row)
            if row["numeral"] == "V":
                real.append(row)
        for index, row in enumerate(real):
            end = played.end if index + 1 == len(real) else real[index + 1]["time"]
            if end > row["time"]:
                position = played.position(end)
                kept_chords.append(dict(row, mc_next=position[0], mn_onset_next=position[1],
                                        duration=end - row["time"]))
        interesting |= len(kept_chords) < len(chords)
        for row in case.subset(removed, 0.4):
            chords.append(dict(chords[0], mc=row["mc"], mn_onset=row["mc_offset"], mc_onset=0,
                               numeral="I"))
        if case.bool(0.2):
            row = case.one_of(played.rows)
            chords.append(dict(chords[0], mc=row["mc"], mc_onset=row["act_dur"],
                               mn_onset=row["act_dur"] + row["mc_offset"], numeral="I"))
        chords.sort(key=lambda row: (row["mc"], row["mn_onset"]))
    return dict(score=score, notes=notes, kept=sorted(kept, key=key_of), chords=chords,
                kept_chords=kept_chords, interesting=interesting, annotated=annotated)


def key_of(note):
    return (note["mc"], note["mn_onset"], note["midi"])


def null_safe(row, columns):
    return tuple(None if row.get(c) is None or row.get(c) != row.get(c) else row.get(c)
                 for c in columns)


def write_piece(base, name, piece):
    def write(kind, columns, rows):
        names = columns
        if piece.get("legacy"):
            # The names of the columns in earlier versions of the corpus
            names = [{"mc_offset": "offset", "mn_onset": "onset"}.get(c, c) for c in columns]
        write_tsv(base / kind / name, columns, rows, names)

    df = piece["score"].measures_df()
    write("measures", MEASURE_COLUMNS, df.to_dict("records"))
    write("notes", NOTE_COLUMNS, piece["notes"])
    if piece["annotated"]:
        write("harmonies", CHORD_COLUMNS, piece["chords"])


NOTE_RESULT = ["mc", "mn_onset", "mc_onset", "duration", "midi", "tpc", "staff", "voice", "tied",
               "offset_mc", "offset_beat"]
CHORD_RESULT = ["mc", "mn_onset", "numeral", "globalkey", "localkey", "relativeroot", "chord_type",
                "figbass", "changes", "root", "bass_note", "globalkey_is_minor",
                "localkey_is_minor", "mc_next", "mn_onset_next", "duration"]


def columns_of(df, columns):
    return list(zip(*[values(df[column]) for column in columns]))


def part_of(df, file_id):
    return df.loc[df.index.get_level_values("file_id") == file_id]


def verify(case, pieces, corpora, out, count, notes_only):
    with gen.quiet():
        files, measures, chords, notes = load_clean_corpus_dfs(
            case.one_of([str, Path])(out), **({} if count is None else {"count": count})
        )
    expected = len(corpora) if count is None else min(count, len(corpora))
    check_eq(len(files), expected, "number of files loaded")
    names = list(zip(files["corpus_name"], files["file_name"]))
    check_eq(len(set(names)), len(names), "files loaded twice")
    if count is None:
        check_eq(set(names), set(corpora), "files loaded")
    ids = set(files.index)
    for df in [measures, notes] + ([chords] if chords is not None else []):
        check(set(df.index.get_level_values("file_id")) <= ids, "rows of files not loaded")
    any_annotated = any(pieces[name]["annotated"] for name in corpora)
    check(chords is not None or not any_annotated, "no chords were loaded")
    for file_id, name in zip(files.index, names):
        piece = pieces[name]
        played = piece["score"].played
        mcs = [row["mc"] for row in played.rows]
        check_eq(
            columns_of(part_of(measures, file_id),
                       ["mc", "timesig", "act_dur", "mc_offset", "next"]),
            [(row["mc"], row["timesig"], row["act_dur"], row["mc_offset"], following)
             for row, following in zip(played.rows, mcs[1:] + [None])],
            f"measures of {name}",
        )
        got = sorted(columns_of(part_of(notes, file_id), NOTE_RESULT), key=str)
        want = sorted((null_safe(note, NOTE_RESULT) for note in piece["kept"]), key=str)
        check_eq(got, want, f"notes of {name}")
        if piece["annotated"]:
            got = columns_of(part_of(chords, file_id), CHORD_RESULT)
            check_eq(got, [null_safe(row, CHORD_RESULT) for row in piece["kept_chords"]],
                     f"chords of {name}")
        elif chords is not None:
            check_eq(len(part_of(chords, file_id)), 0, f"chords of the unannotated {name}")


def run(case):
    notes_only = case.bool(0.3)
    pieces = {}
    for number in range(case.size(1, 4)):
        base = case.one_of(["mozart", "bach"])
        # The same file name may appear in several corpora
        name = (base, f"n{case.int(0, 2)}.tsv")
        if name in pieces:
            name = (base, f"m{number}.tsv")
        pieces[name] = draw_piece(case, not case.bool(0.4 if notes_only else 0.15))
    included = [name for name in pieces if notes_only or pieces[name]["annotated"]]
    if not included:
        case.discard()
    new = [name for name in included if pieces[name]["annotated"]][:1]
    if new and case.bool(0.3):
        for name in pieces:
            if name not in new and case.bool():
                pieces[name]["legacy"] = True
                case.event("legacy columns")
    case.nontrivial(len(included) > 1 or any(piece["interesting"] for piece in pieces.values()))
    case.event(f"{len(included)} pieces")
    for name, piece in pieces.items():
        case.note(f"{name} annotated={piece['annotated']} notes={piece['notes']} "
                  f"chords={piece['chords']} nexts={piece['score'].nexts}"[:1500])
    count = case.int(1, 3) if case.bool(0.25) else None
    scratch = Path(tempfile.mkdtemp(prefix="verif-c04-"))
    try:
        for (base, file_name), piece in pieces.items():
            write_piece(scratch / "in" / "sub" / base, file_name, piece)
        out = scratch / "out" / "aggregated"
        with gen.quiet():
            aggregate_annotation_dfs(case.one_of([str, Path])(scratch / "in"),
                                     case.one_of([str, Path])(out), notes_only=notes_only)
        if not os.path.exists(out / "files.tsv"):
            raise HarnessError("nothing was aggregated")
        verify(case, pieces, included, out, count, notes_only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def aggregate(case):
    """Files that are missing leave the tables of the other pieces as they are."""
    notes_only = case.bool(0.4)
    kinds = ["harmonies", "notes", "measures"]
    listed = "notes" if notes_only else "harmonies"
    content = {}
    for number in range(case.size(1, 5, mean=3)):
        name = (case.one_of(["mozart", "bach"]), f"n{number}.tsv")
        content[name] = {}
        for kind in kinds:
            if case.bool(0.25):
                content[name][kind] = "missing"
            else:
                content[name][kind] = [
                    dict(mc=case.int(0, 9), mn=case.int(0, 9), timesig=f"{number}-{i}")
                    for i in range(case.size(0, 4))
                ]
    included = [name for name in content if content[name][listed] != "missing"]
    if not included:
        case.discard()
    case.note(f"{content} notes_only={notes_only}")
    case.nontrivial(len(included) > 1 and any(
        isinstance(content[name][kind], str) for name in included for kind in kinds))
    scratch = Path(tempfile.mkdtemp(prefix="verif-c04-"))
    try:
        for (base, file_name), tables in content.items():
            for kind, rows in tables.items():
                path = scratch / "in" / base / kind / file_name
                if rows != "missing":
                    write_tsv(path, ["mc", "mn", "timesig"], rows)
        out = scratch / "out"
        with gen.quiet():
            aggregate_annotation_dfs(scratch / "in", out, notes_only=notes_only)
        files = read_dump(out / "files.tsv", index_col=0)
        names = list(zip(files["corpus_name"], files["file_name"]))
        check_eq(sorted(names), sorted(included), "files aggregated")
        for kind, table in [("harmonies", "chords"), ("notes", "notes"), ("measures", "measures")]:
            expected = [
                (file_id, row["mc"], row["mn"], row["timesig"])
                for file_id, name in zip(files.index, names)
                if not isinstance(content[name][kind], str)
                for row in content[name][kind]
            ]
            if not os.path.exists(out / f"{table}.tsv"):
                check_eq([], expected, f"no table of {table}, which should have")
                continue
            df = read_dump(out / f"{table}.tsv").reset_index()
            check_eq(columns_of(df, ["file_id", "mc", "mn", "timesig"]), expected,
                     f"table of {table} of {names}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def tests():
    return [Test("aggregate_and_load", run, 360), Test("aggregate", aggregate, 300)]
