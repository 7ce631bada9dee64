"""E07: labels are written onto the score of their own piece, exactly where they belong."""
import warnings
from fractions import Fraction
from pathlib import Path

from pbt import shimmed  # noqa: F401
from pbt import corpus, gen, mscx, scripts
from pbt import theory as th
from pbt.engine import Test, check, check_eq
from checks import e02

RULE = (
    "Random folders of 1-3 MuseScore scores with label tables as annotate.py and test.py write them, written by "
    "write_to_score.py with the real ms3. Non-trivial: at least three labels."
)
ASSUMPTIONS = ["ms3 itself (not under test) puts a label where it is told to.",
               "Scores in a folder MS3, as in DCML corpora."]
COLORS = {"green": (0, 128, 0), "yellow": (255, 255, 0), "red": (255, 0, 0)}


def draw_rows(case, score, colored):
    rows = []
    places = score.onsets(1)
    if case.bool(0.3):
        # Between the notes of the staff
        places = places + [(mc, onset + Fraction(1, 16)) for mc, onset in places]
    for mc, onset in sorted(case.subset(places, 0.5) or places[:1]):
        for kind in range(case.int(1, 2)):
            if kind:
                label = e02.key_label(case.int(8, 22), case.one_of(th.MODES))
            else:
                label = e02.chord_label(case.int(8, 22), case.one_of(th.TYPES), case.int(0, 2))
            rows.append((label, mc, onset, case.one_of(sorted(COLORS)) if colored else None))
    return rows


def write(path, rows, colored):
    path.parent.mkdir(parents=True, exist_ok=True)
    lines = ["\tlabel\tmc\tmc_onset\tmn_onset" + ("\tcolor_name" if colored else "")]
    for number, (label, mc, onset, color) in enumerate(rows):
        lines.append(f"{number}\t{label}\t{mc}\t{onset}\t{onset}" + (f"\t{color}" if colored else ""))
    path.write_text("\n".join(lines) + "\n")


def run(case):
    colored = case.bool()
    files = {}
    bases = case.weighted([(4, ["mozart", "bach"]), (1, ["piano/mozart", "piano/bach", "x"]),
                           (1, ["."])])
    again = case.bool(0.2)
    with gen.scratch() as folder:
        for _ in range(case.int(1, 3)):
            base = case.one_of(bases)
            stem = case.one_of(["1", "11", "a b", "x.y", "K331-1", "n (2)", "a+b", "n01op18-1_01"])
            if (base, stem) in files:
                continue
            score = mscx.Score(case)
            path = folder / "corpus" / base / "MS3" / f"{stem}.mscx"
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(score.text())
            rows = draw_rows(case, score, colored) if case.bool(0.85) else None
            files[base, stem] = (score, rows)
            if rows is not None:
                write(folder / "out" / base / f"{stem}.tsv", rows, colored)
                if colored:
                    (folder / "out" / base / f"{stem}_results.tsv").write_text(
                        "\tgt_key\tgt_chord\test_key\test_chord\tduration\n0\ta\tb\tc\td\t1/4\n")
        case.note(f"{[(name, rows) for name, (_, rows) in files.items()]}")
        if all(rows is None for _, rows in files.values()):
            case.discard()
        case.nontrivial(sum(len(rows or ()) for _, rows in files.values()) > 2)
        before = {path: path.read_text() for path in (folder / "corpus").rglob("*.mscx")}
        for repeat in range(1 + again):
            if repeat:
                # New labels for the same scores
                for (base, stem), (score, rows) in list(files.items()):
                    if rows is not None and case.bool(0.7):
                        rows = draw_rows(case, score, colored)
                        case.note(f"then {base}/{stem}: {rows}")
                        files[base, stem] = (score, rows)
                        write(folder / "out" / base / f"{stem}.tsv", rows, colored)
            with gen.quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                code, _ = scripts.program("write_to_score", case.shuffled(
                    ["--annotations=" + str(folder / "corpus"), f"--output={folder / 'out'}"]))
            check_eq(code, 0, "exit code")
        check_eq({path: path.read_text() for path in (folder / "corpus").rglob("*.mscx")}, before,
                 "the scores of the corpus")
        written = {str(path.relative_to(folder / "out")) for path in (folder / "out").rglob("*.mscx")}
        check_eq(written, {str(Path(base) / "MS3" / f"{stem}_inferred.mscx") for (base, stem), (_, rows) in
                           files.items() if rows is not None}, "scores written")
        for (base, stem), (score, rows) in files.items():
            if rows is None:
                continue
            labels, events = mscx.read(folder / "out" / base / "MS3" / f"{stem}_inferred.mscx")
            wanted = [(1, mc, onset, label, COLORS.get(color)) for label, mc, onset, color in rows]
            check_eq(sorted(labels, key=str), sorted(wanted, key=str), f"labels of {base}/{stem}")
            for staff in range(2):
                check_eq(events[staff], [(mc + 1, *event) for mc, measure in
                                         enumerate(score.staves[staff]) for event in measure],
                         f"notes of {base}/{stem}")


def tests():
    return [Test("scores", run, 80)]
