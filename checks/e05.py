"""E05: what is given on the command line is what the models, the search and the outputs use."""
import argparse
import contextlib
import inspect
import itertools
import json
import shlex
from fractions import Fraction
from pathlib import Path
from unittest import mock

import numpy as np

from pbt import shimmed  # noqa: F401
from harmonic_inference.models import joint_model
from harmonic_inference.utils.beam_search_utils import State
from checks import e02, e04
from pbt import estimates, gen, musicxml, scripts
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "annotate.py, test.py and grid_search.py run as programs with random options on 1-2 random MusicXML files and "
    "stand-in checkpoints of several versions. Non-trivial: options other than the defaults."
)
ASSUMPTIONS = ["The search itself (J03) and the content of the outputs (E02, E03) are right.",
               "Paths without spaces for grid_search.py."]

NAMES = ["min_chord_change_prob", "max_no_chord_change_prob", "max_chord_length",
         "min_key_change_prob", "max_no_key_change_prob", "beam_size",
         "max_chord_branching_factor", "target_chord_branch_prob", "max_key_branching_factor",
         "target_key_branch_prob", "hash_length", "ksm_exponent"]
PLAIN = (0.25, 0.45, 8, 0.05, 0.75, 50, 5, 0.75, 2, 0.5, 5, 50)
# The settings of the paper, by csm version
INTERNAL = {0: (0.25, 0.45, 8, 0.1, 0.75, 50, 5, 0.75, 2, 0.5, 5, 100),
            1: (0.25, 0.5, 8, 0.05, 0.75, 50, 5, 0.75, 2, 0.5, 5, 50),
            2: (0.25, 0.45, 8, 0.05, 0.75, 50, 5, 0.5, 2, 0.5, 5, 50)}
FH = (0.3, 0.4, 8, 0.1, 0.7, 50, 5, 0.75, 2, 0.5, 5, 30)
NETS = ["ccm", "ctm", "csm", "ktm", "ksm"]


def draw_value(case, name):
    if name in ("beam_size", "max_chord_branching_factor", "max_key_branching_factor",
                "hash_length"):
        return case.int(1, 60)
    if name == "max_chord_length":
        return Fraction(case.int(1, 40), case.one_of([1, 2, 3, 4]))
    if name == "ksm_exponent":
        return case.one_of([10.0, 3.5, 100.0, 1.0, 77.0])
    # The lower thresholds below the upper ones
    low, high = {"min": (0, 40), "max": (50, 100)}.get(name.split("_")[0], (0, 100))
    return case.int(low, high) / 100


class Recorder:
    """Stands for the joint model."""
    CHORD_OUTPUT_TYPE = th.TPC
    KEY_OUTPUT_TYPE = th.TPC
    made = []
    signature = inspect.signature(joint_model.HarmonicInferenceModel)

    def __init__(self, *args, **kwargs):
        bound = self.signature.bind(*args, **kwargs)
        bound.apply_defaults()
        self.parameters, self.pieces, self.forces = dict(bound.arguments), [], []
        Recorder.made.append(self)

    def get_harmony(self, piece, **forces):
        self.pieces.append(piece)
        self.forces.append(forces)
        return State(chord=3, key=40, change_index=len(piece.get_inputs()), prev_state=State(key=40))


@contextlib.contextmanager
def recorded():
    classes = {name: [type(name, (e04.Loaded,), {})] for name in NETS}
    classes["icm"] = joint_model.MODEL_CLASSES["icm"]
    Recorder.made = []
    with mock.patch.dict(joint_model.MODEL_CLASSES, classes, clear=True), mock.patch.object(
            joint_model, "HarmonicInferenceModel", Recorder), gen.quiet():
        yield Recorder.made


def write_models(folder, versions):
    for name in NETS:
        for version in versions:
            path = folder / name / "lightning_logs" / f"version_{version}" / "checkpoints"
            path.mkdir(parents=True)
            (path / "x.ckpt").write_text(f"{name} in {folder.name} version {version}")
    size = len(th.chord_space(th.TPC, True, True, False, None))
    (folder / "icm").mkdir()
    (folder / "icm" / "initial_chord_prior.json").write_text(json.dumps({
        "pitch_type": "PitchType.TPC", "inversions_present": True, "reduction_present": None,
        "major": [1 / size] * size, "minor": [1 / size] * size}))


def draw_files(case, folder):
    """{stem: number of notes}"""
    files = {}
    for stem in ["a", "b c"][:case.int(1, 2)]:
        score = musicxml.draw_score(case)
        if not score.notes:
            case.discard()
        e04.write_mxl(folder / "scores" / f"{stem}.mxl", score.text)
        files[stem] = score
    return files


def option(case, name, value):
    """--name value or --name=value"""
    return [f"{name}={value}"] if case.bool(0.3) else [name, value]


def draw_parameters(case):
    """(arguments, csm version, expected parameters)"""
    expected, arguments = dict(zip(NAMES, PLAIN)), []
    for name in NAMES:
        if case.bool(0.3):
            expected[name] = draw_value(case, name)
            arguments.append(option(case, "--" + name.replace("_", "-"), expected[name]))
    version = case.one_of([None, 0, 1, 2, 5])
    if version is not None:
        arguments.append(option(case, "--csm-version", version))
    kind = case.weighted([(3, None), (2, "--defaults"), (2, "--fh-defaults")])
    if kind is not None:
        arguments.append([kind])
        if version == 5:
            expected = None
        else:
            expected = dict(zip(NAMES, FH if kind == "--fh-defaults" else
                                INTERNAL[2 if version is None else version]))
    case.event(f"{kind} {version}" if kind else "no defaults")
    return arguments, version, expected


def run(case, name):
    versions = [0, 1, 2, 5]
    with e04.scratch() as folder:
        files = draw_files(case, folder)
        arguments, version, expected = draw_parameters(case)
        models = folder.parent / case.one_of(["checkpoints-best", "my models"])
        write_models(models, versions)
        arguments.append(option(case, "--checkpoint", models))
        wanted = {net: None for net in NETS}
        wanted["csm"] = version
        for net in NETS:
            if net != "csm" and case.bool(0.3):
                wanted[net] = case.one_of(versions)
                arguments.append(option(case, f"--{net}-version", wanted[net]))
        output = folder.parent / case.one_of(["out", "my results/here"])
        arguments.append([case.one_of(["-o", "--output"]), output])
        arguments.append([case.one_of(["-x", "--xml"])])
        arguments.append([case.one_of(["-i", "--input"]), folder])
        picked = sorted(files)
        if case.bool(0.3):
            number = case.int(0, len(files) - 1)
            arguments.append(option(case, "--id", number))
            picked = [picked[number]]
        if case.bool(0.3):
            arguments.append(option(case, "--threads", 2))
        log = case.one_of([None, "run.log", "logs/run.log"])
        if log is not None:
            arguments.append([case.one_of(["-l", "--log"]), log])
        verbose = case.bool(0.3)
        if verbose:
            arguments.append([case.one_of(["-v", "--verbose"])])
        forces = {}
        if name == "test":
            if case.bool(0.5):
                forces = {"forced_chord_changes": {case.int(0, 9)}}
                (folder.parent / "f.json").write_text(json.dumps(
                    {key: sorted(value) for key, value in forces.items()}))
                arguments.append(option(case, "--forces-json", folder.parent / "f.json"))
            arguments.append(["--no_h5"] if case.bool() else
                             ["-h5", folder.parent / "no such folder"])
        arguments = [str(word) for group in case.shuffled(arguments) for word in group]
        case.note(" ".join(arguments))
        case.nontrivial(expected is None or expected != dict(zip(NAMES, PLAIN)))
        with recorded() as made:
            code, _ = scripts.program(name, arguments)
        if expected is None:
            check(code != 0, "defaults for a version without defaults")
            check(not any(model.pieces for model in made), "analysed in spite of an error")
            return
        check_eq(code, 0, "exit code")
        check_eq(len(made), 1, "joint models made")
        for key, value in expected.items():
            check(made[0].parameters[key] == value,
                  f"{key} is {made[0].parameters[key]}, expected {value}")
        for net in NETS:
            model = made[0].parameters["models"][net]
            fitting = versions if wanted[net] is None else [wanted[net]]
            check(model.text in {f"{net} in {models.name} version {number}" for number in fitting},
                  f"{net}: {model.text}, expected version {wanted[net]}")
            check(model.frozen, f"{net} is not frozen")
        ids = {stem: number for number, stem in enumerate(sorted(files))}
        check_eq([piece.name for piece in made[0].pieces],
                 [f"{ids[stem]}: scores/{stem}.mxl" for stem in picked], "pieces analysed")
        check(all(given == forces for given in made[0].forces), "forces of the pieces")
        written = {str(path.relative_to(output)) for path in output.rglob("*") if path.is_file()}
        check_eq(written - {log}, {f"scores/{stem}.tsv" for stem in picked}, "outputs")
        for stem in picked:
            with open(output / "scores" / f"{stem}.tsv") as file:
                text = file.read()
            for label in (e02.key_label(*estimates.KEYS[40]), e02.chord_label(*estimates.CHORDS[3])):
                check(label in text, f"{label} not in the output of {stem}")
        if log is not None:
            with open(output / log) as file:
                text = file.read()
            for stem in ids:
                check((f"{ids[stem]}: scores/{stem}.mxl" in text) == (stem in picked),
                      f"{stem} in the log")
            check(("DEBUG" in text) == verbose, "verbose messages in the log")


def annotate(case):
    run(case, "annotate")


def evaluate(case):
    run(case, "test")


def average(case):
    """test.py --average only averages."""
    values = {}
    lines = []
    for _ in range(case.int(1, 8)):
        name = case.one_of(["Chord accuracy", "Key accuracy", "Full accuracy"])
        values.setdefault(name, []).append(case.int(0, 100) / 100)
        lines.append(f"{name} = {values[name][-1]}")
    case.note(lines)
    case.nontrivial(any(len(numbers) > 1 for numbers in values.values()))
    with gen.scratch() as folder:
        (folder / "x.log").write_text("INFO:root:x\n" + "\n".join(lines) + "\n")
        with recorded() as made:
            code, text = scripts.program("test", case.shuffled(["--average=" + str(folder / "x.log"), f"--output={folder}"]))
        check_eq({path.name for path in folder.iterdir()}, {"x.log"}, "files")
    check_eq(code, 0, "exit code")
    check_eq(made, [], "models made")
    given = {}
    for line in text.splitlines():
        name, value = line.split(" = ")
        given[name] = float(value)
    check_eq(set(given), {f"Average {name}" for name in values}, "names of the averages")
    for name, numbers in values.items():
        check(np.isclose(given[f"Average {name}"], sum(numbers) / len(numbers)), f"average {name}")


STATIC = argparse.ArgumentParser(add_help=False)
STATIC.add_argument("-s", "--seed", type=int, default=0)
STATIC.add_argument("-h5", "--h5_dir", default="h5_data")
STATIC.add_argument("--test", action="store_true")


def grid(case):
    """The commands of a grid search, one per combination, run as they are."""
    values, arguments = {}, []
    for name, default in zip(NAMES, PLAIN):
        values[name] = [default]
        if case.bool(0.3):
            values[name] = []
            for _ in range(case.int(1, 3)):
                value = draw_value(case, name)
                if values[name] and case.bool(0.3):
                    # Close to the one before
                    value = values[name][-1] + case.one_of([1, Fraction(1, 3)] if name == "max_chord_length" else
                                                           [1000] if isinstance(value, int) else [0.0001, 1e-7])
                if value not in values[name]:
                    values[name].append(value)
            arguments.append(["--" + name.replace("_", "-")] + values[name])
    combinations = list(itertools.product(*values.values()))
    if len(combinations) > 40:
        case.discard()
    case.nontrivial(len(combinations) > 1)
    case.event(f"{min(len(combinations), 5)} combinations")
    with e04.scratch() as folder:
        files = draw_files(case, folder)
        models = folder.parent / "models"
        write_models(models, [0, 1])
        if case.bool(0.4):
            folder = folder.rename(folder.parent / case.one_of(["x.y", "data.2"]))
        arguments += [["-x"], ["--input", folder], ["--checkpoint", models],
                      ["--output", folder.parent / "out"]]
        wanted = {}
        for net in NETS:
            if case.bool(0.3):
                wanted[net] = case.int(0, 1)
                arguments.append([f"--{net}-version", wanted[net]])
        if case.bool(0.3):
            arguments.append(["--threads", 2])
        static = argparse.Namespace(seed=0, h5_dir="h5_data", test=False)
        if case.bool(0.3):
            static.seed = case.int(1, 30)
            arguments.append([case.one_of(["-s", "--seed"]), static.seed])
        if case.bool(0.3):
            static.h5_dir = str(folder.parent / "h5")
            arguments.append([case.one_of(["-h5", "--h5_dir"]), static.h5_dir])
        if case.bool(0.4):
            static.test = True
            arguments.append(["--test"])
        arguments = [str(word) for group in case.shuffled(arguments) for word in group]
        case.note(" ".join(arguments))
        code, text = scripts.program("grid_search", arguments)
        check_eq(code, 0, "exit code of grid_search.py")
        commands = text.splitlines()
        check_eq(len(commands), len(combinations), "number of commands")
        with recorded() as made:
            words = [shlex.split(command) for command in commands]
            for command in words:
                check_eq(command[:2], ["python", "test.py"], "program")
            outputs = [command[command.index("--output") + 1] for command in words]
            check_eq(len(set(outputs)), len(outputs), "output folders")
            runs = sorted({case.int(0, len(words) - 1) for _ in range(2)})
            for number in runs:
                # Everything else as if given by hand
                code, _ = scripts.program("test", words[number][2:])
                check_eq(code, 0, "exit code of test.py")
                output = Path(outputs[number])
                check(folder.parent in output.parents, f"output {output}")
                check_eq({path.stem for path in output.rglob("*.tsv")}, set(files), "outputs")
                check((output / "test.log").exists(), "no log")
        parsed = []
        for command in words:
            given, _ = STATIC.parse_known_args(command[2:])
            check_eq(given, static, "seed, h5 folder and test set")
            parsed.append(tuple(type(values[name][0])(Fraction(
                command[command.index("--" + name.replace("_", "-")) + 1])) for name in NAMES))
        check_eq(sorted(parsed), sorted(tuple(type(values[name][0])(value) for name, value in zip(
            NAMES, combination)) for combination in combinations), "combinations")
        for number, model in zip(runs, made):
            for name, value in zip(NAMES, parsed[number]):
                check(float(model.parameters[name]) == float(value),
                      f"{name} is {model.parameters[name]}, expected {value}")
            for net, version in wanted.items():
                check(model.parameters["models"][net].text.endswith(f"version {version}"),
                      f"{net}: {model.parameters['models'][net].text}, expected {version}")


def tests():
    return [Test("annotate", annotate, 120), Test("evaluate", evaluate, 120),
            Test("average", average, 60), Test("grid", grid, 60)]
