"""J05: the initial chord model is the smoothed distribution of the first chords of the pieces."""
import numpy as np

from pbt import shimmed  # noqa: F401
from harmonic_inference.data.chord import Chord
from harmonic_inference.models import initial_chord_models as icm
from harmonic_inference.utils.data_utils import load_kwargs_from_json
from pbt import estimates, gen
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Random lists of 1-12 chords (few distinct ones) in major and minor keys, any smoothing; random pieces to "
    "evaluate on. Non-trivial: a chord occurs twice, or there is more than one piece."
)
ASSUMPTIONS = ["Inversions are not kept if seventh chords are reduced to triads."]


def draw_chord(case, pitch_type):
    tonic = case.int(12, 20) if pitch_type == th.TPC else case.int(0, 11)
    mode = case.one_of(th.MODES)
    chord_type = case.one_of(th.TYPES[:6])
    interval = case.one_of([0, 1, -1, 4, -14, 14]) if pitch_type == th.TPC else case.int(0, 11)
    inversion = case.int(0, th.inversions(chord_type) - 1)
    root = tonic + interval if pitch_type == th.TPC else (tonic + interval) % 12
    if not th.in_range(root, pitch_type):
        return None
    chord = Chord(root, root, tonic, mode, chord_type, inversion, (0, 0), 0, (1, 0), 0, 1,
                  pitch_type)
    return chord, (interval, chord_type, inversion), mode


def priors(chords, smoothing, pitch_type):
    space = th.chord_space(pitch_type, True, True, False, None)
    result = {}
    for mode in th.MODES:
        counts = np.full(len(space), smoothing / len(space))
        for _, label, own in chords:
            if own == mode:
                counts[space.index(label)] += 1
        result[mode] = counts / counts.sum()
    return result


def train(case):
    pitch_type = case.one_of(th.PITCH_TYPES)
    chords = [chord for chord in (draw_chord(case, pitch_type) for _ in range(case.int(1, 12) if case.bool(0.97) else 300))
              if chord is not None]
    if not chords:
        case.discard()
    chords += [case.one_of(chords) for _ in range(case.int(0, 4))]
    smoothing = case.one_of([1.0, 1, 0.01, 10.0, 3.5])
    kwargs = {} if smoothing == 1.0 and case.bool() else {"add_n_smoothing": smoothing}
    case.note(f"{[(label, mode) for _, label, mode in chords]} smoothing {smoothing}")
    labels = [(label, mode) for _, label, mode in chords]
    case.nontrivial(len(set(labels)) < len(labels))
    with gen.scratch() as folder:
        path = folder / "prior.json"
        icm.train_icm([chord for chord, _, _ in chords], case.one_of([path, str(path)]), **kwargs)
        model = icm.SimpleInitialChordModel(load_kwargs_from_json(path))
    check_eq(model.PITCH_TYPE, pitch_type, "pitch type")
    expected = priors(chords, smoothing, pitch_type)
    for mode in th.MODES:
        minor = mode == th.MINOR
        given = np.array(model.get_prior(minor, log=False))
        check_eq(given.shape, expected[mode].shape, "number of priors")
        bad = np.where(~np.isclose(given, expected[mode], rtol=1e-9, atol=0))[0]
        check(len(bad) == 0, f"priors in {mode}: labels {bad[:4]} have {given[bad[:4]]}, "
              f"expected {expected[mode][bad[:4]]}")
        check(np.allclose(model.get_prior(minor), np.log(expected[mode]), rtol=1e-9), "log prior")
        check(np.allclose(model.get_prior(minor, log=True), np.log(expected[mode]), rtol=1e-9),
              "log prior")
        check(abs(given.sum() - 1) < 1e-9, "priors do not sum to 1")


def reduced(case):
    """A model that distinguishes fewer chords has the sum of what they come from."""
    pitch_type = case.one_of(th.PITCH_TYPES)
    space = th.chord_space(pitch_type, True, True, False, None)
    rng = np.random.RandomState(case.draw(10 ** 6))
    given = {mode: rng.uniform(0.1, 1, len(space)) for mode in th.MODES}
    for mode in th.MODES:
        given[mode] /= given[mode].sum()
    inversions = case.bool()
    name, reduction = th.draw_reduction(case)
    if inversions and reduction is not None and any(
            th.inversions(a) > th.inversions(b) for a, b in reduction.items()):
        inversions = False
    case.note(f"{pitch_type} inversions {inversions} reduction {name}")
    case.nontrivial(not inversions or reduction is not None)
    with gen.quiet():
        model = icm.SimpleInitialChordModel(
            {"pitch_type": pitch_type, "inversions_present": True, "reduction_present": None,
             "major": list(given[th.MAJOR]), "minor": list(given[th.MINOR])},
            use_inversions=inversions, reduction=reduction)
    targets = {label: i for i, label in enumerate(
        th.chord_space(pitch_type, inversions, True, False, reduction))}
    for mode in th.MODES:
        expected = np.zeros(len(targets))
        for value, (root, chord_type, inversion) in zip(given[mode], space):
            if reduction is not None:
                chord_type = reduction[chord_type]
            expected[targets[root, chord_type, inversion if inversions else 0]] += value
        actual = np.array(model.get_prior(mode == th.MINOR, log=False))
        check_eq(actual.shape, expected.shape, "number of priors")
        check(np.allclose(actual, expected, rtol=1e-9, atol=0), f"reduced priors in {mode}")
        check(np.allclose(model.get_prior(mode == th.MINOR), np.log(expected), rtol=1e-9),
              "reduced log prior")


def evaluate(case):
    items = [estimates.Estimated(case) for _ in range(case.int(1, 4))]
    space = th.chord_space(th.TPC, True, True, False, None)
    chords = []
    for item in items:
        chord, key = item.piece.get_chords()[0], item.piece.get_keys()[0]
        label = (chord.root - chord.key_tonic, chord.chord_type, chord.inversion)
        if label not in space:
            case.discard()
        chords.append((chord, label, key.relative_mode))
    extra = [chord for chord in (draw_chord(case, th.TPC) for _ in range(case.int(0, 4))) if chord]
    weights = {}
    # A distribution with peaks, or a rather flat one
    base = case.one_of([1e-4, 0.05])
    for mode in th.MODES:
        weights[mode] = np.full(len(space), base)
        for number, (_, label, own) in enumerate(case.shuffled(chords + extra)):
            if own == mode:
                # No two are equally likely
                weights[mode][space.index(label)] += 1 + number / 7
        weights[mode][case.int(0, len(space) - 1)] += 0.37
        weights[mode] /= weights[mode].sum()
    case.note(f"first chords {[(label, mode) for _, label, mode in chords]}")
    case.nontrivial(len(items) > 1)
    model = icm.SimpleInitialChordModel({
        "pitch_type": th.TPC, "inversions_present": True, "reduction_present": None,
        "major": list(weights[th.MAJOR]), "minor": list(weights[th.MINOR])})
    result = model.evaluate([item.piece for item in items])
    correct, loss = 0, 0
    for _, label, mode in chords:
        index = space.index(label)
        correct += index == int(np.argmax(weights[mode]))
        loss -= np.log(weights[mode][index])
    case.event(f"{correct} of {len(items)} correct")
    check(np.isclose(result["acc"], 100 * correct / len(items)), f"accuracy {result['acc']}")
    check(np.isclose(result["loss"], loss / len(items)), f"loss {result['loss']}")


SCALE = 3


def tests():
    return [Test("train", train, 800), Test("evaluate", evaluate, 300),
            Test("reduced", reduced, 100)]
