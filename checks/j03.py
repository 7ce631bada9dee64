"""J03: the search returns a legal analysis with its exact score; a wide beam returns the best one."""
from argparse import ArgumentError

import numpy as np

from pbt import joint
from pbt.engine import Test, check, check_eq, untimed

RULE = (
    "Joint models of six random networks (any reductions and inversion options, both chord sequence "
    "models) with random thresholds, branching factors, beam sizes and hash lengths, on 1-9 (rarely 15-40) random notes. "
    "Non-trivial: at least two chords, or a rejoined one, in the result; events count key changes, rejoined ranges and hypotheses."
)
ASSUMPTIONS = [
    "torch is the numpy stand-in in shims/.",
    "Decisions closer than 1e-4 to a threshold or to each other are not looked at.",
    "The length of the last chord is limited up to the onset of the last note.",
]


def compare(actual, expected):
    return np.isclose(actual, expected, rtol=1e-3, atol=2e-3)


def describe(case, music, params, models):
    case.note(f"notes at {[str(t) for t in music.times]}, end {music.end}")
    case.note(str({k: str(v) for k, v in params.items()}))
    for name in ("ccm", "csm", "ktm", "ksm"):
        model = models[name]
        shown = {k: ({a.name: b.name for a, b in v.items()} if isinstance(v, dict) else v)
                 for k, v in model.get_dataset_kwargs().items()}
        case.note(f"{type(model).__name__} {shown}")


def legal(case, music, state, params, reference):
    """Properties of the result that need no search."""
    first, path = joint.path_of(state)
    chords, changes = state.get_chords()
    check_eq([int(c) for c in chords], [step[0] for step in path], "get_chords")
    check_eq([int(c) for c in changes], [0] + [step[2] for step in path], "chord changes")
    check_eq(int(changes[-1]), music.count, "the chords do not reach the end of the piece")
    check(all(a < b for a, b in zip(changes, changes[1:])), f"chord changes {changes}")
    keys, key_changes = state.get_keys()
    check_eq(int(key_changes[-1]), music.count, "the keys do not reach the end of the piece")
    check(all(a < b for a, b in zip(key_changes, key_changes[1:])), f"key changes {key_changes}")
    check(all(a != b for a, b in zip(keys, keys[1:])), "a key change to the same key")
    check(all(a != b for a, b in zip(chords, chords[1:])), "a chord change to the same chord")
    check(set(key_changes) <= set(changes), "a key change without a chord change")
    for change in changes[:-1]:
        check(change in music.positions, f"a chord changes at note {change}, not the first of its onset")
    for chord, key, _ in path:
        check(reference.within(chord, key), f"chord {reference.chords[chord]} is too far from the "
              f"key {joint.KEYS[key]}")
    check_eq(path[0][1], first, "the first chord changes the key")
    return first, path


def no_forces(case, music, models, params):
    return joint.Forces()


def run(case, exhaustive, draw_forces=no_forces, only_refused=False):
    if exhaustive or not case.bool(0.06):
        music = joint.Music(case, 6 if exhaustive else 9)
    else:
        music = joint.Music(case, 40, 15)
    models = joint.draw_models(case)
    params = joint.draw_params(case, music, models)
    forces = draw_forces(case, music, models, params)
    reference = joint.Reference(music, models, params, forces)
    if exhaustive and not forces.ids(forces.keys, 0, 1) and case.bool(0.8):
        # All keys but one are a lot of hypotheses
        if len(forces.ids(forces.keys, 0, music.count)) == 0:
            forces.keys[0, 1] = case.int(8, 22) + 35 * case.int(0, 1)
    if exhaustive:
        beam, hash_length = 10 ** 6, None
    else:
        beam, hash_length = case.one_of([1, 2, 5, 20]), case.one_of([None, 1, 2, 5])
    describe(case, music, params, models)
    case.note(f"beam {beam}, hash {hash_length}, forces {forces}")
    problem = forces.problem(music, len(reference.chords))
    if only_refused and problem is None:
        case.discard()
    model = joint.make(models, params, beam_size=beam, hash_length=hash_length)
    if problem is not None:
        case.event(problem)
        try:
            with joint.gen.quiet():
                model.get_harmony(music.piece, **forces.kwargs())
        except ArgumentError:
            case.nontrivial(True)
            return
        check(False, f"these forces contradict each other ({problem}), but were accepted: {forces}")
    try:
        if not reference.range_table():
            case.event("no ranges")
            case.discard()
        with untimed():
            expected = reference.search(limit=1500) if exhaustive else {}
    except joint.NearTie:
        case.event("too close to call")
        case.discard()
    case.event(f"ranges {min(len(reference.range_table()), 3)}")
    if expected is None:
        case.event("too many hypotheses")
        case.discard()
    with joint.gen.quiet(), np.errstate(divide="ignore", invalid="ignore"):
        state = model.get_harmony(music.piece, **forces.kwargs())
    if exhaustive:
        best = max((max(values) for values in expected.values()), default=None)
        if best is None:
            check(state is None, "an analysis was found where none is legal")
            case.event("no analysis")
            return
        check(state is not None, "no analysis was found")
    elif state is None:
        case.event("beam ran out")
        return
    first, path = legal(case, music, state, params, reference)
    broken = forces.broken(first, path)
    check(broken is None, f"the analysis {path} from key {first} breaks a force: {broken}")
    if len({key for _, key, _ in path}) > 1:
        case.event("key change")
    if not exhaustive:
        try:
            with untimed():
                expected = reference.search((first, path), limit=4000)
        except joint.NearTie:
            case.event("too close to call")
            case.discard()
        if expected is None:
            case.event("too many hypotheses")
            case.discard()
    values = expected.get((first, path))
    check(values, f"the path {path} is not a legal path")
    check(any(compare(state.log_prob, value) for value in values),
          f"log-probability {state.log_prob} of the path {path}, expected {values[:5]}")
    case.nontrivial(len(path) > 1 or len(values) > 1)
    if len(values) > 1:
        case.event("path with rejoined ranges")
    if exhaustive:
        case.event("hypotheses", sum(len(v) for v in expected.values()))
        check(compare(state.log_prob, best),
              f"log-probability {state.log_prob} of {path}, but {best} is possible")
    else:
        case.event(f"beam {beam}")


def tests():
    return [Test("exhaustive", lambda case: run(case, True), 200),
            Test("beam", lambda case: run(case, False), 200)]
