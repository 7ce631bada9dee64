"""J04: the analysis complies with everything that is forced; forces that contradict each other are refused."""
from checks.j03 import run
from pbt import joint
from pbt.engine import Test

RULE = (
    "Joint models and pieces as in J03, with random forced chord and key changes, non-changes, chords and keys "
    "(mostly consistent, some beyond the end, within an onset, or contradicting). Non-trivial: refused, or at "
    "least two chords in the result; events count what was contradictory."
)
ASSUMPTIONS = [
    "torch is the numpy stand-in in shims/.",
    "Decisions closer than 1e-4 to a threshold or to each other are not looked at.",
    "Non-changes are not forced at the first note.",
]


def draw_index(case, music):
    if case.bool(0.04):
        return music.count + case.int(0, 1)
    if case.bool(0.1):
        return case.int(1, music.count)
    return case.one_of(music.positions[1:] or [1])


def draw_range(case, music):
    start = case.one_of(music.positions) if case.bool(0.9) else case.int(0, music.count - 1)
    ends = [i for i in music.positions + [music.count] if i > start]
    return start, case.one_of(ends) if case.bool(0.9) else case.int(start + 1, music.count)


def draw_contradictions(case, music, models, params):
    forces = draw_forces(case, music, models, params, 0.1 if case.bool(0.5) else 1.0)
    if music.count < 2 or case.bool(0.4):
        return forces
    # Something and its opposite at the same note
    space = joint.Reference(music, models, params, forces).chords
    index = case.one_of(music.positions[1:] or [1])
    before, after = case.int(0, index - 1), case.int(index + 1, music.count)
    name = case.one_of(["chord", "key"])
    labels = {"chord": forces.chords, "key": forces.keys}
    first, second = [case.draw(len(space) if name == "chord" else 70) for _ in "ab"]
    kind = case.draw(6)
    if kind == 0:
        labels[name][before, index], labels[name][index, after] = first, second
        getattr(forces, name + "_non_changes").add(index)
    elif kind == 1:
        labels[name][before, after] = first
        getattr(forces, name + "_changes").add(index)
    elif kind == 2:
        labels[name][before, index], labels[name][index, after] = first, first
        getattr(forces, case.one_of([name, "key"]) + "_changes").add(index)
    elif kind == 3:
        getattr(forces, case.one_of([name, "chord"]) + "_non_changes").add(index)
        getattr(forces, case.one_of([name, "key"]) + "_changes").add(index)
    elif kind == 4:
        forces.keys[before, index], forces.keys[index, after] = case.draw(70), case.draw(70)
        forces.chord_non_changes.add(index)
    else:
        labels[name][before, index + case.int(0, after - index)] = first
        labels[name][case.int(0, index - 1), after] = second
    return forces


def draw_forces(case, music, models, params, consistent=0.85):
    forces = joint.Forces()
    space = joint.Reference(music, models, params, forces).chords
    # A few chords and keys that go together
    center = case.int(8, 22)
    keys = [center + shift + 35 * mode for shift in (0, 1, -3) for mode in (0, 1)]
    roots = [center + shift for shift in (0, 1, 2)]
    chords = [i for i, chord in enumerate(space) if chord[0] in roots]
    chords = [case.one_of(chords) for _ in "abc"]
    for _ in range(case.size(1, 5, 2.5)):
        kind = case.weighted([(2, "chord_changes"), (2, "chord_non_changes"), (2, "key_changes"),
                              (2, "key_non_changes"), (3, "chords"), (3, "keys")])
        if kind == "chords":
            forces.chords[draw_range(case, music)] = (
                case.one_of(chords) if case.bool(0.97) else case.one_of([-1, len(space)]))
        elif kind == "keys":
            forces.keys[draw_range(case, music)] = (
                case.one_of(keys) if case.bool(0.97) else case.one_of([-1, 70]))
        else:
            index = draw_index(case, music)
            getattr(forces, kind).add(index)
            if "non" not in kind and case.bool(0.05):
                forces.at_zero.add(kind)
        if case.bool(consistent) and forces.problem(music, len(space)):
            # Mostly consistent
            if kind in ("chords", "keys"):
                getattr(forces, kind).popitem()
            else:
                getattr(forces, kind).discard(index)
    return forces


def tests():
    return [Test("exhaustive", lambda case: run(case, True, draw_forces), 200),
            Test("beam", lambda case: run(case, False, draw_forces), 200),
            Test("refused", lambda case: run(case, False, draw_contradictions, True), 900)]
