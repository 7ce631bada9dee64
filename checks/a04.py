"""A04: what pitches a chord symbol stands for."""
import harmonic_inference.utils.harmonic_utils as hu
import numpy as np
from checks.a01 import raises_value_error
from pbt import theory as th
from pbt.engine import Test, check, check_eq

SCALE = 12
RULE = (
    "All chord types x roots x inversions x pitch types are enumerated; alterations are drawn from "
    "the annotation grammar. Non-trivial: root other than C, inversion other than 0, or at least one "
    "alteration."
)
ASSUMPTIONS = [
    "Alterations: the degree is relative to the chord's root within the local key's scale; a plain or "
    "flat 2/4/6 (or v) replaces the chord tone below, a sharp 2/4/6 (or ^) the one above, except #6 on "
    "a triad; everything else (and every +) is an addition.",
]

CHORDS = [
    (chord_type, root, pitch_type)
    for pitch_type in th.PITCH_TYPES
    for chord_type in th.TYPES
    for root in range(th.COUNT[pitch_type])
]


def content(case, item):
    chord_type, root, pitch_type = item
    case.note(f"{chord_type} on {root} ({pitch_type})")
    case.nontrivial(root != th.C_OF[pitch_type])
    expected = th.chord_pitches(chord_type, root, pitch_type)
    vector = hu.get_vector_from_chord_type(chord_type, pitch_type, root=root)
    check_eq(len(vector), th.COUNT[pitch_type], "length of the chord vector")
    check_eq(
        sorted(int(i) for i in np.where(np.array(vector) == 1)[0]),
        sorted(pitch for pitch in expected if th.in_range(pitch, pitch_type)),
        "pitches of the chord",
    )
    check_eq(int(np.sum(vector)), len([p for p in expected if th.in_range(p, pitch_type)]), "sum")
    if root == th.C_OF[pitch_type]:
        default = hu.get_vector_from_chord_type(chord_type, pitch_type)
        check_eq(list(default), list(vector), "the default root is C")
    check_eq(hu.get_chord_inversion_count(chord_type), len(expected), "number of inversions")
    missing = len(expected) + case.int(0, 5)
    rejected = False
    try:
        hu.get_bass_note(chord_type, root, missing, pitch_type)
    except (ValueError, IndexError):
        rejected = True
    check(rejected, f"inversion {missing} of {chord_type} has a bass note")
    for inversion, bass in enumerate(expected):
        if th.in_range(bass, pitch_type):
            check_eq(hu.get_bass_note(chord_type, root, inversion, pitch_type), bass,
                     f"bass of inversion {inversion}")
            check_eq(
                hu.get_bass_note(chord_type, root, inversion + len(expected), pitch_type,
                                 modulo=True),
                bass, f"bass of inversion {inversion} modulo",
            )
        else:
            case.event("bass out of range")
            check(raises_value_error(hu.get_bass_note, chord_type, root, inversion, pitch_type),
                  "a bass note outside of the TPC range was not rejected")


def strings(case, chord_type):
    case.note(chord_type)
    case.nontrivial()
    check_eq(hu.get_chord_string(chord_type), th.TYPE_STRING[chord_type], "chord type string")
    check_eq(hu.get_chord_type_from_string(th.TYPE_STRING[chord_type]), chord_type,
             "chord type from string")


FIGURES = [(None, 0), ("", 0), (float("nan"), 0), ("7", 0), ("6", 1), ("65", 1), ("64", 2),
           ("43", 2), ("2", 3)]


def figures(case, item):
    figure, inversion = item
    case.note(figure)
    case.nontrivial()
    check_eq(hu.get_chord_inversion(figure), inversion, f"inversion of figure {figure}")
    bad = case.one_of(["9", "5", "56", "46", "x", "42", "3", "53", "8", "1", "4", "76", "743", "665",
                       "66", "24", "22", " 6", "6 ", "0", "63", "72"])
    check(raises_value_error(hu.get_chord_inversion, bad), f"figure {bad} was not rejected")
    bad = case.one_of(["X", "maj", "", "7", "Mm", "o77"])
    check(raises_value_error(hu.get_chord_type_from_string, bad), f"type {bad} was not rejected")


def split(case):
    """A string of alterations splits into exactly the alterations it was made of."""
    changes = case.list(
        lambda c: c.one_of(["", "", "+", "^", "v"])
        + c.one_of(["", "", "b", "#", "bb", "##"])
        + c.one_of(["2", "4", "6", "9", "3", "5", "7", "8", "11", "13", "10", "12", "14"]),
        0, 5,
    )
    string = "".join(changes)
    case.note(string)
    case.nontrivial(len(changes) > 1)
    check_eq(hu.split_changes_into_list(string), changes, f"alterations of {string!r}")


def reference_changes(root, chord_type, changes, tonic, mode):
    """Ordered list of (removed or "", added with "+" for upper octaves)."""
    steps = "CDEFGAB"

    def step_of(tpc):
        return steps.index(th.spell(tpc)[0])

    degree = (step_of(root) - step_of(tonic)) % 7  # 0-indexed degree of the root in the key
    tones = th.chord_pitches(chord_type, root, th.TPC)
    pairs = []
    for prefix, accidentals, number in changes:
        interval = th.SCALES[mode][(degree + number - 1) % 7] + 7 * accidentals
        added = ("+" if number >= 8 else "") + str(tonic + interval)
        removed = ""
        if prefix != "+" and number in (2, 4, 6):
            above = prefix == "^" or (prefix == "" and accidentals > 0)
            if above:
                if number == 6 and prefix == "" and accidentals == 1 and len(tones) == 3:
                    removed = ""
                else:
                    removed = str(tones[number // 2])
            else:
                removed = str(tones[number // 2 - 1])
        pairs.append((removed, added))
    return pairs


def alterations(case):
    mode = case.one_of(th.MODES)
    tonic = case.int(10, 20)
    chord_type, root = th.draw_tpc_chord(case, low=5, high=28)
    triad = th.inversions(chord_type) == 3
    changes = []
    for _ in range(case.size(1, 3, mean=1.6)):
        number = case.one_of([2, 4, 6, 9, 4, 6, 11, 13, 3, 7, 8, 10, 5, 12, 14])
        prefix = case.weighted([(6, ""), (2, "+"), (1, "^"), (1, "v")])
        accidentals = case.weighted([(5, 0), (2, -1), (2, 1)])
        if prefix in "^v" and prefix and number not in (2, 4, 6):
            prefix = ""
        if number == 6 and triad and (prefix == "^" or (prefix == "" and accidentals > 1)):
            prefix = ""
            accidentals = min(accidentals, 0)
        changes.append((prefix, accidentals, number))
    string = "".join(
        prefix + th.accidental_string(acc) + str(number) for prefix, acc, number in changes
    )
    expected = reference_changes(root, chord_type, changes, tonic, mode)
    if len(set(removed for removed, _ in expected)) < len(expected):
        case.event("two additions or changes of one pitch")
    case.note(f"{chord_type} root {root}, changes {string}, key {tonic} {mode}")
    case.nontrivial()
    for prefix, _, _ in changes:
        case.event("prefix " + (prefix or "none"))
    result = hu.get_added_and_removed_pitches(root, chord_type, string, tonic, mode)
    result = list(result.items() if isinstance(result, dict) else result)
    check_eq(sorted(result), sorted(expected), f"alterations {string} of {chord_type} on {root} "
             f"in {tonic} {mode}")


def tests():
    return [
        Test("chord_content", content, space=CHORDS),
        Test("chord_type_strings", strings, space=th.TYPES),
        Test("figured_bass", figures, space=FIGURES, repeat=5),
        Test("split_alterations", split, 1500),
        Test("alterations", alterations, 1500),
    ]
