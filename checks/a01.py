"""A01: pitch spellings, tonal pitch classes and MIDI pitch classes agree."""
import harmonic_inference.utils.harmonic_utils as hu
from pbt import theory as th
from pbt.engine import Test, check, check_eq

SCALE = 10
RULE = (
    "Every letter (both cases) with 0-6 flats or sharps, every TPC in [-60, 95] and every MIDI pitch "
    "in [-48, 60] is enumerated, plus random mixed strings of accidentals; a case is non-trivial if "
    "it has at least one accidental or lies outside of the TPC range."
)
ASSUMPTIONS = ["C is 15 as a TPC and 0 as a MIDI pitch class (documented in the API)."]

SPELLINGS = [
    (letter, accidentals)
    for accidentals in range(-6, 7)
    for letter in "CDEFGABcdefgab"
]


def raises_value_error(fn, *args, **kwargs):
    try:
        fn(*args, **kwargs)
    except ValueError:
        return True
    return False


def parse(case, item):
    letter, accidentals = item
    string = letter + th.accidental_string(accidentals)
    case.note(string)
    case.nontrivial(accidentals != 0)
    tpc = th.tpc_of(letter, accidentals)
    midi = th.midi_of(letter, accidentals)
    check_eq(hu.get_pitch_from_string(string, th.MIDI), midi, f"MIDI pitch of {string}")
    if th.in_range(tpc, th.TPC):
        case.event("in range")
        check_eq(hu.get_pitch_from_string(string, th.TPC), tpc, f"TPC of {string}")
        upper = letter.upper() + th.accidental_string(accidentals)
        check_eq(hu.get_pitch_string(tpc, th.TPC), upper, f"spelling of TPC {tpc}")
    else:
        case.event("out of range")
        check(
            raises_value_error(hu.get_pitch_from_string, string, th.TPC),
            f"{string} is outside of the TPC range but was not rejected",
        )


def tpc_strings(case, tpc):
    case.note(f"TPC {tpc}")
    string = hu.get_pitch_string(tpc, th.TPC)
    case.nontrivial(len(string) > 1)
    check_eq(string, th.spell(tpc), f"spelling of TPC {tpc}")
    check_eq(hu.get_pitch_from_string(string, th.MIDI), th.tpc_to_midi(tpc), f"MIDI of {string}")
    if th.in_range(tpc, th.TPC):
        check_eq(hu.get_pitch_from_string(string, th.TPC), tpc, f"round trip of TPC {tpc}")


def midi_strings(case, midi):
    case.note(f"MIDI {midi}")
    string = hu.get_pitch_string(midi, th.MIDI)
    case.nontrivial("/" in string or not 0 <= midi < 12)
    check_eq(string, th.MIDI_NAMES[midi % 12], f"name of MIDI pitch {midi}")
    check_eq(hu.get_pitch_from_string(string, th.MIDI), midi % 12, f"round trip of {string}")
    for name in string.split("/"):
        check_eq(hu.get_pitch_from_string(name, th.MIDI), midi % 12, f"enharmonic {name}")
        tpc = hu.get_pitch_from_string(name, th.TPC)
        check_eq(th.tpc_to_midi(tpc), midi % 12, f"TPC of {name}")


def accidentals(case):
    """Counting accidentals, before or after any body."""
    flats, sharps = case.size(0, 6), case.size(0, 6)
    in_front = case.bool()
    if case.bool(0.6):
        # only one kind, as in every real label
        if case.bool():
            flats = 0
        else:
            sharps = 0
    body = case.one_of(["I", "vii", "5", "C", "VI", "iii", "7", "x9y", "a", "B"])
    if in_front:
        string = "b" * flats + "#" * sharps + body
    else:
        string = body + "#" * sharps + "b" * flats
    case.note(f"{string} in_front={in_front}")
    case.nontrivial(flats + sharps > 0)
    adjustment, rest = hu.get_accidental_adjustment(string, in_front=in_front)
    check_eq((adjustment, rest), (sharps - flats, body), f"accidentals of {string}")


def tests():
    return [
        Test("parse_spelling", parse, space=SPELLINGS),
        Test("tpc_to_string", tpc_strings, space=list(range(-60, 96))),
        Test("midi_to_string", midi_strings, space=list(range(-48, 61))),
        Test("accidental_count", accidentals, 2000),
    ]
