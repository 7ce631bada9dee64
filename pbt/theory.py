"""
An independent reference model of the music theory the repository encodes: pitches on the line of
fifths (tonal pitch classes, C = 15), semitones (C = 0), scales, numerals, chords. Nothing in here
is taken from harmonic_inference.utils; the enum types are imported only to be used as keys.
"""
from harmonic_inference.data.data_types import ChordType, KeyMode, PitchType

TPC, MIDI = PitchType.TPC, PitchType.MIDI
MAJOR, MINOR = KeyMode.MAJOR, KeyMode.MINOR
PITCH_TYPES = [TPC, MIDI]
MODES = [MAJOR, MINOR]
TYPES = [
    ChordType.MAJOR,
    ChordType.MINOR,
    ChordType.DIMINISHED,
    ChordType.AUGMENTED,
    ChordType.MAJ_MAJ7,
    ChordType.MAJ_MIN7,
    ChordType.MIN_MAJ7,
    ChordType.MIN_MIN7,
    ChordType.DIM7,
    ChordType.HALF_DIM7,
    ChordType.AUG_MIN7,
    ChordType.AUG_MAJ7,
]

LINE = "FCGDAEB"
C_TPC = 15
COUNT = {TPC: 35, MIDI: 12}
C_OF = {TPC: C_TPC, MIDI: 0}
NATURAL_SEMITONE = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}

REL_MIN, REL_MAX, REL_EXTRA = -14, 15, 5


def tpc_of(letter, accidentals):
    return 14 + LINE.index(letter.upper()) + 7 * accidentals


def midi_of(letter, accidentals):
    return (NATURAL_SEMITONE[letter.upper()] + accidentals) % 12


def spell(tpc):
    """Any line-of-fifths position -> its spelling."""
    accidentals, index = divmod(tpc - 14, 7)
    return LINE[index] + ("#" * accidentals if accidentals > 0 else "b" * -accidentals)


def tpc_to_midi(tpc):
    return (7 * (tpc - C_TPC)) % 12


MIDI_NAMES = ["C", "C#/Db", "D", "D#/Eb", "E", "F", "F#/Gb", "G", "G#/Ab", "A", "A#/Bb", "B"]

# Intervals, as fifths
P1, M2, M3, P4, P5, M6, M7 = 0, 2, 4, -1, 1, 3, 5
MIN3, MIN6, MIN7 = -3, -4, -2
SCALES = {MAJOR: [P1, M2, M3, P4, P5, M6, M7], MINOR: [P1, M2, MIN3, P4, P5, MIN6, MIN7]}

_TRIADS = {
    "M": [0, M3, P5],
    "m": [0, MIN3, P5],
    "o": [0, MIN3, P5 - 7],
    "+": [0, M3, P5 + 7],
}
_SEVENTHS = {"M": [M7], "m": [MIN7], "o": [MIN7 - 7], "": []}
_FORMULA = {
    ChordType.MAJOR: ("M", ""),
    ChordType.MINOR: ("m", ""),
    ChordType.DIMINISHED: ("o", ""),
    ChordType.AUGMENTED: ("+", ""),
    ChordType.MAJ_MAJ7: ("M", "M"),
    ChordType.MAJ_MIN7: ("M", "m"),
    ChordType.MIN_MAJ7: ("m", "M"),
    ChordType.MIN_MIN7: ("m", "m"),
    ChordType.DIM7: ("o", "o"),
    ChordType.HALF_DIM7: ("o", "m"),
    ChordType.AUG_MIN7: ("+", "m"),
    ChordType.AUG_MAJ7: ("+", "M"),
}
TYPE_STRING = {
    ChordType.MAJOR: "M",
    ChordType.MINOR: "m",
    ChordType.DIMINISHED: "o",
    ChordType.AUGMENTED: "+",
    ChordType.MAJ_MAJ7: "MM7",
    ChordType.MAJ_MIN7: "Mm7",
    ChordType.MIN_MAJ7: "mM7",
    ChordType.MIN_MIN7: "mm7",
    ChordType.DIM7: "o7",
    ChordType.HALF_DIM7: "%7",
    ChordType.AUG_MIN7: "+7",
    ChordType.AUG_MAJ7: "+M7",
}
TRIAD_OF = {
    chord_type: [t for t in TYPES[:4] if _FORMULA[t][0] == _FORMULA[chord_type][0]][0]
    for chord_type in TYPES
}


def chord_fifths(chord_type):
    """Offsets from the root, in fifths: root, third, fifth (, seventh)."""
    triad, seventh = _FORMULA[chord_type]
    return _TRIADS[triad] + _SEVENTHS[seventh]


def inversions(chord_type):
    return len(chord_fifths(chord_type))


def chord_pitches(chord_type, root, pitch_type):
    """Root, third, fifth (, seventh); TPC results may be out of [0, 35)."""
    if pitch_type == TPC:
        return [root + fifths for fifths in chord_fifths(chord_type)]
    return [(root + 7 * fifths) % 12 for fifths in chord_fifths(chord_type)]


NUMERALS = ["I", "II", "III", "IV", "V", "VI", "VII"]


def degree_interval(number, accidentals, mode, pitch_type):
    """Interval of scale degree ``number`` (1-7) with an accidental; MIDI is modulo 12."""
    fifths = SCALES[mode][number - 1] + 7 * accidentals
    return fifths if pitch_type == TPC else (7 * fifths) % 12


def accidental_string(count):
    return "#" * count if count > 0 else "b" * -count


def in_range(pitch, pitch_type):
    return 0 <= pitch < COUNT[pitch_type]


def relative_bounds(pad):
    extra = REL_EXTRA if pad else 0
    return REL_MIN - extra, REL_MAX + extra


REDUCTIONS = {
    "none": None,
    "identity": {t: t for t in TYPES},
    "triads": TRIAD_OF,
    "one": {t: ChordType.MAJOR for t in TYPES},
}


def draw_reduction(case, arbitrary=True):
    """None, one of the named reductions, or an arbitrary map whose values do not grow inversions."""
    kind = case.weighted(
        [(3, "none"), (2, "triads"), (1, "identity"), (1, "one")]
        + ([(3, "random")] if arbitrary else [])
    )
    if kind != "random":
        return kind, REDUCTIONS[kind]
    # Idempotent map: choose targets, which stay; every other type maps to a target.
    targets = [t for t in TYPES if case.bool(0.4)] or [ChordType.MAJOR]
    reduction = {}
    for chord_type in TYPES:
        reduction[chord_type] = chord_type if chord_type in targets else case.one_of(targets)
    return "random", reduction


def draw_nonidempotent_reduction(case):
    return {chord_type: case.one_of(TYPES) for chord_type in TYPES}


def chord_space(pitch_type, use_inversions, relative, pad, reduction):
    """The label space, in order: list of (root, chord_type, inversion)."""
    reduction = reduction or REDUCTIONS["identity"]
    if relative and pitch_type == TPC:
        low, high = relative_bounds(pad)
    else:
        low, high = 0, COUNT[pitch_type]
    kept = [t for t in TYPES if t in set(reduction.values())]
    space = []
    for chord_type in kept:
        for root in range(low, high):
            for inversion in range(inversions(chord_type) if use_inversions else 1):
                space.append((root, chord_type, inversion))
    return space


def draw_tpc_chord(case, low=0, high=34):
    """A (chord_type, root) whose chord tones are all within the TPC range."""
    chord_type = case.one_of(TYPES)
    offsets = chord_fifths(chord_type)
    low = max(low, 0 - min(offsets))
    high = min(high, 34 - max(offsets))
    return chord_type, case.int(low, high)
