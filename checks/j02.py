"""J02: a search state's path, objects, model inputs and log-probability agree with its history."""
import numpy as np

from pbt import shimmed  # noqa: F401
import torch
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key
from harmonic_inference.utils.beam_search_utils import State
from checks.d01 import same
from pbt import sets
from pbt import theory as th
from pbt.engine import Test, check, check_eq

RULE = (
    "Histories of 1-7 chord transitions, rejoins, key transitions, model log-probabilities and copies over "
    "random notes, with and without hashes. Non-trivial: at least two chords and a key transition or "
    "rejoin."
)
ASSUMPTIONS = [
    "Tonal pitch classes.",
    "Each model's log-probability is added at most once per chord, as in the search.",
    "For pitch-based priors, all pitches of the (reduced) chord are within the range of the prior.",
]

CHORDS = th.chord_space(th.TPC, True, False, False, None)
KEYS = [(tonic, mode) for mode in th.MODES for tonic in range(35)]
RELATIVE = th.chord_space(th.TPC, True, True, False, None)


class Step:
    """The reference: one chord of the path."""

    def __init__(self, chord, key, end):
        self.chord, self.key, self.end = chord, key, end
        self.base = 0.0
        self.csm = self.ktm = self.ksm = 0.0
        self.ran = False  # its KSM hidden state was updated

    def clone(self):
        other = Step(self.chord, self.key, self.end)
        other.__dict__.update(self.__dict__)
        return other

    @property
    def total(self):
        return self.base + self.csm + self.ktm + self.ksm


def offsets(chord, key):
    root, chord_type, inversion = CHORDS[chord]
    bass = th.chord_pitches(chord_type, root, th.TPC)[inversion]
    tonic = KEYS[key][0]
    return root - tonic, bass - tonic


def within(chord, key, extra):
    return all(th.REL_MIN - extra <= p < th.REL_MAX + extra for p in offsets(chord, key))


def draw_chord(case, near):
    """A chord id, usually close to the key."""
    while True:
        chord = case.int(0, len(CHORDS) - 1)
        root, chord_type, inversion = CHORDS[chord]
        if case.bool(0.8):
            root = max(0, min(34, KEYS[near][0] + case.sint(-20, 20)))
            chord = CHORDS.index((root, chord_type, inversion))
        bass = th.chord_pitches(chord_type, root, th.TPC)[inversion]
        if th.in_range(bass, th.TPC):
            return chord


class Context:
    def __init__(self, case):
        item = sets.draw_piece(case, high_chords=1, high_notes=10 if case.bool(0.9) else 40)
        self.piece = item.piece
        inputs = self.piece.get_inputs()
        self.durations = self.piece.get_duration_cache()
        self.onsets = [note.onset for note in inputs] + [inputs[-1].offset]
        self.levels = [note.onset_level for note in inputs] + [inputs[-1].offset_level]
        self.count = len(inputs)
        self.labels = {"chord": CHORDS, "key": KEYS}

    @property
    def caches(self):
        return (self.durations, self.onsets, self.levels, self.labels)

    def chord(self, start, step):
        root, chord_type, inversion = CHORDS[step.chord]
        tonic, mode = KEYS[step.key]
        return Chord(
            root, th.chord_pitches(chord_type, root, th.TPC)[inversion], tonic, mode, chord_type,
            inversion, self.onsets[start], self.levels[start], self.onsets[step.end],
            self.levels[step.end], sum(self.durations[start:step.end]), th.TPC,
        )


def key_object(path_keys, key):
    tonic, mode = KEYS[key]
    first_tonic, first_mode = KEYS[path_keys]
    return Key(tonic, tonic, first_tonic, mode, mode, first_mode, th.TPC)


def key_matches(actual, first, key, message):
    tonic, mode = KEYS[key]
    check_eq((actual.relative_tonic, actual.relative_mode, actual.local_tonic, actual.local_mode,
              actual.global_tonic, actual.global_mode),
             (tonic, mode, tonic, mode) + KEYS[first], message)


def rows_of(context, first, path, pad, last_only=False):
    """The model inputs of a path, as the datasets encode them."""
    rows, start, previous = [], 0, first
    for number, step in enumerate(path):
        if last_only and number + 1 < len(path):
            start, previous = step.end, step.key
            continue
        chord = context.chord(start, step)
        key = key_object(first, step.key)
        columns = sets.key_columns(key_object(first, previous) if previous != step.key else None,
                                   key)
        rows.append(sets.chord_row(chord, key, pad) + columns)
        start, previous = step.end, step.key
    return rows


def rows_encodable(first, path, pad):
    previous = first
    for step in path:
        if not within(step.chord, step.key, th.REL_EXTRA if pad else 0):
            return False
        if not -14 <= KEYS[step.key][0] - KEYS[previous][0] < 15:
            return False
        previous = step.key
    return True


def verify(case, context, state, first, path, hash_length):
    chords, changes = state.get_chords()
    check_eq(list(chords), [step.chord for step in path], "get_chords")
    check_eq(list(changes), [0] + [step.end for step in path], "chord changes")
    keys, key_changes = state.get_keys()
    expected_keys, expected_changes = [], [0]
    for step in path:
        if expected_keys and expected_keys[-1] == step.key:
            expected_changes[-1] = step.end
        else:
            expected_keys.append(step.key)
            expected_changes.append(step.end)
    check_eq(list(keys), expected_keys, "get_keys")
    check_eq(list(key_changes), expected_changes, "key changes")
    check(np.isclose(state.log_prob, sum(step.total for step in path), rtol=1e-6, atol=1e-6),
          f"log_prob is {state.log_prob}, expected {sum(step.total for step in path)}")
    check_eq(state.can_key_transition(), len(path) > 1, "can_key_transition")
    if hash_length is None:
        check_eq(state.get_hash(), id(state), "hash")
    else:
        pairs = [None] * hash_length + [(first, None)] + [(s.key, s.chord) for s in path]
        if len(path):
            expected = tuple(pairs[-hash_length:])
            check_eq(state.get_hash(), expected, "hash")
    key_matches(state.get_key(th.TPC, context.labels), first, path[-1].key if path else first,
                "get_key")
    if not path:
        return
    last = path[-1]
    check_eq(state.is_valid(), True, "is_valid")
    check_eq(state.is_valid(check_key=True), within(last.chord, last.key, 0),
             "the state must change key if the chord is too far from it")
    start = path[-2].end if len(path) > 1 else 0
    chord, expected = state.get_chord(th.TPC, *context.caches), context.chord(start, last)
    for name in ("root", "bass", "key_tonic", "key_mode", "chord_type", "inversion", "onset",
                 "onset_metrical_level", "offset", "duration", "pitch_type"):
        if hasattr(expected, name):
            check_eq(getattr(chord, name), getattr(expected, name), f"chord.{name}")
    if within(last.chord, last.key, 0):
        relative = (CHORDS[last.chord][0] - KEYS[last.key][0],) + tuple(CHORDS[last.chord][1:])
        check_eq(state.get_relative_chord_index(th.TPC, *context.caches), RELATIVE.index(relative),
                 "get_relative_chord_index")
    if rows_encodable(path[-2].key if len(path) > 1 else first, path[-1:], False):
        row = rows_of(context, first, path, False, True)[-1]
        same(state.get_csm_input(th.TPC, *context.caches), [row], "CSM input")
    if rows_encodable(first, path, True):
        rows = rows_of(context, first, path, True)
        same(state.get_ktm_input(th.TPC, *context.caches), rows[-1:], "KTM input")
        ran = [number for number, step in enumerate(path[:-1]) if step.ran]
        begin = ran[-1] + 1 if ran else 0
        same(state.get_ksm_input(th.TPC, *context.caches), rows[begin:], "KSM input")
        if ran:
            case.event("KSM input from the last run")


NUMBER = [0]


def token(case):
    """A new hidden state."""
    value = case.int(0, 10 ** 6) / 1000.0
    return (torch.tensor(np.full((1, 2), value)), torch.tensor(np.full((1, 2), value + 0.5)))


def token_eq(actual, expected, message):
    if expected is None or actual is None:
        check(actual is expected, f"{message}: {actual}, expected {expected}")
        return
    same(np.array(actual[0]), np.array(expected[0]), message)
    same(np.array(actual[1]), np.array(expected[1]), message)


def hidden(new, csm, rest, prior, message):
    token_eq(new.csm_hidden_state, csm.csm_hidden_state, message + ": CSM hidden state")
    token_eq(new.ktm_hidden_state, rest.ktm_hidden_state, message + ": KTM hidden state")
    token_eq(new.ksm_hidden_state, rest.ksm_hidden_state, message + ": KSM hidden state")
    if prior.csm_log_prior is None:
        check(new.csm_log_prior is None, message + ": prior")
    else:
        same(new.csm_log_prior, prior.csm_log_prior, message + ": CSM prior")


def draw_log(case):
    return -case.int(0, 2000) / 256.0


def prior_for(case, state, pitch_based, space):
    if pitch_based:
        return np.array([case.int(1, 99) / 100 for _ in range(29)])
    # Few different values; the index matters
    base = case.int(1, 97)
    return -((np.arange(len(space)) * base) % 1009) / 64.0


def models(case, context, state, states, first, path, hash_length, options):
    """The models' part of a step; returns the state and whether the key changed."""
    pitch_based, inversions_out, reduction, space = options
    chord, changed = path[-1].chord, False
    # As in the search: KTM, then either KSM or CSM
    if case.bool(0.2):
        copied = state.copy()
        hidden(copied, state, state, state, "copy")
        copied_value = copied.log_prob
        state.add_ktm_log_prob(-1000.0)
        check_eq(copied.log_prob, copied_value, "log-probability of a copy")
        state = copied
        verify(case, context, state, first, path, hash_length)
    value = draw_log(case)
    state.add_ktm_log_prob(value)
    path[-1].ktm = value
    state.ktm_hidden_state = token(case)
    if case.bool(0.2):
        state = state.copy()
        case.event("copy")
    if state.can_key_transition() and case.bool(0.5):
        key = max(0, min(34, KEYS[path[-1].key][0] + case.sint(-14, 14))) + 35 * case.int(0, 1)
        value = draw_log(case)
        new = state.key_transition(key, value, th.TPC, context.labels)
        case.note(f"to key {KEYS[key]}")
        if within(chord, key, 0):
            check(new is not None, "a key transition was refused")
            hidden(new, state, states[-1], state, "key transition")
            path[-1].key, path[-1].ksm = key, value
            state, changed = new, True
            case.event("key transition")
            state.ktm_hidden_state = token(case)
            state.ksm_hidden_state = token(case)
            path[-1].ran = True
        else:
            check(new is None, "a key too far from the chord was allowed")
            case.event("key too far")
    if path[-1].ksm == 0 and not path[-1].ran and within(chord, path[-1].key, 0):
        value = expected_prior(case, state, path, pitch_based, inversions_out, reduction, space)
        if value is not None:
            state.add_csm_prior(pitch_based, th.TPC, *context.caches, inversions_out, reduction)
            path[-1].csm = value
            case.event("CSM prior")
    verify(case, context, state, first, path, hash_length)
    if case.bool(0.2):
        state = state.copy()
        case.event("copy")
        verify(case, context, state, first, path, hash_length)
    # The CSM runs
    state.csm_hidden_state = token(case)
    state.csm_log_prior = prior_for(case, state, pitch_based, space)
    return state, changed


def history(case):
    context = Context(case)
    hash_length = case.one_of([None, 1, 2, 5])
    first = case.int(0, len(KEYS) - 1)
    inversions_out = case.bool(0.6)
    reduction = None if inversions_out else th.draw_reduction(case)[1]
    pitch_based = case.bool(0.3)
    space = th.chord_space(th.TPC, inversions_out, True, False, reduction)
    state = State(key=first, hash_length=hash_length)
    state.csm_log_prior = prior_for(case, state, False, RELATIVE)
    path = []
    states = [state]  # states[i]: state before path[i]
    case.note(f"{context.count} notes, first key {first}, hash {hash_length}")
    changed = False
    verify(case, context, state, first, path, hash_length)
    most = 7 if case.bool(0.95) else 30
    while (path[-1].end if path else 0) < context.count and len(path) < most:
        position = path[-1].end if path else 0
        end = case.int(position + 1, context.count)
        if most > 7:
            end = min(end, position + case.int(1, 3))
        log_prob = draw_log(case)
        if path and case.bool(0.25):
            # Rejoin
            previous = states[-1]
            key = path[-2].key if len(path) > 1 else first
            if within(path[-1].chord, key, th.REL_EXTRA):
                new = state.rejoin(end, log_prob, th.TPC, context.labels)
                hidden(new, previous, previous, previous, "rejoin")
                step = Step(path[-1].chord, key, end)
                step.base = path[-1].base + log_prob
                path = path[:-1] + [step]
                state, changed = new, True
                case.event("rejoin")
                case.note(f"rejoin until {end}")
                verify(case, context, state, first, path, hash_length)
                if case.bool(0.3):
                    # As if the models had added nothing; the CSM always runs
                    state.csm_hidden_state = token(case)
                    state.csm_log_prior = prior_for(case, state, pitch_based, space)
                    continue
                state, moved = models(case, context, state, states, first, path, hash_length,
                                      (pitch_based, inversions_out, reduction, space))
                changed = changed or moved
                continue
        chord = draw_chord(case, path[-1].key if path else first)
        key = path[-1].key if path else first
        new = state.chord_transition(chord, end, log_prob, th.TPC, context.labels)
        case.note(f"chord {CHORDS[chord][0], CHORDS[chord][1].name, CHORDS[chord][2]} until {end}")
        if not within(chord, key, th.REL_EXTRA):
            check(new is None, "a chord too far from the key was allowed")
            case.event("chord too far")
            continue
        check(new is not None, f"a chord at {offsets(chord, key)} from the tonic was refused")
        hidden(new, state, state, state, "chord transition")
        states.append(state)
        step = Step(chord, key, end)
        step.base = log_prob
        path = path + [step]
        state = new
        verify(case, context, state, first, path, hash_length)
        state, moved = models(case, context, state, states, first, path, hash_length,
                              (pitch_based, inversions_out, reduction, space))
        changed = changed or moved
    case.nontrivial(len(path) > 1 and changed)


def expected_prior(case, state, path, pitch_based, inversions_out, reduction, space):
    start = path[-2].end if len(path) > 1 else 0
    length = path[-1].end - start
    root, chord_type, inversion = CHORDS[path[-1].chord]
    root -= KEYS[path[-1].key][0]
    prior = np.array(state.csm_log_prior, dtype=float)
    if start == 0:
        return prior[RELATIVE.index((root, chord_type, inversion))] * length
    if reduction is not None:
        chord_type = reduction[chord_type]
    if pitch_based:
        tones = [p + 14 for p in th.chord_pitches(chord_type, root, th.TPC)]
        if not all(0 <= tone < 29 for tone in tones):
            return None
        case.event("pitch-based prior")
        return sum(np.log(prior[i] if i in tones else 1 - prior[i]) for i in range(29)) * length
    return prior[space.index((root, chord_type, inversion if inversions_out else 0))] * length


SCALE = 3


def tests():
    return [Test("history", history, 1600)]
