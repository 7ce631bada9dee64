"""J01: a beam keeps exactly the best states (one per hash) that were added to it."""
from pbt import shimmed  # noqa: F401
from harmonic_inference.utils.beam_search_utils import Beam, HashedBeam, State
from pbt.engine import Test, check, check_eq

RULE = (
    "Sequences of 1-40 operations (add, forced add, fits_in_beam, empty) on beams of size 1-6 (rarely up "
    "to 500 on beams of 50-200) with states of distinct log-probabilities and few hashes. Non-trivial: the beam was full once, or a "
    "better state of the same hash arrived."
)
ASSUMPTIONS = ["No two states have the same log-probability.", "The beam size is positive."]

ROOT = {}


def make_state(case, log_prob, kind, counter):
    """kind None: unhashed; else one of few hashes."""
    if not kind:
        return State(chord=case.int(0, 3), key=case.int(0, 2), log_prob=log_prob)
    length, chords = kind
    state = State(key=case.int(0, 1), hash_length=length)
    for _ in range(case.int(1, length)):
        state = State(chord=case.int(0, chords), key=case.int(0, 1), change_index=counter,
                      log_prob=log_prob, prev_state=state, hash_length=length)
    return state


def contents(beam):
    return sorted((state.log_prob for state in beam), reverse=True)


def history(case):
    hashed = case.bool(0.7)
    kind = case.int(1, 3) if hashed else None
    large = case.bool(0.01)
    size = case.one_of([50, 100, 200]) if large else case.int(1, 6)
    beam = (HashedBeam if hashed else Beam)(size)
    count = case.int(100, 500) if large else case.size(1, 40, mean=16)
    values = case.shuffled(range(count))
    model = {}  # hash -> state
    case.note(f"{'hashed' if hashed else 'plain'} beam of size {size}, {count} operations")
    for number, value in enumerate(values):
        log_prob = -float(value)
        if case.bool(0.04):
            beam.empty()
            model = {}
            case.event("emptied")
            check_eq(len(beam), 0, "size of an emptied beam")
            check(beam.get_top_state() is None, "an emptied beam has a top state")
        state = make_state(case, log_prob, kind and (kind, 30 if large else 1), number)
        key = state.get_hash()
        if not hashed:
            check_eq(key, id(state), "hash of an unhashed state")
        force = case.bool(0.1)
        rival = model.get(key)
        worst = min(model.values(), key=lambda s: s.log_prob) if model else None
        full = len(model) >= size
        fits_global = not full or worst.log_prob < log_prob
        fits_hash = rival is None or rival.log_prob < log_prob
        check_eq(beam.fits_in_beam(state, check_hash=False), fits_global,
                 f"operation {number}: fits_in_beam (without hash) of {log_prob}")
        check_eq(beam.fits_in_beam(state), fits_global and fits_hash,
                 f"operation {number}: fits_in_beam of {log_prob}")
        if rival is not None:
            expected = fits_hash
            if expected:
                model[key] = state
                case.nontrivial()
                case.event("replaced its hash")
        else:
            expected = force or fits_global
            if expected:
                if full and not force:
                    model = {k: s for k, s in model.items() if s is not worst}
                    case.nontrivial()
                    case.event("pushed out the worst")
                if force and full:
                    case.event("forced beyond the size")
                model[key] = state
            else:
                case.nontrivial()
                case.event("rejected")
        check_eq(beam.add(state, force=force) if force else beam.add(state), expected,
                 f"operation {number}: add({log_prob}, force={force})")
        kept = sorted((s.log_prob for s in model.values()), reverse=True)
        check_eq(contents(beam), kept, f"operation {number}: log-probabilities in the beam")
        check_eq(len(beam), len(kept), "length of the beam")
        check(beam.get_top_state().log_prob == kept[0], "top state")
        check(all(s.is_valid() for s in beam), "an invalid state is in the beam")
        check(len({s.get_hash() for s in beam}) == len(kept), "two states of the same hash")


SCALE = 8


def tests():
    return [Test("history", history, 6000)]
