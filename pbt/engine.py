"""
A small property-based testing engine in the style of Hypothesis/minithesis.

Hypothesis is not installable for the interpreter that runs harmonic_inference here (PyPy 3.9), so
this module provides what the checks need:

* every random decision of a case is one bounded integer drawn through ``Case.draw``; the list of
  the drawn integers (the *choice sequence*) determines the case completely;
* shrinking works on the choice sequence (delete blocks, zero blocks, lower values), so every
  generator shrinks and every failure can be replayed from its choice sequence alone;
* case number ``i`` of a test is a pure function of (VERIF_SEED, property, test name, i): the order
  in which the cases run, and on how many processes, does not matter;
* ``event``/``nontrivial``/``note`` classify what was generated, for the evidence file.
"""
import contextlib
import hashlib
import random
import signal
import traceback

CASE_CPU_S = 60.0  # a case normally needs milliseconds, a few seconds at most


class Discard(Exception):
    """The generated case is outside of the property's domain (counted, never a failure)."""


class Overrun(Exception):
    """A replayed choice sequence was too short (only happens while shrinking)."""


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """Something is wrong with the machinery (never reported as a violation)."""


def derive_seed(*parts):
    digest = hashlib.sha256("\x1f".join(str(part) for part in parts).encode()).digest()
    return int.from_bytes(digest[:8], "big")


MAX_CHOICES = 20000


class Case:
    """One generated test case: a source of choices plus its classification."""

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.events = {}
        self.is_nontrivial = False
        self.notes = []
        self.forced = []

    # ---- drawing ----
    def draw(self, n):
        """An integer in [0, n], recorded. Lower is simpler."""
        n = int(n)
        if n < 0:
            raise HarnessError(f"draw({n})")
        if len(self.choices) >= MAX_CHOICES:
            raise Overrun()
        if self.prefix is not None:
            index = len(self.choices)
            if index >= len(self.prefix):
                raise Overrun()
            value = min(int(self.prefix[index]), n)
        elif self.forced:
            value = min(self.forced.pop(0), n)
        else:
            value = 0 if n == 0 else self.rng.randint(0, n)
        self.choices.append(value)
        return value

    def int(self, low, high):
        """Uniform in [low, high]; shrinks towards low."""
        return low + self.draw(high - low)

    def sint(self, low, high):
        """Uniform in [low, high], low <= 0 <= high; shrinks towards 0."""
        value = self.draw(high - low)
        # 0, 1, .., high, -1, .., low
        return value if value <= high else high - value

    def bool(self, p=0.5):
        """True with probability p; shrinks towards False."""
        value = self.draw(999)
        return value >= 1000 - int(round(p * 1000))

    def one_of(self, options):
        """An element of the sequence; shrinks towards the first."""
        options = list(options)
        return options[self.draw(len(options) - 1)]

    def weighted(self, pairs):
        """An element of [(weight, element), ...]; shrinks towards the first."""
        total = sum(weight for weight, _ in pairs)
        value = self.draw(total - 1)
        for weight, element in pairs:
            if value < weight:
                return element
            value -= weight
        raise HarnessError("weighted")

    def size(self, low, high, mean=None):
        """A collection size in [low, high], skewed towards the small ones."""
        if high <= low:
            return low
        if mean is None:
            mean = low + (high - low) / 3
        p = 1.0 / (1.0 + max(mean - low, 0.01))
        value = low
        while value < high and self.bool(1.0 - p):
            value += 1
        return value

    def list(self, fn, low, high, mean=None):
        return [fn(self) for _ in range(self.size(low, high, mean))]

    def subset(self, options, p=0.5):
        return [option for option in options if self.bool(p)]

    def shuffled(self, options):
        options = list(options)
        for i in range(len(options) - 1):
            j = i + self.draw(len(options) - 1 - i)
            options[i], options[j] = options[j], options[i]
        return options

    # ---- classification ----
    def event(self, label, count=1):
        self.events[label] = self.events.get(label, 0) + count

    def nontrivial(self, condition=True):
        self.is_nontrivial = bool(self.is_nontrivial or condition)

    def note(self, value):
        self.notes.append(value if isinstance(value, str) else repr(value))

    def discard(self):
        raise Discard()


def check(condition, message="property does not hold", *args):
    if not condition:
        raise Violation(message % args if args else message)


def check_eq(actual, expected, message=""):
    if not actual == expected:
        raise Violation(f"{message}: got {actual!r}, expected {expected!r}")


class Test:
    """One executable statement of (a part of) a property, over generated cases."""

    def __init__(self, name, fn, quick=None, thorough=None, space=None, repeat=1):
        """
        fn(case) is run on ``quick``/``thorough`` random cases. If ``space`` (a list) is given,
        fn(case, item) is instead run for every item of that finite space (``repeat`` times each,
        20 times as often when thorough).
        """
        self.name = name
        self.space = space
        self.repeat = repeat
        if space is None:
            self.fn = fn
            self.quick = quick
            self.thorough = quick * 20 if thorough is None else thorough
        else:
            self.fn = lambda case: fn(case, space[case.draw(len(space) - 1)])
            self.quick = len(space) * repeat
            self.thorough = self.quick if repeat == 1 else self.quick * 20


def _is_violation(error, repo_dir):
    """Distinguish a failed property from a failure of the machinery."""
    if isinstance(error, Violation):
        return True
    if type(error).__name__ == "ShimMissing":
        return False
    frames = traceback.extract_tb(error.__traceback__)
    in_repo = any(frame.filename.startswith(repo_dir) for frame in frames)
    if in_repo:
        # Valid input, and the code under test raised an undocumented exception.
        return True
    if isinstance(error, (ImportError, NameError, HarnessError, AttributeError, OSError)):
        return False
    # The oracle could not interpret what the code returned.
    return True


class Failure:
    def __init__(self, kind, message, where, trace):
        self.kind = kind  # "violation" or "harness"
        self.message = message
        self.where = where
        self.trace = trace


class Endless(Violation):
    """The case used up its CPU time."""


def _on_alarm(_signum, _frame):
    raise Endless(f"no result after {CASE_CPU_S:.0f} s of CPU time")


@contextlib.contextmanager
def untimed():
    """For the oracle's own computations, which say nothing about the code under test."""
    remaining = signal.setitimer(signal.ITIMER_VIRTUAL, 0)[0]
    try:
        yield
    finally:
        if remaining:
            signal.setitimer(signal.ITIMER_VIRTUAL, remaining)


def run_case(test, case, repo_dir):
    """Run one case. Returns "ok", "discard", "overrun", or a Failure."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return _run_case(test, case, repo_dir)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _run_case(test, case, repo_dir):
    try:
        test.fn(case)
    except Discard:
        return "discard"
    except Overrun:
        return "overrun"
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except RecursionError as error:
        return Failure("violation", f"RecursionError: {error}", "recursion", traceback.format_exc())
    except Exception as error:  # pylint: disable=broad-except
        kind = "violation" if _is_violation(error, repo_dir) else "harness"
        frames = traceback.extract_tb(error.__traceback__)
        last = frames[-1]
        message = f"{type(error).__name__}: {error}"
        return Failure(kind, message, f"{last.filename}:{last.name}", traceback.format_exc())
    return "ok"


def case_for(seed, prop, test, index):
    case = Case(rng=random.Random(derive_seed(seed, prop, test.name, index)))
    if test.space is not None:
        case.forced = [index % len(test.space)]
    return case


def shrink(test, choices, repo_dir, budget=600, deadline=None):
    """Minimise a failing choice sequence; any violation of the same test counts."""
    import time

    best = list(choices)
    state = {"calls": 0}

    def fails(candidate):
        if state["calls"] >= budget or (deadline is not None and time.time() > deadline):
            return None
        state["calls"] += 1
        case = Case(prefix=candidate)
        result = run_case(test, case, repo_dir)
        if isinstance(result, Failure) and result.kind == "violation":
            return case.choices
        return None

    def better(a, b):
        return (len(a), a) < (len(b), b)

    improved = True
    while improved and state["calls"] < budget:
        improved = False
        # Delete blocks
        for block in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - block
            while i >= 0:
                if i + block <= len(best):
                    result = fails(best[:i] + best[i + block :])
                    if result is not None and better(result, best):
                        best = result
                        improved = True
                        i = min(i, len(best) - block)
                        continue
                i -= 1 if block <= 4 else block // 2
        # Zero blocks
        for block in (16, 8, 4, 2, 1):
            i = len(best) - block
            while i >= 0:
                if any(best[i : i + block]):
                    candidate = best[:i] + [0] * block + best[i + block :]
                    result = fails(candidate)
                    if result is not None and better(result, best):
                        best = result
                        improved = True
                i -= block
        # Lower single values
        for i in range(len(best) - 1, -1, -1):
            if i >= len(best) or best[i] == 0:
                continue
            low, high = 0, best[i]
            while low + 1 < high:
                mid = (low + high) // 2
                candidate = best[:i] + [mid] + best[i + 1 :]
                result = fails(candidate)
                if result is not None and better(result, best):
                    best = result
                    improved = True
                    high = mid
                    if i >= len(best):
                        break
                else:
                    low = mid
            if i < len(best) and best[i] > 0:
                candidate = best[:i] + [best[i] - 1] + best[i + 1 :]
                result = fails(candidate)
                if result is not None and better(result, best):
                    best = result
                    improved = True
        if state["calls"] >= budget or (deadline is not None and time.time() > deadline):
            break
    return best, state["calls"]
