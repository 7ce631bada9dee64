"""Joint models with random networks, and a reference for what their search is defined to compute."""
from fractions import Fraction

import numpy as np

from pbt import shimmed  # noqa: F401
import torch
from harmonic_inference.data import datasets as ds
from harmonic_inference.data.data_types import PieceType
from harmonic_inference.data.piece import get_score_piece_from_data_frames
from harmonic_inference.models import (
    chord_classifier_models as ccm, chord_sequence_models as csm, chord_transition_models as ctm,
    initial_chord_models as icm, key_sequence_models as ksm, key_transition_models as ktm,
)
from harmonic_inference.models.joint_model import HarmonicInferenceModel
from pbt import corpus, gen, pieces
from pbt import theory as th
from pbt.sets import chord_row, key_columns
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.key import Key

KEYS = [(tonic, mode) for mode in th.MODES for tonic in range(35)]
RELATIVE = th.chord_space(th.TPC, True, True, False, None)
RELATIVE_KEYS = [(mode, interval) for mode in th.MODES for interval in range(-14, 15)]
MARGIN = 1e-4


class NearTie(Exception):
    """A decision of the search is too close to call in single precision."""


class Music:
    """A piece of notes only, and its times."""

    def __init__(self, case, high_notes, low_notes=3):
        score = corpus.draw_score(case, 1, 3)
        measures = score.played
        frame = corpus.played_df({0: score}).loc[0]
        low = 1 if case.bool(0.1) else min(low_notes, high_notes)
        rows = pieces.draw_notes(case, measures, low=low, high=high_notes, unrepresentable=False)
        with gen.quiet():
            self.piece = get_score_piece_from_data_frames(
                pieces.notes_frame(measures, rows), None, frame)
        self.times = [row[0] for row in rows]
        self.end = max(row[1] for row in rows)
        self.ends = [row[1] for row in rows]
        self.count = len(rows)
        self.positions = [0] + [i for i in range(1, self.count)
                                if self.times[i] != self.times[i - 1]]
        inputs = self.piece.get_inputs()
        self.onsets = [note.onset for note in inputs] + [inputs[-1].offset]
        self.levels = [note.onset_level for note in inputs] + [inputs[-1].offset_level]

    def time(self, index):
        return self.times[index] if index < self.count else self.end

    def window_start(self, index):
        start = self.times[index]
        return [i for i in range(self.count)
                if self.times[i] >= start or self.ends[i] > start][0]


def small(case):
    return dict(lstm_hidden_dim=case.int(1, 3), hidden_dim=case.int(1, 3), lstm_layers=1,
                dropout=0.0)


def draw_models(case, reductions=True):
    tpc = th.TPC
    seed = case.draw(10 ** 6)

    def weights(number):
        # Large weights make networks that distinguish their inputs more
        torch.nn.seed_weights(seed + number, case.one_of([0.7, 2.0, 4.0]))


    def options(inversions=0.5):
        reduction = th.draw_reduction(case)[1] if reductions and case.bool(0.6) else None
        return reduction, case.bool(inversions) or not reductions

    reduction, inversions = options()
    if inversions:
        reduction = None
    weights(0)
    models = {"ctm": ctm.SimpleChordTransitionModel(PieceType.SCORE, tpc, embed_dim=2,
                                                    **small(case)),
              "ccm": ccm.SimpleChordClassifier(PieceType.SCORE, tpc, tpc, reduction=reduction,
                                               use_inversions=inversions, **small(case))}
    weights(1)
    reduction_in, inversions_in = options()
    reduction_out, inversions_out = options()
    if inversions_out:
        reduction_out = None
    if case.bool(0.3):
        models["csm"] = csm.PitchBasedChordSequenceModel(
            tpc, tpc, tpc, input_reduction=reduction_in, use_input_inversions=inversions_in,
            embed_dim=2, **small(case))
    else:
        models["csm"] = csm.SimpleChordSequenceModel(
            tpc, tpc, tpc, input_reduction=reduction_in, output_reduction=reduction_out,
            use_input_inversions=inversions_in, use_output_inversions=inversions_out,
            embed_dim=2, **small(case))
    weights(2)
    reduction, inversions = options()
    models["ktm"] = ktm.SimpleKeyTransitionModel(tpc, tpc, reduction=reduction, embed_dim=2,
                                                 use_inversions=inversions, **small(case))
    weights(3)
    reduction, inversions = options()
    models["ksm"] = ksm.SimpleKeySequenceModel(tpc, tpc, tpc, reduction=reduction, embed_dim=2,
                                               use_inversions=inversions, **small(case))
    for model in models.values():
        model.eval()
    rng = np.random.RandomState(case.draw(10 ** 6))
    priors = [rng.uniform(0.1, 1, len(RELATIVE)) for _ in "ab"]
    models["icm"] = icm.SimpleInitialChordModel({
        "pitch_type": tpc, "major": list(priors[0] / priors[0].sum()),
        "minor": list(priors[1] / priors[1].sum()), "inversions_present": True,
        "reduction_present": None,
    })
    return models


def draw_thresholds(case, probs=()):
    if len(probs) and case.bool(0.1):
        # The limits are inclusive
        low, high = sorted([case.one_of(probs), case.one_of(probs + [1.0])])
        return low, high
    if len(probs) and case.bool(0.7):
        # Some, but not all, of the chord changes are possible, and some of them necessary
        low = max(0.01, case.one_of(sorted(probs)) - 0.02)
        return low, min(low + case.one_of([0.05, 0.5, 1.0]), 1.0)
    options = [0.05, 0.3, 0.45, 0.5, 0.55, 0.7, 0.99, 0.0, 1.0]
    low = case.weighted(list(zip([6, 3, 3, 2, 2, 1, 1, 1], options)))
    return low, case.one_of([value for value in options if value >= low])


def draw_params(case, music, models):
    probs = Reference(music, models, {}, Forces()).change_probabilities()
    low, high = draw_thresholds(case, [float(probs[i]) for i in music.positions[1:]])
    key_low, key_high = draw_thresholds(case)
    return dict(
        min_chord_change_prob=low, max_no_chord_change_prob=high,
        max_chord_length=case.one_of([Fraction(8), Fraction(100), Fraction(5, 2), Fraction(3, 2),
                                      Fraction(1)]),
        min_key_change_prob=key_low, max_no_key_change_prob=key_high,
        max_chord_branching_factor=case.int(1, 3),
        target_chord_branch_prob=case.one_of([0.75, 1.0, 0.001, 0.01]),
        max_key_branching_factor=case.int(1, 2),
        target_key_branch_prob=case.one_of([0.5, 1.0, 0.03]),
        ksm_exponent=case.one_of([1, 50, 0.5, 3]),
    )


class Forces:
    """What the user dictates; indexes of notes."""

    def __init__(self):
        self.chord_changes, self.chord_non_changes = set(), set()
        self.key_changes, self.key_non_changes = set(), set()
        self.chords, self.keys = {}, {}
        self.at_zero = set()  # Kinds of changes asked for at the first note too: to be ignored

    @staticmethod
    def at(labels, index):
        found = {label for (start, end), label in labels.items() if start <= index < end}
        return found.pop() if len(found) == 1 else None

    def problem(self, music, chord_count):
        """Why these forces contradict each other or the piece (None if they do not)."""
        for name, changes, non_changes, labels, count in (
                ("chord", self.chord_changes, self.chord_non_changes, self.chords, chord_count),
                ("key", self.key_changes, self.key_non_changes, self.keys, len(KEYS))):
            if any(i >= music.count for i in changes | non_changes):
                return f"forced {name} change or non-change beyond the end"
            if changes & non_changes:
                return f"{name} change and non-change"
            if any(i not in music.positions for i in changes):
                return f"{name} change within an onset"
            if any(not 0 <= label < count for label in labels.values()):
                return f"no such {name}"
            for i in range(music.count):
                if len(self.ids(labels, i, i + 1)) > 1:
                    return f"two {name}s at once"
            for i in changes:
                if self.at(labels, i) is not None and self.at(labels, i) == self.at(labels, i - 1):
                    return f"{name} change between equal {name}s"
            for i in non_changes:
                if None not in (self.at(labels, i), self.at(labels, i - 1)) and (
                        self.at(labels, i) != self.at(labels, i - 1)):
                    return f"{name} non-change between different {name}s"
        if self.key_changes & self.chord_non_changes:
            return "key change and chord non-change"
        for i in self.key_changes:
            if self.at(self.chords, i) is not None and (
                    self.at(self.chords, i) == self.at(self.chords, i - 1)):
                return "key change between equal chords"
        for i in self.chord_non_changes:
            if None not in (self.at(self.keys, i), self.at(self.keys, i - 1)) and (
                    self.at(self.keys, i) != self.at(self.keys, i - 1)):
                return "chord non-change between different keys"
        return None

    def broken(self, first, path):
        """What the analysis does not comply with (None if nothing)."""
        changes, key_changes, start, previous = set(), set(), 0, first
        for chord, key, end in path:
            if start:
                changes.add(start)
                if key != previous:
                    key_changes.add(start)
            for name, labels, actual in (("chord", self.chords, chord), ("key", self.keys, key)):
                for label in self.ids(labels, start, end):
                    if label != actual:
                        return f"{name} {actual} at notes {start}-{end}, forced {name} {label}"
            start, previous = end, key
        if not self.chord_changes <= changes:
            return f"no chord change at {self.chord_changes - changes}"
        if self.chord_non_changes & changes:
            return f"chord change at {self.chord_non_changes & changes}"
        if not self.key_changes <= key_changes:
            return f"no key change at {self.key_changes - key_changes}"
        if self.key_non_changes & key_changes:
            return f"key change at {self.key_non_changes & key_changes}"
        return None

    def __str__(self):
        return str({k: v for k, v in vars(self).items() if v})

    def kwargs(self):
        given = dict(
            forced_chord_changes=set(self.chord_changes),
            forced_chord_non_changes=set(self.chord_non_changes),
            forced_key_changes=set(self.key_changes),
            forced_key_non_changes=set(self.key_non_changes),
            forced_chords=dict(self.chords), forced_keys=dict(self.keys),
        )
        for kind in self.at_zero:
            given["forced_" + kind].add(0)
        return {name: value for name, value in given.items() if value}

    @staticmethod
    def ids(labels, start, end):
        return {label for (first, last), label in labels.items() if first < end and start < last}


def clear(value, threshold):
    """value >= threshold, if that is certain."""
    if abs(value - threshold) < MARGIN:
        raise NearTie()
    return value >= threshold


def run_batch(model, sequences):
    """Outputs of a network for whole sequences: list of arrays (one row per step)."""
    lengths = [len(rows) for rows in sequences]
    inputs = np.zeros((len(sequences), max(lengths), len(sequences[0][0])), dtype=np.float32)
    for i, rows in enumerate(sequences):
        inputs[i, : len(rows)] = rows
    result = model(torch.tensor(inputs), torch.tensor(lengths))
    outputs = np.array(result[0] if isinstance(result, tuple) else result, dtype=float)
    if outputs.shape[:2] == (len(sequences), max(lengths)) and not isinstance(
            model, ksm.SimpleKeySequenceModel):
        return [output[length - 1] for output, length in zip(outputs, lengths)]
    return list(outputs)


def top(priors, target, limit):
    """Indexes in order of probability, and how many of them to branch into."""
    order = sorted(range(len(priors)), key=lambda i: -priors[i])
    total, count = 0.0, 0
    for index in order[: limit + 1]:
        if count >= limit:
            break
        total += priors[index]
        count += 1
        if target < 1 and clear(total, target):
            break
    return order, count


class Hypothesis:
    """A path: tuples (chord, key, end); the log-probability; the parts that a rejoin removes."""

    __slots__ = ("first", "path", "log_prob", "adjust")

    def __init__(self, first, path, log_prob, adjust=0.0):
        self.first, self.path, self.log_prob, self.adjust = first, path, log_prob, adjust

    @property
    def key(self):
        return self.path[-1][1] if self.path else self.first


class Reference:
    def __init__(self, music, models, params, forces):
        self.music, self.models, self.params, self.forces = music, models, params, forces
        classifier = models["ccm"]
        self.chords = th.chord_space(th.TPC, classifier.use_inversions, False, False,
                                     classifier.reduction)
        self.expanded = 0
        self.labels = {}
        self.table = None

    # ---- ranges ----
    def change_probabilities(self):
        with gen.quiet():
            dataset = ds.ChordTransitionDataset([self.music.piece], dummy_targets=True)
        rows = np.array(dataset[0]["inputs"], dtype=np.float32)[: self.music.count]
        result = self.models["ctm"](torch.tensor(rows[None]), torch.tensor([len(rows)]))
        output = np.array(result[0] if isinstance(result, tuple) else result)
        probs = np.array(output[0], dtype=float).reshape(-1)[: self.music.count]
        # A forced key change needs a chord change
        for index in self.forces.chord_changes | self.forces.key_changes:
            probs[index] = 1.0
        for index in self.forces.chord_non_changes:
            probs[index] = 0.0
        return probs

    def ranges(self):
        """{(start, end): (log-probability, rejoin log-probability)}"""
        music, params = self.music, self.params
        self.probs = probs = self.change_probabilities()
        low, high = params["min_chord_change_prob"], params["max_no_chord_change_prob"]
        for index in music.positions[1:]:
            for limit in (low, high):
                if probs[index] != limit:
                    clear(probs[index], limit)
        result, starts, done = {}, [0], set()
        with np.errstate(divide="ignore"):
            change, stay = np.log(probs), np.log(1 - probs)
        while starts:
            start = starts.pop()
            if start in done:
                continue
            done.add(start)
            rejoin = stay[start] - change[start] if start else None
            changes = self.forces.chord_changes | self.forces.key_changes
            for end in [i for i in music.positions if i > start] + [music.count]:
                inside = [i for i in music.positions if start < i < end]
                last = min(end, music.positions[-1])
                if music.times[last] - music.times[start] > params["max_chord_length"]:
                    break
                if any(len(self.forces.ids(labels, start, end)) > 1
                       for labels in (self.forces.chords, self.forces.keys)):
                    break
                if any(probs[i] > high or i in changes for i in inside):
                    break
                total = sum(stay[i] for i in inside)
                if end == music.count:
                    result[start, end] = (total, rejoin)
                elif probs[end] >= low and end not in self.forces.chord_non_changes:
                    result[start, end] = (total + change[end], rejoin)
                    starts.append(end)
        return result

    def range_table(self):
        if self.table is None:
            self.table = self.ranges()
        return self.table

    def classify(self, ranges):
        """{range: log-probabilities of all chords}"""
        order = sorted(ranges)
        windows = [(self.music.window_start(start), end) for start, end in order]
        kwargs = self.models["ccm"].get_dataset_kwargs()
        kwargs["transposition_range"] = [0, 0]
        with gen.quiet():
            dataset = ds.ChordClassificationDataset(
                [self.music.piece], ranges=[windows], change_indices=[[s for s, _ in order]],
                dummy_targets=True, **kwargs)
        result = {}
        for i, entry in enumerate(order):
            item = dataset[i]
            length = int(item["input_lengths"])
            logits = np.array(self.models["ccm"](
                torch.tensor(np.array(item["inputs"], dtype=np.float32)[None, :length]),
                torch.tensor([length])), dtype=float).reshape(-1)
            logits = logits - logits.max()
            result[entry] = logits - np.log(np.exp(logits).sum())
        return result

    # ---- inputs of the sequence models ----
    def offsets(self, chord, key):
        root, chord_type, inversion = self.chords[chord]
        bass = th.chord_pitches(chord_type, root, th.TPC)[inversion]
        return root - KEYS[key][0], bass - KEYS[key][0]

    def within(self, chord, key, extra=0):
        """Is the chord close enough to the key, and can its bass note be written?"""
        if not 0 <= self.offsets(chord, key)[1] + KEYS[key][0] < 35:
            return False
        return all(th.REL_MIN - extra <= p < th.REL_MAX + extra for p in self.offsets(chord, key))

    def rows(self, hypothesis, pad, reduction, inversions):
        rows, start, previous = [], 0, hypothesis.first
        for chord, key, end in hypothesis.path:
            root, chord_type, inversion = self.chords[chord]
            tonic, mode = KEYS[key]
            music = self.music
            value = Chord(
                root, th.chord_pitches(chord_type, root, th.TPC)[inversion], tonic, mode,
                chord_type, inversion, music.onsets[start], music.levels[start],
                music.onsets[end], music.levels[end], music.time(end) - music.times[start], th.TPC)
            objects = [Key(KEYS[k][0], KEYS[k][0], KEYS[k][0], KEYS[k][1], KEYS[k][1], KEYS[k][1],
                           th.TPC) for k in (previous, key)]
            columns = key_columns(objects[0] if previous != key else None, objects[1])
            rows.append(chord_row(value, objects[1], pad, reduction, inversions) + columns)
            start, previous = end, key
        return rows

    def key_rows(self, hypothesis, model):
        return self.rows(hypothesis, True, model.reduction, model.use_inversions)

    def chord_priors(self, hypotheses):
        """What each hypothesis expects next: (values, is it from the ICM?)."""
        model = self.models["csm"]
        result = {}
        running = [h for h in hypotheses if h.path]
        if running:
            outputs = run_batch(model, [self.rows(h, False, model.input_reduction,
                                                  model.use_input_inversions) for h in running])
            result.update({id(h): output for h, output in zip(running, outputs)})
        for h in hypotheses:
            if not h.path:
                minor = KEYS[h.first][1] == th.MINOR
                result[id(h)] = np.array(self.models["icm"].get_prior(minor, log=True), dtype=float)
        return result

    def chord_score(self, prior, chord, key, first):
        root, chord_type, inversion = self.chords[chord]
        root -= KEYS[key][0]
        if first:
            return prior[RELATIVE.index((root, chord_type, inversion))]
        model = self.models["csm"]
        if isinstance(model, csm.PitchBasedChordSequenceModel):
            if model.output_reduction is not None:
                chord_type = model.output_reduction[chord_type]
            tones = [p + 14 for p in th.chord_pitches(chord_type, root, th.TPC)]
            return sum(np.log(prior[i] if i in tones else 1 - prior[i]) for i in range(29))
        if model.output_reduction is not None:
            chord_type = model.output_reduction[chord_type]
        space = self.labels.get("space")
        if space is None:
            space = self.labels["space"] = {entry: i for i, entry in enumerate(th.chord_space(
                th.TPC, model.use_output_inversions, True, False, model.output_reduction))}
        return prior[space[root, chord_type, inversion if model.use_output_inversions else 0]]

    # ---- the search ----
    def search(self, guide=None, limit=4000):
        """
        All complete hypotheses {(first key, path): [log-probabilities]}; with a guide, only those
        that can become the guide's (first key, path). None if there are more than the limit.
        """
        ranges = self.range_table()
        scores = self.classify(ranges) if ranges else {}
        by_start = {}
        for (start, end) in sorted(ranges):
            by_start.setdefault(start, []).append(end)
        first_keys = self.forces.ids(self.forces.keys, 0, 1) or range(len(KEYS))
        pending = {0: []}
        for key in first_keys:
            if guide is None or guide[0] == key:
                pending[0].append((Hypothesis(key, (), 0.0), None))
        complete = {}
        for start in self.music.positions:
            current = [h for h, _ in pending.get(start, [])]
            if not current:
                continue
            # The state before the last chord, for rejoins
            previous = {id(h): before for h, before in pending[start]}
            self.expanded += len(current)
            if self.expanded > limit:
                return None
            priors = self.chord_priors(current)
            fresh = []
            for h in current:
                for end in by_start.get(start, []):
                    fresh.extend(self.branch(h, start, end, ranges, scores, priors, previous,
                                             guide))
            if len(fresh) > limit:
                return None
            for h, before, prior in self.key_step(fresh, guide):
                if h.path[-1][2] == self.music.count:
                    complete.setdefault((h.first, h.path), []).append(h.log_prob)
                else:
                    pending.setdefault(h.path[-1][2], []).append((h, (before, prior)))
        return complete

    def allowed(self, guide, first, path):
        """Can the path become the guide's?"""
        if guide is None:
            return True
        if first != guide[0] or len(path) > len(guide[1]):
            return False
        for i, ((chord, key, end), (g_chord, g_key, g_end)) in enumerate(zip(path, guide[1])):
            last = i + 1 == len(path)
            if chord != g_chord or (end > g_end if last else end != g_end):
                return False
            if key != g_key and not (last and end < g_end):
                return False
        return True

    def branch(self, h, start, end, ranges, scores, priors, previous, guide):
        """New hypotheses (without the models' part) with (before, prior)."""
        range_log_prob, rejoin = ranges[start, end]
        log_probs = scores[start, end]
        order, count = top(np.exp(log_probs), self.params["target_chord_branch_prob"],
                           self.params["max_chord_branching_factor"])
        chord = h.path[-1][0] if h.path else None
        forced = self.forces.ids(self.forces.chords, start, end)
        if count == 1 and order[0] == chord:
            count = 2
        if log_probs[order[count - 1]] - log_probs[order[min(count, len(order) - 1)]] < MARGIN:
            raise NearTie()
        chosen = list(forced) if forced else order[:count]
        for new in chosen:
            value = range_log_prob + log_probs[new] * (end - start)
            if new == chord:
                if start in self.forces.chord_changes | self.forces.key_changes:
                    continue
                before, prior = previous[id(h)]
                key = before.key
                path = h.path[:-1] + ((new, key, end),)
                if not self.within(new, key, th.REL_EXTRA):
                    raise AssertionError("reference: rejoin of an impossible chord")
                yield Hypothesis(h.first, path, h.log_prob - h.adjust + value + rejoin), before, prior
            elif self.within(new, h.key, th.REL_EXTRA):
                path = h.path + ((new, h.key, end),)
                yield Hypothesis(h.first, path, h.log_prob + value), h, priors[id(h)]

    def key_step(self, fresh, guide):
        params = self.params

        def fits(h):
            # The key may still change: compare without the last key
            if guide is None:
                return True
            return len(h.path) <= len(guide[1]) and any(
                self.allowed(guide, h.first, h.path[:-1] + ((h.path[-1][0], key, h.path[-1][2]),))
                for key in {h.path[-1][1], guide[1][len(h.path) - 1][1]})

        fresh = [entry for entry in fresh if fits(entry[0])]
        if not fresh:
            return
        model = self.models["ktm"]
        changing = [entry for entry in fresh if len(entry[0].path) > 1]
        probs = {}
        if changing:
            outputs = run_batch(model, [self.key_rows(h, model) for h, _, _ in changing])
            probs = {id(entry[0]): float(np.reshape(output, -1)[0])
                     for entry, output in zip(changing, outputs)}
        to_change = []
        for h, before, prior in fresh:
            chord, key, end = h.path[-1]
            begin = h.path[-2][2] if len(h.path) > 1 else 0
            length = end - begin
            prob = probs.get(id(h), 0.0)
            possible = len(h.path) > 1
            forced = self.forces.ids(self.forces.keys, begin, end)
            if len(forced) > 1:
                continue
            stay, change = self.within(chord, key), possible
            if begin in self.forces.key_changes:
                stay = False
            if begin in self.forces.key_non_changes:
                change = False
            if forced:
                stay = stay and key in forced
                change = change and key not in forced
            elif begin not in self.forces.key_changes | self.forces.key_non_changes and possible:
                change = change and clear(prob, params["min_key_change_prob"])
                stay = stay and not clear(prob, params["max_no_key_change_prob"])
            if stay:
                if self.allowed(guide, h.first, h.path):
                    part = np.log(1 - prob) * length
                    part += self.chord_score(prior, chord, key, begin == 0) * length
                    yield (Hypothesis(h.first, h.path, h.log_prob + part, part), before, prior)
            if change:
                to_change.append((h, before, prior, np.log(prob) * length, length, begin))
        if not to_change:
            return
        model = self.models["ksm"]
        outputs = run_batch(model, [self.key_rows(entry[0], model) for entry in to_change])
        for (h, before, prior, part, length, begin), log_probs in zip(to_change, outputs):
            chord, key, end = h.path[-1]
            order, count = top(np.exp(log_probs), params["target_key_branch_prob"],
                               params["max_key_branching_factor"])
            forced = self.forces.ids(self.forces.keys, begin, end)
            taken, last = 0, None
            for index in order:
                mode, interval = RELATIVE_KEYS[index]
                tonic = KEYS[key][0] + interval
                if not 0 <= tonic < 35:
                    continue
                new = KEYS.index((tonic, mode))
                if new == key or not self.within(chord, new) or forced and new not in forced:
                    continue
                if taken >= count:
                    if last is not None and last - log_probs[index] < MARGIN:
                        raise NearTie()
                    break
                taken += 1
                last = log_probs[index]
                path = h.path[:-1] + ((chord, new, end),)
                if self.allowed(guide, h.first, path):
                    value = part + log_probs[index] * params["ksm_exponent"] * length
                    yield Hypothesis(h.first, path, h.log_prob + value, value), before, prior


def path_of(state):
    """(first key, path) of a final state, from its public accessors."""
    steps = []
    while state.prev_state is not None:
        steps.append((int(state.chord), int(state.key), int(state.change_index)))
        state = state.prev_state
    return int(state.key), tuple(reversed(steps))


def make(models, params, **kwargs):
    with gen.quiet():
        return HarmonicInferenceModel(models, **params, **kwargs)
