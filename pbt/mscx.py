"""Minimal MuseScore 3 scores, and where their labels are."""
from fractions import Fraction
from xml.etree import ElementTree

DURATIONS = {"whole": Fraction(1), "half": Fraction(1, 2), "quarter": Fraction(1, 4),
             "eighth": Fraction(1, 8)}
TIME_SIGNATURES = [("4/4", Fraction(1)), ("3/4", Fraction(3, 4)), ("2/4", Fraction(1, 2)),
                   ("6/8", Fraction(3, 4))]


class Score:
    """Measures of one time signature; per staff and measure: [(onset, duration name, pitch or None)]."""

    def __init__(self, case, staves=2, high=4):
        self.timesig, self.length = case.one_of(TIME_SIGNATURES)
        self.staves = [[self._draw_measure(case) for _ in range(case.int(1, high))]]
        for _ in range(staves - 1):
            self.staves.append([self._draw_measure(case) for _ in self.staves[0]])

    def _draw_measure(self, case):
        events, onset = [], Fraction(0)
        while onset < self.length:
            names = [name for name in ("quarter", "eighth", "half", "whole")
                     if onset + DURATIONS[name] <= self.length]
            name = case.one_of(names)
            events.append((onset, name, case.int(55, 67) if case.bool(0.85) else None))
            onset += DURATIONS[name]
        return events

    def onsets(self, staff):
        """[(mc from 1, onset)]"""
        return [(mc + 1, event[0]) for mc, events in enumerate(self.staves[staff])
                for event in events]

    def text(self, labels=(), lyrics=()):
        """labels: [(staff, mc, onset, text)], lyrics the same (at notes)."""
        parts = ['<?xml version="1.0" encoding="UTF-8"?>', '<museScore version="3.01">',
                 "<programVersion>3.6.2</programVersion>", "<Score>",
                 '<LayerTag id="0" tag="default"></LayerTag>', "<Division>480</Division>",
                 "<Style></Style>", '<metaTag name="workTitle">x</metaTag>', "<Part>"]
        parts += [f'<Staff id="{number + 1}"></Staff>' for number in range(len(self.staves))]
        parts += ["<trackName>P</trackName><Instrument><longName>P</longName><Channel></Channel>"
                  "</Instrument>", "</Part>"]
        for number, measures in enumerate(self.staves):
            parts.append(f'<Staff id="{number + 1}">')
            for mc, events in enumerate(measures):
                parts.append("<Measure><voice>")
                if mc == 0:
                    first, second = self.timesig.split("/")
                    parts.append(f"<TimeSig><sigN>{first}</sigN><sigD>{second}</sigD></TimeSig>")
                for onset, name, pitch in events:
                    place = (number, mc + 1, onset)
                    for label in labels:
                        if label[:3] == place:
                            parts.append(f"<Harmony><name>{label[3]}</name></Harmony>")
                    tag = "Rest" if pitch is None else "Chord"
                    parts.append(f"<{tag}><durationType>{name}</durationType>")
                    for lyric in lyrics:
                        if lyric[:3] == place:
                            parts.append(f"<Lyrics><text>{lyric[3]}</text></Lyrics>")
                    if pitch is not None:
                        parts.append(f"<Note><pitch>{pitch}</pitch><tpc>14</tpc></Note>")
                    parts.append(f"</{tag}>")
                parts.append("</voice></Measure>")
            parts.append("</Staff>")
        parts += ["</Score>", "</museScore>", ""]
        return "\n".join(parts)


def read(path):
    """(labels [(staff, mc, onset, text, colour or None)], events per staff [(mc, onset, kind, pitch)])"""
    with open(path, encoding="utf-8") as file:
        root = ElementTree.fromstring(file.read())
    labels, events = [], {}
    for staff in root.find("Score").findall("Staff"):
        number = int(staff.get("id")) - 1
        events[number] = []
        for mc, measure in enumerate(staff.findall("Measure")):
            for voice in measure.findall("voice")[:1]:
                onset = Fraction(0)
                for item in voice:
                    if item.tag == "location":
                        onset += Fraction(item.findtext("fractions"))
                    elif item.tag == "Harmony":
                        color = item.find("color")
                        labels.append((number, mc + 1, onset, item.findtext("name"),
                                       None if color is None else tuple(
                                           int(color.get(c)) for c in "rgb")))
                    elif item.tag in ("Chord", "Rest"):
                        name = item.findtext("durationType")
                        pitch = item.findtext("Note/pitch")
                        events[number].append((mc + 1, onset, name, pitch and int(pitch)))
                        onset += DURATIONS[name]
    return labels, events
