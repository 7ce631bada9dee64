"""Random MusicXML scores (as text) with the notes and measures that they stand for."""
from fractions import Fraction

from pbt import gen
from pbt import theory as th

DIVISIONS = 48  # per quarter note
F = Fraction
# duration in whole notes -> (type, dots)
TYPES = {
    F(1): ("whole", 0), F(3, 4): ("half", 1), F(1, 2): ("half", 0), F(3, 8): ("quarter", 1),
    F(1, 4): ("quarter", 0), F(3, 16): ("eighth", 1), F(1, 8): ("eighth", 0),
    F(1, 16): ("16th", 0), F(3, 32): ("16th", 1), F(1, 32): ("32nd", 0),
}


def spell(tpc, midi):
    """(step, alter, octave) of a pitch; tpc relative to C = 0."""
    name = th.spell(tpc + 15)
    alter = name.count("#") - name[1:].count("b")
    return name[0], alter, (midi - alter) // 12 - 1


def note_xml(pitch, duration, voice, staff_chord=False, ties=(), triplet=False):
    parts = ["<note>"]
    if staff_chord:
        parts.append("<chord/>")
    if pitch is None:
        parts.append("<rest/>")
    else:
        step, alter, octave = spell(*pitch)
        parts.append(f"<pitch><step>{step}</step>")
        if alter:
            parts.append(f"<alter>{alter}</alter>")
        parts.append(f"<octave>{octave}</octave></pitch>")
    units = duration * 4 * DIVISIONS
    assert units.denominator == 1, duration
    parts.append(f"<duration>{units}</duration>")
    parts += [f'<tie type="{kind}"/>' for kind in ties]
    parts.append(f"<voice>{voice}</voice>")
    if triplet:
        kind, dots = TYPES[duration * F(3, 2)]
    else:
        kind, dots = TYPES[duration]
    parts.append(f"<type>{kind}</type>" + "<dot/>" * dots)
    if triplet:
        parts.append("<time-modification><actual-notes>3</actual-notes>"
                     "<normal-notes>2</normal-notes></time-modification>")
    if ties:
        parts.append("<notations>" + "".join(f'<tied type="{kind}"/>' for kind in ties)
                     + "</notations>")
    parts.append("</note>")
    return "".join(parts)


class XmlScore:
    """`text`, the played `measures`, and the `notes` [(time, end, tpc, midi)], in order of time."""


def draw_layout(case):
    """Score-order measures: [dict(timesig, act_dur, ending)]."""
    timesig = case.one_of(["4/4", "3/4", "2/4", "6/8", "3/8", "2/2"])
    rows = []
    pickup = case.bool(0.4)
    if pickup:
        length = F(timesig)
        part = case.one_of([F(1, 8), F(1, 4)])
        if part < length:
            rows.append(dict(timesig=timesig, act_dur=part, ending=None, pickup=True))
    total = case.int(2, 6)
    while len(rows) < total:
        if len(rows) > 1 and case.bool(0.15):
            timesig = case.one_of(["4/4", "3/4", "2/4", "6/8", "3/8", "2/2", "9/8", "5/4"])
        if rows and len(rows) + 2 <= total and case.bool(0.3):
            for _ in range(case.int(1, 2)):
                rows.append(dict(timesig=timesig, act_dur=F(timesig), ending=1))
            if case.bool(0.3):
                # Completed by the pick-up
                rows[-1]["act_dur"] -= F(1, 8)
            rows.append(dict(timesig=timesig, act_dur=F(timesig), ending=2))
            continue
        if len(rows) > 1 and len(rows) + 2 <= total and case.bool(0.1):
            # A measure in two parts
            part = F(timesig) - case.one_of([F(1, 8), F(1, 4)])
            rows.append(dict(timesig=timesig, act_dur=part, ending=None))
            rows.append(dict(timesig=timesig, act_dur=F(timesig) - part, ending=None, offset=part))
            continue
        rows.append(dict(timesig=timesig, act_dur=F(timesig), ending=None))
    if case.bool(0.3) and rows[-1]["ending"] is None and rows[-1]["act_dur"] > F(1, 4):
        rows[-1]["act_dur"] -= F(1, 8)
    number = 0 if rows[0].get("pickup") else 1
    for index, row in enumerate(rows):
        row["number"] = number + index
    return rows


def draw_rhythm(case, length):
    """A partition of the length: [(duration, triplet)]."""
    result = []
    left = length
    while left > 0:
        if left >= F(1, 4) and case.bool(0.1):
            result += [(F(1, 12), True)] * 3
            left -= F(1, 4)
            continue
        options = [duration for duration in TYPES if duration <= left and duration >= F(1, 16)]
        if not options:
            options = [F(1, 32)]
        # Only what keeps the rest on a simple grid
        options = [d for d in options if ((left - d) * 32).denominator == 1]
        duration = case.one_of(sorted(options, reverse=True))
        result.append((duration, False))
        left -= duration
    return result


def draw_score(case):
    rows = draw_layout(case)
    part_count = case.int(1, 2)
    played = [row for row in rows if row["ending"] != 1]
    start = F(0)
    for row in rows:
        row["start"] = start
        if row["ending"] != 1:
            start += row["act_dur"]
    notes = []
    parts = []
    for part in range(part_count):
        voices = case.weighted([(3, 1), (1, 2)])
        measures_xml = []
        open_tie = {}
        for index, row in enumerate(rows):
            body = []
            follows = rows[index + 1] if index + 1 < len(rows) else None
            for voice in range(1, voices + 1):
                if voice > 1:
                    units = row["act_dur"] * 4 * DIVISIONS
                    body.append(f"<backup><duration>{units}</duration></backup>")
                time = F(0)
                rhythm = draw_rhythm(case, row["act_dur"])
                for position, (duration, triplet) in enumerate(rhythm):
                    last = position + 1 == len(rhythm)
                    tied_in = open_tie.pop((part, voice), None)
                    if tied_in is None:
                        if case.bool(0.15):
                            body.append(note_xml(None, duration, voice, triplet=triplet))
                            time += duration
                            continue
                        # Each voice has its own octave, so ties are unambiguous
                        base = 12 * (3 + 2 * part + voice)
                        count = case.weighted([(4, 1), (1, 2), (1, 3)])
                        pitches = {}
                        for _ in range(count):
                            tpc, midi = gen.draw_spelled_pitch(case, base, base + 11)
                            pitches[midi] = tpc
                        pitches = sorted((midi, tpc) for midi, tpc in pitches.items())
                        sounding = [[row["start"] + time, None, tpc, midi] for midi, tpc in pitches]
                        if row["ending"] != 1:
                            notes += sounding
                    else:
                        pitches, sounding = tied_in
                    can_tie = not triplet and not last or (
                        last and follows is not None and row["ending"] is None
                        and follows["ending"] is None
                    )
                    next_triplet = (not last and rhythm[position + 1][1])
                    tie_out = can_tie and not triplet and not next_triplet and case.bool(0.2) and voices == 1
                    ties = (["stop"] if tied_in is not None else []) + (["start"] if tie_out else [])
                    for number, (midi, tpc) in enumerate(pitches):
                        body.append(note_xml((tpc, midi), duration, voice, number > 0, ties, triplet))
                    time += duration
                    for note in sounding:
                        note[1] = row["start"] + time
                    if tie_out:
                        open_tie[part, voice] = (pitches, sounding)
            attributes = ""
            if index == 0 or rows[index - 1]["timesig"] != row["timesig"]:
                beats, kind = row["timesig"].split("/")
                divisions = f"<divisions>{DIVISIONS}</divisions>" if index == 0 else ""
                attributes = (f"<attributes>{divisions}<time><beats>{beats}</beats>"
                              f"<beat-type>{kind}</beat-type></time></attributes>")
            left = right = ""
            if row["ending"] is not None:
                number = row["ending"]
                if index == 0 or rows[index - 1]["ending"] != number:
                    left = (f'<barline location="left"><ending number="{number}" type="start"/>'
                            "</barline>")
                if follows is None or follows["ending"] != number:
                    repeat = '<repeat direction="backward"/>' if number == 1 else ""
                    right = (f'<barline location="right"><ending number="{number}" type="stop"/>'
                             f"{repeat}</barline>")
            implicit = ' implicit="yes"' if row.get("pickup") else ""
            measures_xml.append(f'<measure number="{row["number"]}"{implicit}>{left}{attributes}'
                                + "".join(body) + f"{right}</measure>")
        parts.append("".join(measures_xml))
    part_list = "".join(f'<score-part id="P{i}"><part-name>p{i}</part-name></score-part>'
                        for i in range(part_count))
    score = XmlScore()
    score.text = (
        '<?xml version="1.0" encoding="UTF-8"?><!DOCTYPE score-partwise PUBLIC "-//Recordare//DTD '
        'MusicXML 3.1 Partwise//EN" "http://www.musicxml.org/dtds/partwise.dtd">'
        f'<score-partwise version="3.1"><part-list>{part_list}</part-list>'
        + "".join(f'<part id="P{i}">{part}</part>' for i, part in enumerate(parts))
        + "</score-partwise>"
    )
    out = []
    for mc, row in enumerate(played):
        offset = F(0)
        if row.get("pickup"):
            offset = F(row["timesig"]) - row["act_dur"]
        offset = row.get("offset", offset)
        out.append(dict(mc=mc, mn=row["number"], timesig=row["timesig"], act_dur=row["act_dur"],
                        mc_offset=offset))
    score.measures = gen.Measures(out)
    score.notes = sorted(map(tuple, notes), key=lambda note: (note[0], note[3]))
    score.layout = rows
    return score
