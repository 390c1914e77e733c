"""
Reference model of the conversion of a pulse sequence to a driven control.

A sequence is a duration and a list of (offset, rabi, azimuth, detuning). The
model works on pulses as intervals of time and knows nothing about segments.
"""

import math

ACCEPT, REJECT, EITHER = "accept", "reject", "either"

# rotations below this are too small to be told from zero by the library
NEGLIGIBLE = 1e-8


def plan(duration, pulses, max_rabi, max_detuning, minimum):
    """
    Returns (verdict, intervals): what the conversion has to do, and the finite
    pulses (start, end, rabi angle, azimuth, detuning angle) in order.

    The verdict is EITHER when the outcome depends on rounding errors: a gap
    misses its minimum by less than the tolerance the library may use, but by
    more than rounding errors.
    """
    for limit in (max_rabi, max_detuning):
        if not limit > 0:
            return REJECT, None
    if not minimum >= 0:
        return REJECT, None
    for _, rabi, _, detuning in pulses:
        if not rabi >= 0:
            return REJECT, None
        if rabi != 0 and detuning != 0:
            return REJECT, None
    times = [pulse[0] for pulse in pulses]
    for first, second in zip(times, times[1:]):
        if not first < second:
            return REJECT, None

    intervals = []
    occupied = []
    for offset, rabi, azimuth, detuning in pulses:
        width = 0.0
        if rabi > NEGLIGIBLE:
            width = max(rabi / max_rabi, minimum)
        elif abs(detuning) > NEGLIGIBLE:
            width = max(abs(detuning) / max_detuning, minimum)
        start, end = offset - width / 2, offset + width / 2
        if offset == 0:
            start, end = 0.0, width
        elif offset == duration:
            start, end = duration - width, duration
        occupied.append((start, end))
        if width > 0:
            intervals.append((start, end, rabi, azimuth, detuning))
    # the instants at which the sequence starts and ends separate gaps, too
    if not times or times[0] != 0:
        occupied.insert(0, (0.0, 0.0))
    if not times or times[-1] != duration:
        occupied.append((duration, duration))
    verdict = ACCEPT
    for (_, end), (start, _) in zip(occupied, occupied[1:]):
        missing = minimum - (start - end)
        if missing > 2e-8 * duration + 2e-5 * minimum:
            return REJECT, None
        if missing > 1e-12 * duration:
            verdict = EITHER
    return verdict, intervals


def timeline(segments, sliver):
    """
    Merges segments (duration, rabi, azimuth, detuning) into the active stretches
    [start, end, rabi rate, azimuth, detuning, rabi angle, detuning angle];
    neighbouring stretches with the same drive are one, and segments shorter than
    `sliver` are left out.
    """
    active = []
    now = 0.0
    for duration, rabi, azimuth, detuning in segments:
        start, now = now, now + duration
        if (rabi == 0 and detuning == 0) or duration <= sliver:
            continue
        if active:
            last = active[-1]
            touching = abs(last[1] - start) <= sliver
            if touching and _same(last[2:5], (rabi, azimuth, detuning)):
                last[1] = now
                last[5] += rabi * duration
                last[6] += detuning * duration
                continue
        active.append(
            [start, now, rabi, azimuth, detuning, rabi * duration, detuning * duration]
        )
    return active, now


def _same(first, second):
    size = max(abs(first[0]), abs(second[0]), abs(first[2]), abs(second[2]))
    return (
        abs(first[0] - second[0]) <= 1e-7 * size
        and abs(first[2] - second[2]) <= 1e-7 * size
        and abs(math.cos(first[1]) - math.cos(second[1])) < 1e-9
        and abs(math.sin(first[1]) - math.sin(second[1])) < 1e-9
    )


def expected_timeline(intervals, sliver):
    """The active stretches that the reference pulses should give."""
    segments = []
    now = 0.0
    for start, end, rabi, azimuth, detuning in intervals:
        width = end - start
        if start > now:
            segments.append((start - now, 0.0, 0.0, 0.0))
        if rabi > NEGLIGIBLE:
            segments.append((width, rabi / width, azimuth, 0.0))
        else:
            segments.append((width, 0.0, 0.0, detuning / width))
        now = end
    return timeline(segments, sliver)[0]
