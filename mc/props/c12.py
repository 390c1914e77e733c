"""Robustness of the predefined driven controls."""

import math

from ..common import expect, rounded
from ..controls import AZIMUTHS, RATES, build, rotations, segments_of
from ..engine import Family
from ..ref import su2

ASSUMPTIONS = [
    "first-order sensitivities are exact sums over the segments (toggling frame), "
    "compared with zero to 1e-8 (1e-6 for WAMF1, whose published constants have "
    "eight digits)",
    "the second-order sensitivity of BB1 is a central difference with step 1e-4",
]

AMPLITUDE = [
    "bb1",
    "sk1",
    "scrofulous",
    "corpse_in_bb1",
    "corpse_in_sk1",
    "corpse_in_scrofulous",
]
SECOND = ["bb1", "corpse_in_bb1"]
DETUNING = [
    "corpse",
    "corpse_in_bb1",
    "corpse_in_sk1",
    "corpse_in_scrofulous",
    "wamf1",
]


def length(vector):
    return math.sqrt(sum(value * value for value in vector))


def amplitude_sensitivity(segments):
    """Derivative of the rotation with respect to a relative amplitude error."""
    total = (0.0, 0.0, 0.0)
    before = su2.IDENTITY
    for segment in segments:
        duration, rabi, azimuth, _ = segment
        axis = (math.cos(azimuth), math.sin(azimuth), 0.0)
        seen = su2.rotate(su2.inverse(before), axis)
        angle = duration * rabi
        total = tuple(a + angle * b for a, b in zip(total, seen))
        before = su2.multiply(su2.segment(*segment), before)
    return length(total)


def detuning_sensitivity(segments):
    """Derivative with respect to a detuning in units of the largest Rabi rate."""
    largest = max(segment[1] for segment in segments)
    total = (0.0, 0.0, 0.0)
    before = su2.IDENTITY
    for segment in segments:
        duration, rabi, azimuth, _ = segment
        angle = duration * rabi
        # z x axis, integrated over the rotation of the segment
        along = largest / rabi * math.sin(angle)
        across = largest / rabi * (1 - math.cos(angle))
        local = (math.sin(azimuth) * -across, math.cos(azimuth) * across, along)
        seen = su2.rotate(su2.inverse(before), local)
        total = tuple(a + b for a, b in zip(total, seen))
        before = su2.multiply(su2.segment(*segment), before)
    return length(total)


def error_vector(segments, relative):
    ideal = su2.evolve(segments)
    actual = su2.evolve(
        [(d, r * (1 + relative), a, z) for d, r, a, z in segments]
    )
    return su2.rotation_vector(su2.multiply(su2.inverse(ideal), actual))


def second_order(segments):
    step = 1e-4
    plus = error_vector(segments, step)
    minus = error_vector(segments, -step)
    return length([(a + b) / (2 * step * step) for a, b in zip(plus, minus)])


def finite_difference_detuning(segments):
    """Independent cross-check of the analytic detuning sensitivity."""
    largest = max(segment[1] for segment in segments)
    step = 1e-5
    ideal = su2.evolve(segments)
    vectors = []
    for sign in (1, -1):
        actual = su2.evolve([(d, r, a, z + sign * step * largest) for d, r, a, z in segments])
        vectors.append(su2.rotation_vector(su2.multiply(su2.inverse(ideal), actual)))
    return length([(a - b) / (2 * step) for a, b in zip(*vectors)])


def run(case):
    name = case["control"]
    control = build(name, case["rotation"], case["rate"], case["azimuth"])
    segments = segments_of(control)
    for duration, rabi, _, detuning in segments:
        expect(detuning == 0, "detuning {}", detuning)
        expect(rabi > 0, "idle segment")
    result = []
    if name in AMPLITUDE:
        value = amplitude_sensitivity(segments)
        expect(value < 1e-8, "first-order amplitude sensitivity is {}", value)
        result.append("amplitude")
    if name in SECOND:
        value = second_order(segments)
        expect(value < 1e-3, "second-order amplitude sensitivity is {}", value)
    if name in DETUNING:
        value = detuning_sensitivity(segments)
        expect(
            value < (1e-6 if name == "wamf1" else 1e-8),
            "first-order detuning sensitivity is {}",
            value,
        )
        value = finite_difference_detuning(segments)
        expect(value < 1e-6, "detuning sensitivity (by difference) is {}", value)
    return rounded(tuple(segments), 8)


def families(tier, scratch):
    deep = tier == "thorough"
    names = sorted(set(AMPLITUDE + DETUNING))
    return [
        Family(
            "rotations",
            [
                ("control", names),
                ("rotation", lambda case: rotations(case["control"])),
                ("azimuth", AZIMUTHS if deep else AZIMUTHS[:8]),
                ("rate", RATES if deep else RATES[:3]),
            ],
            run,
        ),
        Family(
            "azimuths and rates",
            [
                ("control", names),
                ("rotation", lambda case: rotations(case["control"], 16)),
                ("azimuth", [k * math.pi / 12 for k in range(-36, 49)]),
                ("rate", [1.0, 7.7e-9, 3e-3, 2.2e5, 1e12]),
            ],
            run,
        ),
    ]
