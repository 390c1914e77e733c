"""Decoupling order of the predefined sequences."""

import math

from ..common import expect, sequence_data
from ..engine import Family
from ..sequences import PARAMETERS, build, digest

ASSUMPTIONS = [
    "noise commutes with free evolution and pulses are ideal (toggling frame)",
    "moments are computed on the unit interval and compared with zero to 1e-8",
    "at most 24 moments are checked",
]

# which axes of noise change sign under a pi pulse about each axis
FLIPS = {"X": (1, -1, -1), "Y": (-1, 1, -1), "Z": (-1, -1, 1)}


def kind_of(rabi, azimuth, detuning):
    if abs(rabi) < 1e-9 and abs(abs(detuning) - math.pi) < 1e-9:
        return "Z"
    expect(
        abs(rabi - math.pi) < 1e-9 and abs(detuning) < 1e-9,
        "not a pi pulse: {}",
        (rabi, azimuth, detuning),
    )
    if abs(math.sin(azimuth)) < 1e-9:
        return "X"
    expect(abs(math.cos(azimuth)) < 1e-9, "pulse about azimuth {}", azimuth)
    return "Y"


def moments(sequence, axis, number):
    """Moments 0..number-1 of the toggled noise about one axis (0, 1, 2)."""
    duration, offsets, rabi, azimuth, detuning = sequence_data(sequence)
    edges = [0.0] + [offset / duration for offset in offsets] + [1.0]
    signs = [1]
    for item in zip(rabi, azimuth, detuning):
        signs.append(signs[-1] * FLIPS[kind_of(*item)][axis])
    result = []
    for power in range(1, number + 1):
        result.append(
            math.fsum(
                sign * (edges[i + 1] ** power - edges[i] ** power) / power
                for i, sign in enumerate(signs)
            )
        )
    return result


def promised(family, parameters):
    """Number of vanishing moments of noise about X, Y and Z."""
    if family == "ramsey":
        return {}
    if family in ("spin_echo", "carr_purcell"):
        return {1: 1, 2: 1}
    if family == "cpmg":
        return {0: 1, 2: 1}
    if family == "uhrig":
        return {0: parameters[0], 2: parameters[0]}
    if family == "periodic":
        return {1: 1, 2: 1} if parameters[0] % 2 else {}
    if family == "walsh":
        digits = bin(parameters[0]).count("1")
        return {1: digits, 2: digits}
    if family == "x_concatenated":
        return {1: parameters[0], 2: parameters[0]}
    if family == "xy_concatenated":
        return {0: 1, 1: 1, 2: 1}
    if family == "quadratic":
        return {0: parameters[0], 1: 1, 2: parameters[1]}
    raise ValueError(family)


def run(case):
    family = case["family"]
    parameters = [case[name] for name in PARAMETERS[family]]
    sequence = build(family, case["duration"], parameters)
    for axis, number in promised(family, parameters).items():
        for power, value in enumerate(moments(sequence, axis, min(number, 24))):
            expect(
                abs(value) < 1e-8,
                "moment {} of noise about {} is {!r}",
                power,
                "XYZ"[axis],
                value,
            )
    return digest(sequence)


def families(tier, scratch):
    deep = tier == "thorough"
    durations = [1.0, 3.7e-6, 86400, 2.5e-9]
    counts = list(range(1, 301 if deep else 131)) + [500, 501]
    return [
        Family(
            "counted",
            [
                ("family", ["carr_purcell", "cpmg", "uhrig", "periodic"]),
                ("offset_count", counts),
                ("duration", durations if deep else durations[:2]),
            ],
            run,
        ),
        Family("echo", [("family", ["spin_echo"]), ("duration", durations)], run),
        Family(
            "walsh",
            [
                ("family", ["walsh"]),
                ("paley_order", range(1, 2001)),
                ("duration", durations if deep else [1.0]),
            ],
            run,
        ),
        Family(
            "quadratic",
            [
                ("family", ["quadratic"]),
                ("inner_offset_count", range(1, 25 if deep else 17)),
                ("outer_offset_count", range(1, 25 if deep else 17)),
                ("duration", durations[:2]),
            ],
            run,
        ),
        Family(
            "concatenated",
            [
                ("family", ["x_concatenated", "xy_concatenated"]),
                (
                    "concatenation_order",
                    lambda case: range(1, 12)
                    if case["family"] == "x_concatenated"
                    else range(1, 7 if deep else 6),
                ),
                ("duration", durations),
            ],
            run,
        ),
    ]
