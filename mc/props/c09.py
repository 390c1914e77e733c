"""Pre- and post-rotations of all predefined sequences."""

import math

from ..common import expect, near, same_angle, sequence_data
from ..engine import Family
from ..ref import su2
from ..sequences import PARAMETERS, build, digest

ASSUMPTIONS = [
    "pulses without the option are taken from the implementation itself; their "
    "correctness is the subject of C05 to C08",
    "the net rotation is computed with an independent quaternion model, to 1e-8",
]


def run(case):
    family = case["family"]
    duration = case["duration"]
    parameters = [case[name] for name in PARAMETERS[family]]
    without = build(family, duration, parameters, pre_post_rotation=False)
    truthy = {"True": True, "1": 1}[case["option"]]
    sequence = build(
        family, duration, parameters, pre_post_rotation=truthy, name=case["name"]
    )
    expect(sequence.name == case["name"], "name is {!r}", sequence.name)
    plain = sequence_data(without)
    total, offsets, rabi, azimuth, detuning = sequence_data(sequence)
    expect(total == duration, "duration is {}", total)
    expect(
        len(offsets) == len(plain[1]) + 2,
        "{} pulses with and {} without the option",
        len(offsets),
        len(plain[1]),
    )
    for mine, other, what in (
        (offsets, plain[1], "times"),
        (rabi, plain[2], "Rabi rotations"),
        (azimuth, plain[3], "azimuthal angles"),
        (detuning, plain[4], "detuning rotations"),
    ):
        expect(len(mine) == len(offsets), "{} {}", len(mine), what)
        expect(
            mine[1:-1] == other,
            "{} of the other pulses change from {} to {}",
            what,
            other[:20],
            mine[1:21],
        )
    expect(offsets[0] == 0, "first pulse at {!r}", offsets[0])
    expect(offsets[-1] == duration, "last pulse at {!r}", offsets[-1])
    for position in (0, -1):
        expect(
            near(rabi[position], math.pi / 2, 1.0) and detuning[position] == 0,
            "added pulse is ({}, {}, {})",
            rabi[position],
            azimuth[position],
            detuning[position],
        )
    expect(same_angle(azimuth[0], 0.0), "first pulse has azimuth {}", azimuth[0])
    expect(
        same_angle(azimuth[-1], 0.0) or same_angle(azimuth[-1], math.pi),
        "last pulse has azimuth {}",
        azimuth[-1],
    )
    net = su2.IDENTITY
    for item in zip(rabi, azimuth, detuning):
        net = su2.multiply(su2.pulse(*item), net)
    away = min(su2.distance(net, su2.IDENTITY), su2.distance(net, su2.Z))
    expect(away < 1e-8, "net rotation {} is neither identity nor Z", net)
    return digest(sequence) + (same_angle(azimuth[-1], 0.0),)


def families(tier, scratch):
    deep = tier == "thorough"
    durations = [1.0, 3.7e-6, 0.1, 2.5e-9, 86400, 7]
    counts = list(range(1, 401 if deep else 121)) + [255, 256, 257, 500, 501, 1000]
    tail = [("option", ["True", "1"]), ("name", [None, "closed"])]
    return [
        Family(
            "simple",
            [
                ("family", ["ramsey", "spin_echo"]),
                ("duration", durations + [1e-12, 1 / 3, 1e6]),
            ]
            + tail,
            run,
        ),
        Family(
            "counted",
            [
                ("family", ["carr_purcell", "cpmg", "uhrig", "periodic"]),
                ("offset_count", counts),
                ("duration", durations if deep else durations[:4]),
            ]
            + tail,
            run,
        ),
        Family(
            "walsh",
            [
                ("family", ["walsh"]),
                ("paley_order", range(1, 2001)),
                ("duration", durations if deep else [1.0]),
                ("option", ["True"]),
                ("name", [None]),
            ],
            run,
        ),
        Family(
            "quadratic",
            [
                ("family", ["quadratic"]),
                ("inner_offset_count", range(1, 33 if deep else 19)),
                ("outer_offset_count", range(1, 33 if deep else 19)),
                ("duration", durations[:3]),
            ]
            + tail,
            run,
        ),
        Family(
            "concatenated",
            [
                ("family", ["x_concatenated", "xy_concatenated"]),
                (
                    "concatenation_order",
                    lambda case: range(1, 13)
                    if case["family"] == "x_concatenated"
                    else range(1, 7 if deep else 6),
                ),
                ("duration", durations),
            ]
            + tail,
            run,
        ),
    ]
