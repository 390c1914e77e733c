"""Documented segments of the predefined driven controls."""

import math

from ..common import expect, near, np, package, rounded, same_angle
from ..controls import (
    AZIMUTHS,
    NAMES,
    RATES,
    build,
    nominal,
    reference,
    rotations,
    segments_of,
)
from ..engine import Family

ASSUMPTIONS = [
    "angles and phases are compared to 1e-9; to 1e-3 (8e-3 for phases) for "
    "SCROFULOUS, whose published angles are rounded to 0.1 degrees, and to 1e-7 for "
    "WAMF1, whose published constants have eight digits",
    "phases are compared modulo a full turn",
]


def run(case):
    name, theta, rate, azimuth = (
        case["control"],
        case["rotation"],
        case["rate"],
        case["azimuth"],
    )
    control = build(name, theta, rate, azimuth, name=case.get("name"))
    expect(
        isinstance(control, package.DrivenControl), "result is a {}", type(control)
    )
    expect(control.name == case.get("name"), "name is {!r}", control.name)
    segments = segments_of(control)
    wanted = reference(name, nominal(name, theta))
    loose = abs(theta - nominal(name, theta))
    angle_tolerance = phase_tolerance = 1e-9 + 4 * loose
    if "scrofulous" in name and nominal(name, theta) < 3:
        angle_tolerance, phase_tolerance = 1e-3, 8e-3
    if name == "wamf1":
        angle_tolerance = 1e-7 + 4 * loose
    expect(
        len(segments) == len(wanted),
        "{} segments instead of {}",
        len(segments),
        len(wanted),
    )
    largest = max(angle for angle, _ in wanted)
    for position, (segment, (angle, phase)) in enumerate(zip(segments, wanted)):
        duration, rabi, segment_phase, detuning = segment
        expect(detuning == 0, "segment {} has detuning {}", position, detuning)
        if name == "wamf1":
            expect(
                near(duration * rate, largest, 1.0, angle_tolerance),
                "segment {} lasts {!r}",
                position,
                duration,
            )
        else:
            expect(
                near(rabi, rate, rate), "segment {} has rate {!r}", position, rabi
            )
        expect(
            rabi <= rate * (1 + 1e-12),
            "segment {} has rate {!r} above {!r}",
            position,
            rabi,
            rate,
        )
        expect(
            near(duration * rabi, angle, max(1.0, angle), angle_tolerance),
            "segment {} rotates by {!r} instead of {!r}",
            position,
            duration * rabi,
            angle,
        )
        expect(
            same_angle(segment_phase, azimuth + phase, phase_tolerance),
            "segment {} has phase {!r} instead of {!r}",
            position,
            segment_phase,
            azimuth + phase,
        )
    expect(
        near(max(segment[1] for segment in segments), rate, rate),
        "the maximum rate is not used",
    )
    return rounded(tuple(segments), 8)


def families(tier, scratch):
    deep = tier == "thorough"
    return [
        Family(
            "rotations",
            [
                ("control", NAMES),
                ("rotation", lambda case: rotations(case["control"])),
                ("azimuth", AZIMUTHS),
                ("rate", RATES + [0.1, 50, 1e-9, 7] if deep else RATES),
            ],
            run,
        ),
        Family(
            "names",
            [
                ("control", NAMES),
                ("rotation", lambda case: rotations(case["control"], 24)),
                ("azimuth", [0.0, -0.4]),
                ("rate", [1.0, 1, np.float64(2.5), 10]),
                ("name", [None, "", "a name", "x" * 200]),
            ],
            run,
        ),
        Family(
            "azimuths",
            [
                ("control", NAMES),
                ("rotation", lambda case: rotations(case["control"], 16)),
                ("azimuth", [k * math.pi / 24 for k in range(-72, 97)]),
                ("rate", [1.0, 2.5e-4]),
            ],
            run,
        ),
    ]
