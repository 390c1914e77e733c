"""Net rotation of the predefined driven controls."""

from ..common import expect, np, rounded
from ..controls import AZIMUTHS, NAMES, RATES, build, nominal, rotations, segments_of
from ..engine import Family
from ..ref import su2

import math

ASSUMPTIONS = [
    "the evolution is computed with an independent quaternion model",
    "distances up to a global phase; 1e-9 except for SCROFULOUS at pi/2 and pi/4, "
    "whose published angles are rounded to 0.1 degrees",
]

ROUNDED = {math.pi / 2: 5e-4, math.pi / 4: 2e-3}


def run(case):
    name, theta, azimuth = case["control"], case["rotation"], case["azimuth"]
    control = build(name, theta, case["rate"], azimuth)
    segments = segments_of(control)
    target = su2.rotation(theta, (math.cos(azimuth), math.sin(azimuth), 0.0))
    tolerance = 1e-9 + 2 * abs(theta - nominal(name, theta))
    if "scrofulous" in name:
        tolerance += ROUNDED.get(nominal(name, theta), 0.0)
    away = su2.distance(su2.evolve(segments), target)
    expect(
        away < tolerance,
        "the rotation is {} away from the requested one: {}",
        away,
        segments,
    )
    return rounded(tuple(segments), 8)


def run_default(case):
    """Without an azimuthal angle the rotation is about X; types do not matter."""
    name, theta = case["control"], case["rotation"]
    kind = {"float": float, "float64": np.float64}[case["type"]]
    from ..common import must
    from ..controls import constructor

    if case["style"] == "positional":
        control = must(constructor(name), kind(theta), kind(case["rate"]))
    else:
        control = must(
            constructor(name),
            rabi_rotation=kind(theta),
            maximum_rabi_rate=kind(case["rate"]),
        )
    target = su2.rotation(theta, (1.0, 0.0, 0.0))
    tolerance = 1e-9 + 2 * abs(theta - nominal(name, theta))
    if "scrofulous" in name:
        tolerance += ROUNDED.get(nominal(name, theta), 0.0)
    segments = segments_of(control)
    away = su2.distance(su2.evolve(segments), target)
    expect(away < tolerance, "the rotation is {} away: {}", away, segments)
    return rounded(tuple(segments), 8)


def families(tier, scratch):
    deep = tier == "thorough"
    return [
        Family(
            "rotations",
            [
                ("control", NAMES),
                ("rotation", lambda case: rotations(case["control"])),
                (
                    "azimuth",
                    [k * math.pi / 12 for k in range(-30, 31)] + AZIMUTHS[1:]
                    if deep
                    else AZIMUTHS,
                ),
                ("rate", RATES + [0.1, 50, 1e-9, 7] if deep else RATES),
            ],
            run,
        ),
        Family(
            "azimuths",
            [
                ("control", NAMES),
                ("rotation", lambda case: rotations(case["control"], 16)),
                ("azimuth", [k * math.pi / 24 for k in range(-72, 97)] + [100.0, -1e-9]),
                ("rate", [1.0, 2.5e-4]),
            ],
            run,
        ),
        Family(
            "rates",
            [
                ("control", NAMES),
                ("rotation", lambda case: rotations(case["control"], 16)),
                ("azimuth", [0.4]),
                (
                    "rate",
                    [m * 10.0 ** power for power in range(-9, 13) for m in (1.0, 3.3, 7.7)]
                    + [1, 2, 100],
                ),
            ],
            run,
        ),
        Family(
            "defaults",
            [
                ("control", NAMES),
                ("rotation", lambda case: rotations(case["control"], 4)),
                ("rate", [1.0, 2 * math.pi]),
                ("type", ["float", "float64"]),
                ("style", ["positional", "keywords"]),
            ],
            run_default,
        ),
    ]
