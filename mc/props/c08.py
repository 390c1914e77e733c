"""X- and XY-concatenated sequences."""

from ..common import expect, np
from ..engine import Family
from ..sequences import build, check_pulses, digest, ideal

ASSUMPTIONS = [
    "pulse times are compared to 1e-10 of the duration",
    "the last pulse of XY sequences of odd order lies exactly at the end",
]

TYPES = {
    "int": int,
    "float": float,
    "above": lambda n: n + 0.5,
    "int64": np.int64,
}
DURATIONS = [
    1.0,
    3.7,
    1e-6,
    0.1,
    7,
    1 / 3,
    2.5e-9,
    86400,
    0.3,
    1e-12,
    1234.5678,
    0.7,
    1.1e-5,
    9.999,
]


def run(case):
    duration = case["duration"]
    sequence = build(
        case["family"],
        duration,
        [TYPES[case["type"]](case["order"])],
        name=case["name"],
    )
    check_pulses(sequence, duration, ideal(case["family"], [case["order"]]))
    if case["family"] == "xy_concatenated" and case["order"] % 2:
        expect(
            float(sequence.offsets[-1]) == duration,
            "last pulse at {!r}, not at the end {!r}",
            float(sequence.offsets[-1]),
            duration,
        )
    expect(sequence.name == case["name"], "name is {!r}", sequence.name)
    return digest(sequence)


def families(tier, scratch):
    deep = tier == "thorough"
    # durations with many significant digits, where rounding matters
    awkward = [(1 + (k * 0.6180339887498949) % 1) * 10 ** (k % 13 - 9) for k in range(160)]
    return [
        Family(
            "orders",
            [
                ("family", ["x_concatenated", "xy_concatenated"]),
                (
                    "order",
                    lambda case: range(1, (15 if deep else 13))
                    if case["family"] == "x_concatenated"
                    else range(1, (8 if deep else 7)),
                ),
                ("type", ["int"]),
                ("duration", DURATIONS),
                ("name", [None]),
            ],
            run,
        ),
        Family(
            "durations",
            [
                ("family", ["x_concatenated", "xy_concatenated"]),
                (
                    "order",
                    lambda case: range(1, 9)
                    if case["family"] == "x_concatenated"
                    else range(1, 5 if deep else 4),
                ),
                ("type", ["int"]),
                ("duration", awkward),
                ("name", [None]),
            ],
            run,
        ),
        Family(
            "types",
            [
                ("family", ["x_concatenated", "xy_concatenated"]),
                ("order", [1, 2, 3]),
                ("type", sorted(TYPES)),
                ("duration", DURATIONS),
                ("name", [None, "concatenated"]),
            ],
            run,
        ),
    ]
