"""Quadratic sequences."""

from ..common import expect, np
from ..engine import Family
from ..sequences import build, check_pulses, digest, ideal

ASSUMPTIONS = ["pulse times are compared to 1e-10 of the duration"]

TYPES = {
    "int": int,
    "float": float,
    "above": lambda n: n + 0.6,
    "int64": np.int64,
}


def run(case):
    inner, outer = case["inner"], case["outer"]
    sequence = build(
        "quadratic",
        case["duration"],
        [TYPES[case["inner type"]](inner), TYPES[case["outer type"]](outer)],
        name=case["name"],
    )
    expect(
        len(sequence.offsets) == inner + outer * (inner + 1),
        "{} pulses",
        len(sequence.offsets),
    )
    check_pulses(sequence, case["duration"], ideal("quadratic", [inner, outer]))
    expect(sequence.name == case["name"], "name is {!r}", sequence.name)
    return digest(sequence)


def families(tier, scratch):
    deep = tier == "thorough"
    top = 61 if deep else 33
    return [
        Family(
            "counts",
            [
                ("inner", range(1, top)),
                ("outer", range(1, top)),
                ("inner type", ["int"]),
                ("outer type", ["int"]),
                ("duration", [1.0, 3.7e-6, 1e-9, 86400] if deep else [1.0, 3.7e-6]),
                ("name", [None]),
            ],
            run,
        ),
        Family(
            "lopsided",
            [
                ("inner", [1, 2, 3, 4, 5, 40, 64, 65, 100, 128, 200, 300]),
                (
                    "outer",
                    lambda case: [1, 2, 3, 4, 5, 40, 64, 65, 100, 128, 200, 300]
                    if case["inner"] <= 5
                    else [1, 2, 3, 4, 5],
                ),
                ("inner type", ["int"]),
                ("outer type", ["int"]),
                ("duration", [1.0, 2e-7]),
                ("name", [None]),
            ],
            run,
        ),
        Family(
            "types",
            [
                ("inner", range(1, 6)),
                ("outer", range(1, 6)),
                ("inner type", sorted(TYPES)),
                ("outer type", sorted(TYPES)),
                ("duration", [1.0, 7, 1e-8, 0.3, 1e6]),
                ("name", [None, "quadratic"]),
            ],
            run,
        ),
    ]
