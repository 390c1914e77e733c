"""Walsh sequences: all supported Paley orders."""

from ..common import expect, np
from ..engine import Family
from ..sequences import build, check_pulses, digest, ideal

ASSUMPTIONS = [
    "the Walsh function is evaluated with integer bit parities",
    "pulse times are compared to 1e-10 of the duration",
]

TYPES = {
    "int": int,
    "float": float,
    "above": lambda n: n + 0.4,
    "int64": np.int64,
    "float64": np.float64,
}


def valid(case):
    return TYPES[case["type"]](case["order"]) <= 2000


def run(case):
    order = TYPES[case["type"]](case["order"])
    sequence = build("walsh", case["duration"], [order], name=case["name"])
    pulses = ideal("walsh", [case["order"]])
    check_pulses(sequence, case["duration"], pulses)
    expect(sequence.name == case["name"], "name is {!r}", sequence.name)
    return digest(sequence)


def families(tier, scratch):
    deep = tier == "thorough"
    return [
        Family(
            "all orders",
            [
                ("order", range(1, 2001)),
                ("type", ["int", "above", "float64"] if deep else ["int"]),
                (
                    "duration",
                    [1.0, 3.7, 1e-6, 2.5e-9, 86400, 0.1, 1e-12]
                    if deep
                    else [1.0, 3.7e-6],
                ),
                ("name", [None]),
            ],
            run,
            keep=valid,
        ),
        Family(
            "types",
            [
                ("order", list(range(1, 65)) + [127, 128, 255, 256, 257, 1023, 1999]),
                ("type", sorted(TYPES)),
                ("duration", [1.0, 7, 1e-8, 0.3, 1e6]),
                ("name", [None, "walsh"]),
            ],
            run,
            keep=valid,
        ),
    ]
