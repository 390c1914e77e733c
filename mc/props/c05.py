"""Timing and axes of the single-axis sequences."""

from ..common import attempt, expect, np, package
from ..engine import Family
from ..sequences import build, check_pulses, constructor, digest, ideal

ASSUMPTIONS = [
    "pulse times are compared to 1e-10 of the duration, angles to 1e-9",
    "azimuthal angles are compared modulo a full turn",
]

COUNTED = ["carr_purcell", "cpmg", "uhrig", "periodic"]
DURATIONS = [1.0, 0.1, 3.7, 1e-6, 2.5e-9, 7, 1234.5678, 1e6, 1e-12, 0.3]
MORE_DURATIONS = DURATIONS + [
    1 / 3,
    2 / 3,
    10,
    1e-3,
    5e-8,
    1e-8,
    1e-15,
    1e9,
    3.141592653589793,
    0.7,
    99.99,
    1,
    2,
    86400,
    1e-7,
    6.02e23,
]
TYPES = {
    "int": int,
    "float": float,
    "above": lambda n: n + 0.3,
    "nearly next": lambda n: n + 0.999,
    "int64": np.int64,
    "float64": np.float64,
    "int32": np.int32,
}
DURATION_TYPES = {
    "as is": lambda value: value,
    "float64": np.float64,
}


def run_counted(case):
    sequence = build(case["family"], case["duration"], [case["count"]])
    check_pulses(sequence, case["duration"], ideal(case["family"], [case["count"]]))
    expect(sequence.name is None, "name is {!r} instead of None", sequence.name)
    return digest(sequence)


def run_arguments(case):
    family = case["family"]
    make = constructor(family)
    duration = DURATION_TYPES[case["duration type"]](case["duration"])
    parameters = []
    if family in COUNTED:
        parameters = [TYPES[case["count type"]](case["count"])]
    style = case["style"]
    name = case["name"]
    if style == "positional":
        sequence, error = attempt(make, duration, *parameters, False, name)
    elif style == "mixed":
        sequence, error = attempt(make, duration, *parameters, name=name)
    else:
        keywords = {"name": name, "pre_post_rotation": False, "duration": duration}
        if parameters:
            keywords["offset_count"] = parameters[0]
        sequence, error = attempt(make, **keywords)
    expect(error is None, "valid arguments were rejected: {}", error)
    expect(
        isinstance(sequence, package.DynamicDecouplingSequence),
        "result is a {}",
        type(sequence),
    )
    check_pulses(
        sequence, float(duration), ideal(family, [int(value) for value in parameters])
    )
    expect(sequence.name == name, "name is {!r} instead of {!r}", sequence.name, name)
    return digest(sequence) + (name,)


def families(tier, scratch):
    deep = tier == "thorough"
    counts = list(range(1, 801 if deep else 261)) + (
        [1000, 1024, 2047, 3000] if deep else [300, 333, 400, 511, 512, 513, 1000]
    )
    return [
        Family(
            "small",
            [
                ("family", ["ramsey", "spin_echo"] + COUNTED),
                ("count", lambda case: range(1, 7) if case["family"] in COUNTED else [1]),
                (
                    "count type",
                    lambda case: sorted(TYPES) if case["family"] in COUNTED else ["int"],
                ),
                ("duration", MORE_DURATIONS if deep else MORE_DURATIONS[:14]),
                ("duration type", ["as is", "float64"]),
                ("name", [None, "", "a name", "x" * 300]),
                ("style", ["keywords", "positional", "mixed"]),
            ],
            run_arguments,
        ),
        Family(
            "counts",
            [
                ("family", COUNTED),
                ("count", counts),
                ("duration", MORE_DURATIONS if deep else DURATIONS),
            ],
            run_counted,
        ),
        Family(
            "large counts",
            [
                ("family", COUNTED),
                (
                    "count",
                    [2 ** power + shift for power in range(11, 18 if deep else 17) for shift in (-1, 0, 1)],
                ),
                ("duration", [1.0, 3.7e-6] if deep else [1.0]),
            ],
            run_counted,
        ),
    ]
