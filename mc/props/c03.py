"""Which sequences can be converted."""

import itertools

from ..common import NAN, expect
from ..convert import KINDS, PI, convert, describe, pulses_of, segments_of
from ..engine import Family
from ..ref.convert import ACCEPT, EITHER, REJECT
from .c01 import (
    CLOSE,
    LONG,
    SLOTS,
    far_positions,
    long_case,
    one_different,
    place,
    subsets,
    words,
)

ASSUMPTIONS = [
    "gaps that miss the minimum by less than 2e-8 of the duration or 2e-5 of the "
    "minimum, but by more than rounding errors, may be accepted or rejected",
    "zero-rotation pulses count as pulses of zero width",
    "a zero gap is shorter than any positive minimum segment duration",
]


TRACES = [
    "X",
    "-Z",
    "mixed tiny",
    "mixed small",
    "X with a trace of Z",
    "Z with a trace of X",
    "trace of negative",
    "tiny",
    "tiny Z",
]


def judge(control, verdict, details):
    if verdict == ACCEPT:
        expect(control is not None, "a convertible sequence was rejected: {}", details)
    elif verdict == REJECT:
        expect(
            control is None,
            "a sequence that cannot be converted was accepted: {}",
            details,
        )
    if control is None:
        return (verdict, "rejected")
    return (verdict, describe(segments_of(control)))


def run(case):
    duration = case["duration"]
    pulses = pulses_of(case, duration)
    max_rabi = PI / (case["rabi width"] * duration)
    max_detuning = PI / (case["detuning width"] * duration)
    minimum = case["minimum"] * duration
    control, verdict, _ = convert(duration, pulses, max_rabi, max_detuning, minimum)
    return judge(control, verdict, (duration, pulses, max_rabi, max_detuning, minimum))


def run_close(case):
    width = case["relative width"] * case["distance"]
    minimum = case["relative minimum"] * case["distance"]
    return run(
        dict(
            case,
            **{"rabi width": width, "detuning width": width * 0.7, "minimum": minimum}
        )
    )


def run_limits(case):
    pulses = [
        (slot * 10.0,) + KINDS[kind] for slot, kind in zip(case["slots"], case["kinds"])
    ]
    control, verdict, _ = convert(
        10.0, pulses, case["max rabi"], case["max detuning"], case["minimum"]
    )
    return judge(control, verdict, case)


def run_gap(case):
    """Two pulses whose gap differs from the minimum by a small amount."""
    duration = case["duration"]
    width = 0.1 * duration
    minimum = case["minimum"] * duration
    gap = (case["minimum"] + case["excess"]) * duration
    first = {"start": 0.0, "middle": 0.3 * duration}[case["first"]]
    edge = first + (width if case["first"] == "start" else width / 2)
    second = edge + gap + width / 2
    kinds = case["kinds"]
    pulses = [(first,) + KINDS[kinds[0]], (second,) + KINDS[kinds[1]]]
    control, verdict, _ = convert(
        duration, pulses, PI / width, PI / width, minimum
    )
    return judge(control, verdict, (pulses, width, minimum))


def orderings(slots, size):
    """All tuples of slots: unsorted and coincident pulses, too."""
    return [list(item) for item in itertools.product(slots, repeat=size)]


def run_long(case):
    return run(long_case(case))


def families(tier, scratch):
    deep = tier == "thorough"
    all_kinds = ["X", "-Z", "X/2", "none", "mixed negative", "mixed", "negative", "odd", "Z", "mixed small"]
    return [
        Family(
            "order and kinds",
            [
                ("size", [0, 1, 2, 3] if deep else [0, 1, 2]),
                ("slots", lambda case: orderings([0, 0.25, 0.5, 0.75, 1], case["size"])),
                (
                    "kinds",
                    lambda case: words(
                        all_kinds if case["size"] < 3 else all_kinds[:5], case["size"]
                    ),
                ),
                ("rabi width", [0.02, 0.2]),
                ("detuning width", [0.06]),
                ("minimum", [0.0, 0.03]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "traces of unsuitable rotations",
            [
                ("size", [1, 2, 3]),
                ("slots", lambda case: [[0.25, 0.5, 0.75][: case["size"]]]),
                ("kinds", lambda case: words(TRACES, case["size"])),
                ("rabi width", [0.02]),
                ("detuning width", [0.06]),
                ("minimum", [0.0, 0.03]),
                ("duration", [1.0, 1e-8, 1e5]),
            ],
            run,
        ),
        Family(
            "several unsuitable pulses",
            [
                ("size", range(1, 11 if deep else 9)),
                (
                    "slots",
                    lambda case: [[(i + 0.5) / case["size"] for i in range(case["size"])]],
                ),
                (
                    "kinds",
                    lambda case: words(["X", "mixed", "mixed negative"], case["size"])
                    if case["size"] < 7
                    else words(["X", "mixed"], case["size"]),
                ),
                ("rabi width", [0.02]),
                ("detuning width", [0.06]),
                ("minimum", [0.0]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "three in any order",
            [
                ("slots", orderings([0, 0.25, 0.5, 1], 3)),
                ("kinds", words(["X", "-Z", "none", "mixed negative"], 3)),
                ("rabi width", [0.02]),
                ("detuning width", [0.06]),
                ("minimum", [0.0]),
                ("duration", [1.0, 1e-8]),
            ],
            run,
        ),
        Family(
            "fitting",
            [
                ("size", [1, 2]),
                ("slots", lambda case: subsets(SLOTS, case["size"])),
                ("kinds", lambda case: words(["X", "X/2", "-Z", "long", "none"], case["size"])),
                ("rabi width", [0.02, 0.125, 0.25, 0.126, 0.5]),
                ("detuning width", [0.06, 0.125, 0.25]),
                ("minimum", [0.0, 0.03, 0.125, 0.0625] if deep else [0.0, 0.125]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "fitting three",
            [
                ("slots", subsets(SLOTS, 3)),
                ("kinds", words(["X", "X/2", "-Z"], 3)),
                ("rabi width", [0.125, 0.126, 0.25] if deep else [0.125, 0.25]),
                ("detuning width", [0.125, 0.06] if deep else [0.125]),
                ("minimum", [0.0, 0.03, 0.125] if deep else [0.0, 0.0625]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "fitting four",
            [
                ("slots", subsets(SLOTS, 4)),
                ("kinds", words(["X", "X/2"], 4) if not deep else words(["X", "X/2", "-Z"], 4)),
                ("rabi width", [0.125] if not deep else [0.125, 0.25]),
                ("detuning width", [0.125]),
                ("minimum", [0.0]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "gap against minimum",
            [
                ("first", ["start", "middle"]),
                ("kinds", words(["X", "Y", "-Z", "Z"], 2)),
                ("minimum", [0.0, 0.1, 0.15]),
                (
                    "excess",
                    [0.0, 1e-15, -1e-15, 1e-6, -1e-6, 1e-4, -1e-4, 1e-2, -1e-2, 0.05, -0.05, -0.09, 1e-9],
                ),
                (
                    "duration",
                    [10.0 ** power for power in range(-12, 7)] + [3.7, 8e-9, 2.5e-8, 0.2],
                ),
            ],
            run_gap,
        ),
        Family(
            "limits",
            [
                ("slots", [[], [0.5], [0.25, 0.75]]),
                ("kinds", lambda case: words(["X", "-Z", "none"], len(case["slots"]))),
                ("max rabi", [10.0, 0, 0.0, -1, -1e-12, NAN, 1e-12, 1, 1e9]),
                ("max detuning", [10.0, 0, 0.0, -1, -1e-12, NAN, 1e-12, 1, 1e9]),
                ("minimum", [0.0, 0, -1e-12, -1, NAN, 0.01, 1, 2.5, 3, 4, 11.0]),
            ],
            run_limits,
        ),
        Family(
            "close to the ends and to each other",
            [
                ("distance", [10.0 ** -power for power in range(2, 8)]),
                (
                    "slots",
                    lambda case: [
                        [place(slot, case["distance"]) for slot in slots]
                        for slots in CLOSE
                    ],
                ),
                ("kinds", lambda case: words(["X", "-Z", "none"], len(case["slots"]))),
                ("relative width", [0.1, 0.9, 1.9, 2.1]),
                ("relative minimum", [0.0, 0.05, 0.3, 1.0, 1.1]),
                ("duration", [1.0]),
            ],
            run_close,
        ),
        Family(
            "one different pulse",
            one_different(
                [7, 70] if deep else [7, 40],
                ["-Z", "none", "mixed small", "mixed negative", "negative", "long"],
            ),
            run_long,
        ),
        Family(
            "time scales",
            [
                ("size", [1, 2]),
                ("slots", lambda case: orderings([0, 0.25, 0.5, 1], case["size"])),
                ("kinds", lambda case: words(["X", "-Z", "mixed negative"], case["size"])),
                ("rabi width", [0.02, 0.26, 0.5]),
                ("detuning width", [0.06]),
                ("minimum", [0.0, 0.2]),
                (
                    "duration",
                    [10.0 ** power for power in range(-12, 7)] + [3.7, 8e-9, 2.5e-8],
                ),
            ],
            run,
        ),
        Family(
            "faults far away",
            [
                ("count", [129, 401, 1025, 2049] if deep else [129, 401, 1025]),
                ("edges", ["inside"]),
                ("pattern", [["X"], ["-Z"]] if deep else [["X"]]),
                ("outlier", ["X", "mixed small", "mixed negative", "negative", "long"]),
                ("position", lambda case: far_positions(case["count"])),
                (
                    "moved",
                    lambda case: [0.65, 0.75, -0.65, -0.75, 1.0, 1.5, -1.5]
                    if case["outlier"] == "X"
                    else [0],
                ),
                ("minimum", [0.0]),
                ("duration", [1.0]),
            ],
            run_long,
        ),
        Family(
            "coincident pulses far away",
            [
                ("count", [128, 512, 1024, 4096] if deep else [128, 512, 1024]),
                ("edges", ["inside"]),
                ("pattern", [["none"]]),
                ("outlier", ["none", "X"]),
                ("position", lambda case: far_positions(case["count"])),
                ("moved", [1.0, -1.0, 1.25, 0.5]),
                ("minimum", [0.0]),
                ("duration", [1.0]),
            ],
            run_long,
        ),
        Family(
            "long sequences",
            [
                ("count", LONG + ([1000, 2000] if deep else [])),
                ("edges", ["inside", "start", "end", "both"]),
                ("pattern", [["X"], ["-Z"], ["X", "-Z", "odd"], ["none", "Y", "Z/2"]]),
                ("width", [0.3, 0.96]),
                ("minimum", [0.0, 0.25]),
                ("duration", [1.0, 3.7e-6]),
            ],
            run_long,
        ),
    ]
