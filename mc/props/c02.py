"""Limits of converted controls."""

from ..common import expect
from ..convert import KINDS, PI, check_limits, convert, describe, pulses_of
from ..engine import Family
from .c01 import (
    CLOSE,
    LONG,
    SLOTS,
    long_case,
    one_different,
    place,
    subsets,
    words,
)

ASSUMPTIONS = [
    "rates are compared to 1e-9 plus the rounding of the segment boundaries, segment durations to 2e-5 of the minimum plus "
    "2e-8 of the sequence duration, which is what the library itself tolerates",
]

MIXTURE = ["X", "X/2", "-Z", "Z/2", "small", "odd"]


def run(case):
    duration = case["duration"]
    pulses = pulses_of(case, duration)
    max_rabi = PI / (case["rabi width"] * duration)
    max_detuning = PI / (case["detuning width"] * duration)
    minimum = case["minimum"] * duration
    control, _, _ = convert(duration, pulses, max_rabi, max_detuning, minimum)
    if control is None:
        return "rejected"
    segments = check_limits(control, duration, max_rabi, max_detuning, minimum)
    return describe(segments)


def run_close(case):
    width = case["relative width"] * case["distance"]
    minimum = case["relative minimum"] * case["distance"]
    return run(
        dict(
            case,
            **{"rabi width": width, "detuning width": width * 0.7, "minimum": minimum}
        )
    )


def run_rates(case):
    """Limits given as plain numbers instead of widths."""
    pulses = [
        (slot * case["duration"],) + KINDS[kind]
        for slot, kind in zip(case["slots"], case["kinds"])
    ]
    minimum = case["minimum"]
    control, _, _ = convert(
        case["duration"], pulses, case["max rabi"], case["max detuning"], minimum
    )
    if control is None:
        return "rejected"
    return describe(
        check_limits(
            control, case["duration"], case["max rabi"], case["max detuning"], minimum
        )
    )


def run_long(case):
    return run(long_case(case))


def families(tier, scratch):
    deep = tier == "thorough"
    widths = [0.02, 0.05, 0.125, 0.25, 0.004]
    minima = [0.0, 0.01, 0.02, 0.03, 0.05, 0.1, 0.125, 0.004]
    wide_slots = [0, 1 / 6, 1 / 2, 5 / 6, 1]
    return [
        Family(
            "up to two pulses",
            [
                ("size", [1, 2]),
                ("slots", lambda case: subsets(SLOTS if deep else wide_slots, case["size"])),
                ("kinds", lambda case: words(MIXTURE, case["size"])),
                ("rabi width", widths),
                ("detuning width", widths if deep else widths[:3]),
                ("minimum", minima),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "three pulses",
            [
                ("slots", subsets(wide_slots, 3)),
                ("kinds", words(MIXTURE, 3) if deep else words(MIXTURE[1:5], 3)),
                ("rabi width", widths[:4] if deep else [0.02, 0.125]),
                ("detuning width", widths[:4] if deep else [0.05, 0.004]),
                ("minimum", minima if deep else [0.0, 0.03, 0.05, 0.1]),
                ("duration", [1.0] if deep else [1.0]),
            ],
            run,
        ),
        Family(
            "time scales",
            [
                ("size", [1, 2]),
                ("slots", lambda case: subsets([0, 0.5, 1], case["size"])),
                ("kinds", lambda case: words(["X", "-Z", "small"], case["size"])),
                ("rabi width", [0.02, 0.25]),
                ("detuning width", [0.05]),
                ("minimum", [0.0, 0.03, 0.1, 0.25]),
                (
                    "duration",
                    [10.0 ** power for power in range(-12, 7)] + [3.7, 8e-9, 2.5e-8],
                ),
            ],
            run,
        ),
        Family(
            "close to the ends and to each other",
            [
                ("distance", [10.0 ** -power for power in range(2, 9)]),
                (
                    "slots",
                    lambda case: [
                        [place(slot, case["distance"]) for slot in slots]
                        for slots in CLOSE
                    ],
                ),
                ("kinds", lambda case: words(["X", "-Z", "none"], len(case["slots"]))),
                ("relative width", [0.1, 0.9]),
                ("relative minimum", [0.0, 0.3, 1.0]),
                ("duration", [1.0]),
            ],
            run_close,
        ),
        Family(
            "one different pulse",
            one_different([7, 70] if deep else [7, 40], ["Y", "-Z", "odd", "small", "long"]),
            run_long,
        ),
        Family(
            "plain rates",
            [
                ("slots", [[0.5], [0, 0.5], [0.25, 0.75], [0, 0.5, 1]]),
                ("kinds", lambda case: words(["X", "Z", "-Z/4", "odd"], len(case["slots"]))),
                ("max rabi", [1, 2 * PI, 10.0, 1000, 1e6]),
                ("max detuning", [1, 2 * PI, 10.0, 1e6]),
                ("minimum", [0, 0.0, 0.01, 1, 0.5]),
                ("duration", [1, 10.0, 200.0] if deep else [10.0, 200.0]),
            ],
            run_rates,
        ),
        Family(
            "long sequences",
            [
                ("count", LONG + ([1000, 1025, 2000, 2049] if deep else [1025])),
                ("edges", ["inside", "start", "end", "both"]),
                ("pattern", [["X"], ["-Z"], ["X", "-Z", "odd"], ["none", "Y", "Z/2"]]),
                ("width", [0.3, 0.96]),
                ("minimum", [0.0, 0.05, 0.25]),
                ("duration", [1.0, 3.7e-6]),
            ],
            run_long,
        ),
    ]
