"""Fidelity of the conversion."""

import itertools

from ..common import expect
from ..convert import KINDS, PI, check_fidelity, convert, describe, pulses_of
from ..engine import Family
from ..ref.convert import ACCEPT

ASSUMPTIONS = [
    "positions are multiples of 1/8 of the duration (plus odd ones and ones close to "
    "the ends or to each other)",
    "times are compared to 1e-10 of the duration, or to 5e-8 (the tolerance with which "
    "the library itself accepts touching pulses) if pulses overlap; angles to 1e-9",
    "the dynamic range between the sequence and its shortest pulse is below 1e9",
]

SLOTS = [0, 1 / 8, 1 / 4, 3 / 8, 1 / 2, 5 / 8, 3 / 4, 7 / 8, 1]
CORE = ["X", "Y", "Z", "-Z", "odd", "none"]
WIDE = [
    "X",
    "Y",
    "Z",
    "X/2",
    "-X/2",
    "Z/2",
    "-Z",
    "-Z/4",
    "odd",
    "wound",
    "long",
    "small",
    "small Z",
    "none",
    "none tilted",
    "Z tilted",
    "very long",
    "very long Z",
    "tiny",
    "tiny Z",
    "far wound",
]
# width of a pi pulse as a fraction of the duration, for Rabi and detuning
WIDTHS = [0.02, 0.125, 0.06, 0.001]


def subsets(slots, size):
    return [list(item) for item in itertools.combinations(slots, size)]


def words(kinds, size):
    return [list(item) for item in itertools.product(kinds, repeat=size)]


def run(case):
    duration = case["duration"]
    pulses = pulses_of(case, duration)
    max_rabi = PI / (case["rabi width"] * duration)
    max_detuning = PI / (case["detuning width"] * duration)
    minimum = case["minimum"] * duration
    control, verdict, intervals = convert(
        duration,
        pulses,
        max_rabi,
        max_detuning,
        minimum,
        case.get("name"),
        case.get("style", 0),
    )
    if control is None:
        # whether this is right is the subject of C03
        return "rejected"
    if intervals is None:
        # accepted although it has to be rejected: what can be said without the
        # model is that the total time and angles are right
        expect(False, "a sequence that has to be rejected was converted: {}", pulses)
    segments = check_fidelity(
        control, duration, intervals, 1e-10 if verdict == ACCEPT else 5e-8
    )
    return describe(segments)


LONG = [10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 257, 400]


VERY_LONG = [512, 513, 1000, 1001, 1024, 1025, 2048, 2049, 4097]


def far_positions(count):
    """Positions in a long sequence, among them both sides of round numbers."""
    near = {0, 1, count // 2, count - 3, count - 2, count - 1}
    for size in (64, 100, 128, 256, 300, 500, 512, 1000, 1024, 2000, 2048):
        near |= {size - 1, size}
    return sorted(position for position in near if position < count)


def long_case(case):
    """A regular train of pulses as a case for `run`."""
    count = case["count"]
    slots = [(i + 0.5) / count for i in range(count)]
    if case["edges"] in ("start", "both"):
        slots[0] = 0
    if case["edges"] in ("end", "both"):
        slots[-1] = 1
    pattern = case["pattern"]
    kinds = [pattern[i % len(pattern)] for i in range(count)]
    if "outlier" in case:
        kinds[case["position"]] = case["outlier"]
    if "moved" in case:
        position = case["position"]
        slots[position] = min(max(slots[position] + case["moved"] / count, 0), 1)
    return {
        "slots": slots,
        "kinds": kinds,
        "rabi width": case.get("width", 0.3) / count,
        "detuning width": 0.2 / count,
        "minimum": case["minimum"] / count,
        "duration": case["duration"],
    }


def one_different(counts, kinds):
    """Trains of equal pulses in which one pulse is of another kind or moved."""
    return [
        ("count", counts),
        ("edges", ["inside", "both"]),
        ("pattern", [["X"], ["-Z"], ["none"]]),
        ("outlier", kinds),
        ("position", lambda case: range(case["count"])),
        ("moved", [0, 0.15, -0.15]),
        ("minimum", [0.0, 0.1]),
        ("duration", [1.0]),
    ]


def run_long(case):
    return run(long_case(case))


# positions as (fraction of the duration, multiple of a small distance)
CLOSE = [
    [(0, 1)],
    [(1, -1)],
    [(0, 1), (1, -1)],
    [(0, 1), (0.5, 0)],
    [(0.5, 0), (1, -1)],
    [(0, 0), (0, 2)],
    [(1, -2), (1, 0)],
    [(0.5, 0), (0.5, 1)],
    [(0.25, -1), (0.25, 1)],
    [(0, 0), (0, 2), (0, 3)],
    [(0.5, -1), (0.5, 0), (0.5, 1)],
    [(1, -3), (1, -2), (1, 0)],
]


def place(slot, distance):
    return slot[0] + slot[1] * distance


def run_close(case):
    width = case["relative width"] * case["distance"]
    return run(dict(case, **{"rabi width": width, "detuning width": width * 0.7}))


def shape(sizes, kinds, slots=SLOTS):
    return [
        ("size", sizes),
        ("slots", lambda case: subsets(slots, case["size"])),
        ("kinds", lambda case: words(kinds, case["size"])),
    ]


def families(tier, scratch):
    deep = tier == "thorough"
    return [
        Family(
            "up to two pulses of all kinds",
            shape([0, 1, 2], WIDE)
            + [
                ("rabi width", WIDTHS if deep else WIDTHS[:2]),
                ("detuning width", WIDTHS[:2]),
                ("minimum", [0.0, 0.04]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "three pulses",
            shape([3], CORE)
            + [
                ("rabi width", [0.02, 0.125] if deep else [0.02]),
                ("detuning width", [0.06, 0.02] if deep else [0.06]),
                ("minimum", [0.0, 0.03] if deep else [0.0]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "four pulses",
            shape([4], ["X", "-Z"] if not deep else ["X", "-Z", "odd"])
            + [
                ("rabi width", [0.02]),
                ("detuning width", [0.06]),
                ("minimum", [0.03]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "many pulses",
            [
                ("size", range(5, 10)),
                ("slots", lambda case: subsets(SLOTS, case["size"])),
                (
                    "kinds",
                    lambda case: [
                        [(["X", "-Z", "Y", "Z"])[(first + i * step) % 4] for i in range(case["size"])]
                        for first in range(4)
                        for step in (0, 1, 2, 3)
                    ],
                ),
                ("rabi width", [0.02]),
                ("detuning width", [0.06]),
                ("minimum", [0.0, 0.03]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "long sequences",
            [
                (
                    "count",
                    LONG + ([1000, 2000] if deep else []),
                ),
                ("edges", ["inside", "start", "end", "both"]),
                (
                    "pattern",
                    [["X"], ["-Z"], ["X", "Y"], ["X", "-Z", "odd"], ["none", "Y", "Z/2"]],
                ),
                ("minimum", [0.0, 0.05]),
                ("duration", [1.0, 3.7e-6]),
            ],
            run_long,
        ),
        Family(
            "very long sequences",
            [
                ("count", VERY_LONG + ([10000, 16385] if deep else [])),
                ("edges", ["inside", "both"]),
                ("pattern", [["X", "-Z", "odd"]] + ([["Y"], ["Z/2"]] if deep else [])),
                ("minimum", [0.05]),
                ("duration", [1.0]),
            ],
            run_long,
        ),
        Family(
            "one different pulse far away",
            [
                ("count", [401, 1025, 2049] if deep else [401, 1025]),
                ("edges", ["inside"]),
                ("pattern", [["X"]]),
                ("outlier", ["-Z", "odd"]),
                ("position", lambda case: far_positions(case["count"])),
                ("moved", [0.15]),
                ("minimum", [0.1]),
                ("duration", [1.0]),
            ],
            run_long,
        ),
        Family(
            "one different pulse",
            one_different(
                [7, 70, 140] if deep else [7, 70],
                ["Y", "-Z", "none", "odd", "small", "tiny Z", "wound"],
            ),
            run_long,
        ),
        Family(
            "time scales",
            shape([0, 1, 2], ["X", "Y", "-Z", "odd", "small"], [0, 0.25, 0.5, 0.6180339887, 1])
            + [
                ("rabi width", [0.02, 0.25]),
                ("detuning width", [0.06]),
                ("minimum", [0.0, 0.05]),
                (
                    "duration",
                    [10.0 ** power for power in range(-12, 7)]
                    + [3.7, 8e-9, 2.5e-8, 7e-7, 0.2, 0.1],
                ),
            ],
            run,
        ),
        Family(
            "one pulse swept over the sequence",
            [
                ("slots", [[k / 101] for k in range(1, 101)] + [[0], [1]]),
                ("kinds", [[kind] for kind in WIDE]),
                ("rabi width", WIDTHS),
                ("detuning width", WIDTHS[:2]),
                ("minimum", [0.0, 0.01]),
                ("duration", [1.0, 3.7e-6]),
            ],
            run,
        ),
        Family(
            "close to the ends and to each other",
            [
                ("distance", [10.0 ** -power for power in range(2, 9)]),
                (
                    "slots",
                    lambda case: [
                        [place(slot, case["distance"]) for slot in slots]
                        for slots in CLOSE
                    ],
                ),
                ("kinds", lambda case: words(["X", "-Z", "odd", "none"], len(case["slots"]))),
                ("relative width", [0.2, 0.9, 1.7]),
                ("minimum", [0.0]),
                ("duration", [1.0, 3.7e-6, 1e3]),
            ],
            run_close,
        ),
        Family(
            "names and calling styles",
            shape([0, 1, 2], ["X", "-Z"])
            + [
                ("rabi width", [0.02]),
                ("detuning width", [0.06]),
                ("minimum", [0.0, 0.05]),
                ("duration", [1.0, 7]),
                ("name", [None, "", "converted"]),
                ("style", [0, 1, 2]),
            ],
            run,
        ),
    ]
