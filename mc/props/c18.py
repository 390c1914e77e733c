"""Plot dictionaries."""

import cmath
import math

from ..common import control_data, expect, must, np, rounded, sequence_data
from ..engine import Family
from ..objects import (
    CORE,
    DIFFERENT,
    KINDS,
    LONGEST,
    PATTERNS,
    PULSE_KINDS,
    VERY_LONG,
    make_control,
    make_sequence,
    outliers,
    pulses_for,
    segments_for,
    word_of,
    words,
)

ASSUMPTIONS = ["values are compared to 1e-13 of the value"]

KEYS = {
    "cylindrical": {"Rabi rate", "Detuning"},
    "cartesian": {"X amplitude", "Y amplitude", "Detuning"},
}


def close(value, wanted, scale):
    value = complex(value)
    return (
        math.isfinite(value.real)
        and math.isfinite(value.imag)
        and abs(value - wanted) <= 1e-13 * abs(scale)
    )


def check_entries(label, entries, wanted, keys):
    expect(
        len(entries) == len(wanted),
        "{} entries for {} instead of {}",
        len(entries),
        label,
        len(wanted),
    )
    for position, (entry, (value, when, scale)) in enumerate(zip(entries, wanted)):
        expect(set(entry) == set(keys), "entry {} of {}", entry, label)
        expect(
            float(entry[keys[1]]) == when,
            "{} {} of {} is {!r} instead of {!r}",
            keys[1],
            position,
            label,
            entry[keys[1]],
            when,
        )
        expect(
            close(entry[keys[0]], value, scale),
            "{} {} of {} is {!r} instead of {!r}",
            keys[0],
            position,
            label,
            entry[keys[0]],
            value,
        )


def check_control(control, segments, case):
    before = repr(control_data(control))
    options = {}
    if case["coordinates"] is not None:
        options["coordinates"] = case["coordinates"]
    if case["normalised"] is not None:
        options["dimensionless_rabi_rate"] = case["normalised"]
    if case.get("positional"):
        result = must(control.export, *options.values())
    else:
        result = must(control.export, **options)
    expect(repr(control_data(control)) == before, "the export changed the control")
    coordinates = case["coordinates"] or "cylindrical"
    normalised = case["normalised"] is None or case["normalised"]
    largest = max(segment[1] for segment in segments)
    factor = 1 / largest if normalised and largest else 1.0
    expect(set(result) == KEYS[coordinates], "keys {}", sorted(result))
    keys = ("value", "duration")
    if coordinates == "cylindrical":
        check_entries(
            "Rabi rate",
            result["Rabi rate"],
            [(r * factor * cmath.exp(1j * a), d, r * factor) for d, r, a, _ in segments],
            keys,
        )
    else:
        check_entries(
            "X amplitude",
            result["X amplitude"],
            [(r * factor * math.cos(a), d, r * factor) for d, r, a, _ in segments],
            keys,
        )
        check_entries(
            "Y amplitude",
            result["Y amplitude"],
            [(r * factor * math.sin(a), d, r * factor) for d, r, a, _ in segments],
            keys,
        )
    check_entries(
        "Detuning", result["Detuning"], [(z, d, z) for d, _, _, z in segments], keys
    )
    return (coordinates, normalised, rounded(tuple(tuple(s) for s in segments)))


def run(case):
    segments = segments_for(case["word"], case.get("time", 1.0))
    name = case.get("name")
    columns = case.get("columns", "raz")
    control = make_control(segments, name, columns)
    segments = [
        (
            d,
            r if "r" in columns else 0.0,
            a if "a" in columns else 0.0,
            z if "z" in columns else 0.0,
        )
        for d, r, a, z in segments
    ]
    return check_control(control, segments, case)


ANSWERS = {
    "one": 1,
    "zero": 0,
    "NumPy true": np.bool_(True),
    "NumPy false": np.bool_(False),
}


def run_answers(case):
    return run(dict(case, normalised=ANSWERS[case["normalised"]]))


def run_long(case):
    segments = segments_for(word_of(case))
    return check_control(make_control(segments), segments, case)


def run_sequence(case):
    pulses = pulses_for(case["word"], case["duration"], case["spread"])
    sequence = make_sequence(case["duration"], pulses, case.get("name"), case["style"])
    before = repr(sequence_data(sequence))
    result = must(sequence.export)
    expect(repr(sequence_data(sequence)) == before, "the export changed the sequence")
    expect(set(result) == {"Rabi", "Detuning"}, "keys {}", sorted(result))
    keys = ("rotation", "offset")
    check_entries(
        "Rabi",
        result["Rabi"],
        [(r * cmath.exp(1j * a), t, r) for t, r, a, _ in pulses],
        keys,
    )
    check_entries(
        "Detuning", result["Detuning"], [(z, t, z) for t, _, _, z in pulses], keys
    )
    return rounded(tuple(tuple(pulse) for pulse in pulses))


def run_long_sequence(case):
    return run_sequence(dict(case, word=word_of(case)))


def families(tier, scratch):
    deep = tier == "thorough"
    options = [
        ("coordinates", ["cylindrical", "cartesian"]),
        ("normalised", [True, False]),
    ]
    defaults = [
        ("coordinates", [None, "cylindrical", "cartesian"]),
        ("normalised", [None, True, False]),
    ]
    return [
        Family(
            "controls of up to three segments",
            [("word", words(KINDS, [1, 2, 3]))] + options,
            run,
        ),
        Family(
            "controls of more segments",
            [("word", words(CORE, [4, 5] if deep else [4]))] + options,
            run,
        ),
        Family(
            "defaults",
            [("word", words(CORE, [1, 2])), ("name", [None, "a"])] + defaults,
            run,
        ),
        Family(
            "positional options",
            [
                ("word", words(CORE, [1, 2])),
                ("positional", [True]),
            ]
            + options,
            run,
        ),
        Family(
            "omitted columns",
            [
                ("word", words(CORE, [1, 2])),
                ("columns", ["", "r", "a", "z", "ra", "rz", "az"]),
            ]
            + options,
            run,
        ),
        Family(
            "time scales of controls",
            [
                ("word", words(CORE, [1, 2])),
                ("time", [10.0 ** power for power in range(-12, 10)]),
            ]
            + options,
            run,
        ),
        Family(
            "one different segment",
            outliers([12, 140] if deep else [70], [["X"], ["idle"], ["third"]], DIFFERENT) + options,
            run_long,
        ),
        Family(
            "very long controls",
            [("length", VERY_LONG + (LONGEST if deep else [])), ("pattern", PATTERNS[-1:])]
            + options,
            run_long,
        ),
        Family(
            "kinds of yes and no",
            [
                ("word", words(CORE, [1, 2])),
                ("coordinates", ["cylindrical", "cartesian"]),
                ("normalised", list(ANSWERS)),
            ],
            run_answers,
        ),
        Family(
            "long controls",
            [
                ("length", list(range(5, 30)) + [64, 100, 999, 1000, 1001]),
                ("pattern", PATTERNS),
            ]
            + options,
            run_long,
        ),
        Family(
            "sequences",
            [
                ("word", words(PULSE_KINDS, [0, 1, 2, 3])),
                ("duration", [1.0]),
                ("spread", ["even", "edges"]),
                ("style", ["array"]),
            ],
            run_sequence,
        ),
        Family(
            "sequence options",
            [
                ("word", words(PULSE_KINDS[:8], [0, 1, 2])),
                ("duration", [1.0, 7, 3.7e-6, 1e-12, 1e9]),
                ("spread", ["even", "edges", "start", "reversed", "thirds"]),
                ("style", ["array", "list", "tuple"]),
                ("name", [None, "a"]),
            ],
            run_sequence,
        ),
        Family(
            "one different pulse",
            outliers(
                [12, 140] if deep else [70],
                [["X"], ["none"]],
                ["Y", "-Z/2", "none", "both", "huge", "tiny"],
            )
            + [("duration", [1.0]), ("spread", ["even", "edges"]), ("style", ["array"])],
            run_long_sequence,
        ),
        Family(
            "very long sequences",
            [
                ("length", VERY_LONG + (LONGEST if deep else [])),
                ("pattern", [PULSE_KINDS]),
                ("duration", [1.0]),
                ("spread", ["even"]),
                ("style", ["array"]),
            ],
            run_long_sequence,
        ),
        Family(
            "long sequences",
            [
                ("length", list(range(4, 40)) + [100, 999, 1000, 1001]),
                ("pattern", [["X"], ["X", "Y"], ["none"], PULSE_KINDS]),
                ("duration", [1.0, 3.7e-6]),
                ("spread", ["even", "edges"]),
                ("style", ["array"]),
            ],
            run_long_sequence,
        ),
    ]
