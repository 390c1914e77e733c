"""Text representations."""

import math

from ..common import control_data, expect, must, np, package, rounded, sequence_data
from ..engine import Family
from ..objects import (
    CORE,
    DIFFERENT,
    KINDS,
    NAMES,
    PATTERNS,
    PULSE_KINDS,
    VERY_LONG,
    make_control,
    make_sequence,
    outliers,
    pulses_for,
    segments_for,
    word_of,
    words,
)

ASSUMPTIONS = [
    "products of list and scale are compared to 1e-13 of the value",
    "the code-like representation is compared to the printing precision of numpy "
    "arrays; for more than 1000 elements, where numpy abbreviates, only the readable "
    "text is compared",
]

NAMESPACE = {
    "array": np.array,
    "DrivenControl": package.DrivenControl,
    "DynamicDecouplingSequence": package.DynamicDecouplingSequence,
}

CONTROL_LINES = ["Rabi Rates", "Azimuthal Angles", "Detunings", "Durations"]
SEQUENCE_LINES = ["Offsets", "Rabi Rotations", "Azimuthal Angles", "Detuning Rotations"]


def number(text):
    text = text.strip()
    return math.pi if text == "pi" else float(text)


def body(text, name):
    """The lines below the name."""
    if name is not None:
        expect(text.startswith(name + ":\n"), "the text does not start with the name: {!r}", text[:300])
        text = text[len(name) + 2 :]
    return text.split("\n")


def listed(line, label):
    head = label + " = ["
    expect(line.startswith(head), "line {!r} instead of {}", line[:200], label)
    inner, _, scale = line[len(head) :].partition("] x ")
    expect(scale != "", "line {!r} without scale", line[:200])
    values = [number(item) for item in inner.split(",")] if inner.strip() else []
    factor = number(scale)
    return [value * factor for value in values], scale


def agree(label, shown, actual):
    expect(
        len(shown) == len(actual),
        "{} values for {} instead of {}",
        len(shown),
        label,
        len(actual),
    )
    for position, (value, wanted) in enumerate(zip(shown, actual)):
        expect(
            abs(value - wanted) <= 1e-13 * abs(wanted),
            "{} {} is shown as {!r} instead of {!r}",
            label,
            position,
            value,
            wanted,
        )


def printed(values):
    """What remains of an array after printing it."""
    return eval(repr(np.asarray(values, dtype=float)), {"array": np.array, "float64": float}).tolist()


def matches(column, wanted):
    """Equal up to what numpy leaves out when it prints an array."""
    rest = printed(wanted)
    return len(column) == len(wanted) and all(
        abs(value - exact) <= abs(left - exact) * (1 + 1e-9) + 1e-15 * abs(exact)
        for value, exact, left in zip(column, wanted, rest)
    )


def check_control_text(control, segments, name):
    before = repr(control_data(control))
    text = must(str, control)
    expect(isinstance(text, str), "not a text")
    lines = body(text, name)
    expect(len(lines) == 4, "{} lines: {!r}", len(lines), text[:500])
    durations, rabi, azimuth, detuning = zip(*segments)
    scales = []
    for line, label, actual in zip(
        lines, CONTROL_LINES, (rabi, azimuth, detuning, durations)
    ):
        shown, scale = listed(line, label)
        agree(label, shown, actual)
        scales.append(scale)
    again = must(format, control)
    expect(again == text, "another text the second time")
    if len(segments) > 1000:
        return (len(text), tuple(scales), hash(text))
    code = must(repr, control)
    copy = eval(code, dict(NAMESPACE))
    expect(type(copy) is type(control), "repr evaluates to {}", type(copy))
    expect(copy.name == name, "name of the copy is {!r}", copy.name)
    for label, column, wanted in zip(
        ("durations", "rabi_rates", "azimuthal_angles", "detunings"),
        control_data(copy),
        (durations, rabi, azimuth, detuning),
    ):
        expect(
            matches(column, wanted),
            "{} of the copy are {} instead of {}",
            label,
            column,
            wanted,
        )
    expect(repr(control_data(control)) == before, "printing changed the control")
    return (len(text), tuple(scales), hash(text), hash(code))


def run(case):
    segments = segments_for(case["word"], case.get("time", 1.0))
    name = case.get("name")
    columns = case.get("columns", "raz")
    control = make_control(segments, name, columns)
    segments = [
        (
            d,
            r if "r" in columns else 0.0,
            a if "a" in columns else 0.0,
            z if "z" in columns else 0.0,
        )
        for d, r, a, z in segments
    ]
    return check_control_text(control, segments, name)


def run_long(case):
    segments = segments_for(word_of(case))
    return check_control_text(make_control(segments), segments, None)


def check_sequence_text(sequence, duration, pulses, name):
    before = repr(sequence_data(sequence))
    text = must(str, sequence)
    lines = body(text, name)
    expect(len(lines) == 5, "{} lines: {!r}", len(lines), text[:500])
    head = "Duration = "
    expect(lines[0].startswith(head), "line {!r}", lines[0][:200])
    expect(
        number(lines[0][len(head) :]) == duration, "line {!r}", lines[0][:200]
    )
    columns = list(zip(*pulses)) if pulses else [(), (), (), ()]
    for line, label, actual in zip(lines[1:], SEQUENCE_LINES, columns):
        shown, _ = listed(line, label)
        agree(label, shown, actual)
    if len(pulses) > 1000:
        return (len(text), hash(text))
    code = must(repr, sequence)
    copy = eval(code, dict(NAMESPACE, float64=float))
    expect(type(copy) is type(sequence), "repr evaluates to {}", type(copy))
    expect(copy.name == name, "name of the copy is {!r}", copy.name)
    data = sequence_data(copy)
    expect(data[0] == duration, "duration of the copy is {!r}", data[0])
    for label, column, wanted in zip(SEQUENCE_LINES, data[1:], columns):
        expect(
            matches(column, wanted),
            "{} of the copy are {} instead of {}",
            label,
            column,
            wanted,
        )
    expect(repr(sequence_data(sequence)) == before, "printing changed the sequence")
    return (len(text), hash(text), hash(code))


def run_sequence(case):
    pulses = pulses_for(case["word"], case["duration"], case["spread"])
    name = case.get("name")
    sequence = make_sequence(case["duration"], pulses, name, case["style"])
    if 0 < len(case["word"]) <= 1000 and case["spread"] in ("edges", "even"):
        # the last pulse at the very end cannot be recreated from rounded times
        last = printed([pulse[0] for pulse in pulses])
        if max(last) > case["duration"]:
            return "rounded beyond the end"
    return check_sequence_text(sequence, case["duration"], pulses, name)


def run_long_sequence(case):
    return run_sequence(dict(case, word=word_of(case)))


def families(tier, scratch):
    deep = tier == "thorough"
    return [
        Family("controls of up to three segments", [("word", words(KINDS, [1, 2, 3] if deep else [1, 2]))], run),
        Family(
            "controls of more segments",
            [("word", words(CORE, [3, 4] if deep else [3]))],
            run,
        ),
        Family(
            "omitted columns and names",
            [
                ("word", words(CORE, [1, 2])),
                ("columns", ["raz", "", "r", "a", "z", "ra", "rz", "az"]),
                ("name", NAMES),
            ],
            run,
        ),
        Family(
            "time scales of controls",
            [
                ("word", words(CORE, [1, 2])),
                ("time", [10.0 ** power for power in range(-12, 10)]),
            ],
            run,
        ),
        Family(
            "one different segment",
            outliers([12, 140] if deep else [70], [["X"], ["idle"], ["third"]], DIFFERENT),
            run_long,
        ),
        Family(
            "very long controls",
            [("length", VERY_LONG[:8]), ("pattern", PATTERNS[-1:])],
            run_long,
        ),
        Family(
            "long controls",
            [
                ("length", list(range(5, 60)) + [64, 100, 999, 1000, 1001, 1500]),
                ("pattern", PATTERNS),
            ],
            run_long,
        ),
        Family(
            "sequences",
            [
                ("word", words(PULSE_KINDS, [0, 1, 2, 3] if deep else [0, 1, 2])),
                ("duration", [1.0, 2.5]),
                ("spread", ["even", "edges"]),
                ("style", ["array"]),
            ],
            run_sequence,
        ),
        Family(
            "sequence options",
            [
                ("word", words(PULSE_KINDS[:8], [0, 1, 2])),
                ("duration", [1.0, 7, 3.7e-6, 1e-12, 1e9]),
                ("spread", ["even", "edges", "start", "reversed"]),
                ("style", ["array", "list"]),
                ("name", [None, "", "a name", "two\nlines", "[1, 2] x 3"]),
            ],
            run_sequence,
        ),
        Family(
            "one different pulse",
            outliers(
                [12, 140] if deep else [70],
                [["X"], ["none"]],
                ["Y", "-Z/2", "none", "both", "huge", "tiny"],
            )
            + [("duration", [1.0]), ("spread", ["even"]), ("style", ["array"])],
            run_long_sequence,
        ),
        Family(
            "very long sequences",
            [
                ("length", VERY_LONG),
                ("pattern", [PULSE_KINDS]),
                ("duration", [1.0]),
                ("spread", ["even"]),
                ("style", ["array"]),
            ],
            run_long_sequence,
        ),
        Family(
            "long sequences",
            [
                ("length", list(range(4, 60)) + [100, 999, 1000, 1001, 1500]),
                ("pattern", [["X"], ["X", "Y"], ["none"], PULSE_KINDS]),
                ("duration", [1.0, 3.7e-6]),
                ("spread", ["even"]),
                ("style", ["array"]),
            ],
            run_long_sequence,
        ),
    ]
