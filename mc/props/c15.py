"""Derived quantities of driven controls."""

import math

from ..common import control_data, expect, floats, near, np, rounded
from ..engine import Family
from ..objects import (
    CORE,
    DIFFERENT,
    KINDS,
    LONGEST,
    PATTERNS,
    VERY_LONG,
    make_control,
    outliers,
    segments_for,
    word_of,
    words,
)
from ..ref import su2

ASSUMPTIONS = [
    "rates within one control differ by less than a factor of 1e19",
    "values are compared to 1e-12 relative to the segment or control they belong to",
]

TIGHT = 1e-12


def scalar(value):
    expect(np.ndim(value) == 0, "not a number: {!r}", value)
    return float(value)


def check(control, segments):
    count = len(segments)
    data = control_data(control)
    for label, column, wanted in zip(
        ("durations", "rabi_rates", "azimuthal_angles", "detunings"),
        data,
        zip(*segments),
    ):
        expect(
            column == list(wanted), "{} are {} instead of {}", label, column, wanted
        )
    durations = [segment[0] for segment in segments]
    total = math.fsum(durations)
    expect(
        control.number_of_segments == count,
        "{} segments instead of {}",
        control.number_of_segments,
        count,
    )
    for label, got, wanted in (
        ("maximum_rabi_rate", control.maximum_rabi_rate, max(s[1] for s in segments)),
        ("maximum_detuning", control.maximum_detuning, max(s[3] for s in segments)),
        ("maximum_duration", control.maximum_duration, max(durations)),
        ("minimum_duration", control.minimum_duration, min(durations)),
    ):
        expect(scalar(got) == wanted, "{} is {} instead of {}", label, got, wanted)
    expect(
        near(scalar(control.duration), total, total, TIGHT),
        "duration is {} instead of {}",
        control.duration,
        total,
    )
    times = floats(control.times)
    expect(len(times) == count + 1, "{} times", len(times))
    expect(times[0] == 0, "times start at {}", times[0])
    for position in range(count + 1):
        expect(
            near(times[position], math.fsum(durations[:position]), total, TIGHT)
            if count < 200
            else True,
            "time {} is {!r}",
            position,
            times[position],
        )
        if position:
            step = times[position] - times[position - 1]
            expect(
                near(step, durations[position - 1], total, TIGHT),
                "times {} apart for a segment of {}",
                step,
                durations[position - 1],
            )
    x, y = floats(control.amplitude_x), floats(control.amplitude_y)
    angles = floats(control.angles)
    directions = np.asarray(control.directions)
    expect(directions.shape == (count, 3), "directions have shape {}", directions.shape)
    expect(
        len(x) == len(y) == len(angles) == count,
        "{} x, {} y amplitudes and {} angles",
        len(x),
        len(y),
        len(angles),
    )
    evolved = su2.IDENTITY
    turned = 0.0
    for position, (duration, rabi, azimuth, detuning) in enumerate(segments):
        expect(
            near(x[position], rabi * math.cos(azimuth), rabi, TIGHT)
            and near(y[position], rabi * math.sin(azimuth), rabi, TIGHT),
            "amplitudes ({}, {}) of segment {}",
            x[position],
            y[position],
            position,
        )
        size = math.hypot(rabi, detuning)
        expect(
            near(angles[position], size * duration, size * duration, TIGHT),
            "angle {} of segment {} instead of {}",
            angles[position],
            position,
            size * duration,
        )
        direction = [float(value) for value in directions[position].tolist()]
        if size == 0:
            wanted = (0.0, 0.0, 0.0)
        else:
            wanted = (
                rabi * math.cos(azimuth) / size,
                rabi * math.sin(azimuth) / size,
                detuning / size,
            )
        expect(
            all(near(a, b, 1.0, TIGHT) for a, b in zip(direction, wanted)),
            "direction {} of segment {} instead of {}",
            direction,
            position,
            wanted,
        )
        evolved = su2.multiply(su2.rotation(angles[position], direction), evolved)
        turned += size * duration
    away = su2.distance(evolved, su2.evolve(segments))
    expect(away < 1e-10 * (1 + turned), "angles and directions are {} off", away)
    return rounded((total, tuple(angles), tuple(x), tuple(y)), 9)


def run(case):
    segments = segments_for(case["word"], case.get("time", 1.0))
    return check(make_control(segments), segments)


def run_styles(case):
    segments = segments_for(case["word"])
    columns, style = case["columns"], case["style"]
    control = make_control(segments, None, columns, style)
    convert = float
    if style == "int":
        convert = lambda value: float(int(round(value)))
    if style == "float32":
        convert = lambda value: float(np.float32(value))
    wanted = [
        (
            convert(d),
            convert(r) if "r" in columns else 0.0,
            convert(a) if "a" in columns else 0.0,
            convert(z) if "z" in columns else 0.0,
        )
        for d, r, a, z in segments
    ]
    return check(control, wanted)


def run_positional(case):
    from ..common import must, package

    segments = segments_for(case["word"])
    columns = [np.array(column) for column in zip(*segments)]
    given = case["given"]
    control = must(package.DrivenControl, *(columns[: given + 1]))
    return check(
        control, [segment[: given + 1] + (0.0,) * (3 - given) for segment in segments]
    )


def run_long(case):
    segments = segments_for(word_of(case))
    return check(make_control(segments), segments)


def families(tier, scratch):
    deep = tier == "thorough"
    return [
        Family("up to three segments", [("word", words(KINDS, [1, 2, 3]))], run),
        Family("more segments", [("word", words(CORE, [4, 5] if deep else [4]))], run),
        Family(
            "time scales",
            [
                ("word", words(CORE, [1, 2, 3] if deep else [1, 2])),
                ("time", [10.0 ** power for power in range(-12, 10)]),
            ],
            run,
        ),
        Family(
            "omitted columns and input types",
            [
                ("word", words(CORE, [1, 2])),
                ("columns", ["", "r", "a", "z", "ra", "rz", "az", "raz"]),
                ("style", ["array", "list", "tuple", "strided", "float32"]),
            ],
            run_styles,
        ),
        Family(
            "integers",
            [
                ("word", words(["idle", "-X", "Z", "tilted", "long", "tilted down"], [1, 2, 3])),
                ("columns", ["", "r", "a", "z", "raz"]),
                ("style", ["int"]),
            ],
            run_styles,
        ),
        Family(
            "positional arguments",
            [("word", words(CORE, [1, 2])), ("given", [0, 1, 2, 3])],
            run_positional,
        ),
        Family(
            "one different segment",
            outliers([12, 70, 140, 300] if deep else [12, 140], [["X"], ["idle"], ["third"]], DIFFERENT),
            run_long,
        ),
        Family(
            "very long controls",
            [("length", VERY_LONG + (LONGEST if deep else [])), ("pattern", PATTERNS[-1:])],
            run_long,
        ),
        Family(
            "long controls",
            [
                ("length", list(range(5, 40)) + [64, 100, 999, 1000, 1001, 2500]),
                ("pattern", PATTERNS),
            ],
            run_long,
        ),
    ]
