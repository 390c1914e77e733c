"""Independence of the unit of time."""

import itertools
import math
import os

from .. import files
from ..common import (
    attempt,
    control_data,
    expect,
    floats,
    near,
    np,
    package,
    rounded,
    same_angle,
    sequence_data,
)
from ..controls import NAMES as CONTROLS, constructor as control_constructor
from ..controls import rotations
from ..convert import KINDS, make_sequence
from ..engine import Family
from ..objects import CORE, KINDS as SEGMENT_KINDS, make_control, segments_for, words
from ..sequences import PARAMETERS, constructor as sequence_constructor

ASSUMPTIONS = [
    "each request is made with durations of the order of seconds and again in other "
    "units; the two results must agree to 1e-8 after scaling",
    "segments below 1e-11 of the duration are rounding artefacts and are ignored",
]

PI = math.pi
SCALES = [10.0 ** power for power in range(-12, 10) if power != 0] + [
    3.7e-9,
    2.2e-5,
    0.013,
    60.0,
    8.64e4,
    1e-15,
    1e-18,
    1e12,
]


def compare_sequences(base, other, scale, details):
    first, second = sequence_data(base), sequence_data(other)
    duration = second[0]
    expect(near(duration, first[0] * scale, duration), "durations {}", duration)
    expect(
        len(first[1]) == len(second[1]),
        "{} pulses instead of {} ({})",
        len(second[1]),
        len(first[1]),
        details,
    )
    for label, position in (("times", 1),):
        for a, b in zip(first[position], second[position]):
            expect(
                near(b, a * scale, duration),
                "{} {} instead of {}",
                label,
                second[position],
                [value * scale for value in first[position]],
            )
    for label, position in (("Rabi", 2), ("azimuthal", 3), ("detuning", 4)):
        for a, b in zip(first[position], second[position]):
            expect(
                near(b, a, 1.0),
                "{} angles {} instead of {}",
                label,
                second[position],
                first[position],
            )


def proper(control):
    segments = list(zip(*control_data(control)))
    total = math.fsum(segment[0] for segment in segments)
    return [segment for segment in segments if segment[0] > 1e-11 * total], total


def compare_controls(base, other, scale, details, tolerance=1e-8):
    first, total = proper(base)
    second, duration = proper(other)
    expect(
        near(duration, total * scale, duration),
        "duration {} instead of {}",
        duration,
        total * scale,
    )
    expect(
        len(first) == len(second),
        "{} segments instead of {} ({})",
        len(second),
        len(first),
        details,
    )
    for position, (a, b) in enumerate(zip(first, second)):
        size = max(abs(a[1]), abs(a[3])) / scale
        good = (
            near(b[0], a[0] * scale, duration, 1e-11)
            and near(b[0], a[0] * scale, b[0], tolerance)
            and near(b[1], a[1] / scale, size, tolerance)
            and near(b[3], a[3] / scale, size, tolerance)
            and same_angle(a[2], b[2], 1e-8)
        )
        expect(
            good,
            "segment {} is {} instead of {} ({})",
            position,
            b,
            (a[0] * scale, a[1] / scale, a[2], a[3] / scale),
            details,
        )
    return second


def both(function, base, scaled, details):
    """Calls with both sets of arguments; None if both are rejected."""
    first, error = attempt(function, **base)
    second, scaled_error = attempt(function, **scaled)
    expect(
        (error is None) == (scaled_error is None),
        "{} in the base unit but {} in the other unit ({})",
        "accepted" if error is None else "rejected",
        "accepted" if scaled_error is None else "rejected: " + str(scaled_error)[:300],
        details,
    )
    return first, second


PARAMETER_VALUES = {
    "offset_count": [1, 2, 3, 7, 20, 64],
    "paley_order": [1, 2, 3, 7, 12, 31, 85, 255, 1000, 2000],
    "inner_offset_count": [1, 2, 3, 8],
    "outer_offset_count": [1, 2, 3, 8],
    "concatenation_order": [1, 2, 3, 4],
}


def parameter_sets(case):
    names = PARAMETERS[case["family"]]
    return [
        dict(zip(names, values))
        for values in itertools.product(*[PARAMETER_VALUES[name] for name in names])
    ]


def run_sequence(case):
    keywords = dict(case["parameters"], pre_post_rotation=case["rotations"])
    duration, scale = case["duration"], case["scale"]
    base, other = both(
        sequence_constructor(case["family"]),
        dict(keywords, duration=duration),
        dict(keywords, duration=duration * scale),
        case,
    )
    expect(base is not None, "a valid request was rejected")
    compare_sequences(base, other, scale, case)
    # conversion of the sequence in both units
    pulses = len(base.offsets) + 2
    gap = min(
        [b - a for a, b in zip(floats(base.offsets), floats(base.offsets)[1:])]
        + [duration / pulses]
    )
    if not gap > 0:
        return "coincident"
    rate = PI / (case["width"] * gap)
    first, second = both(
        package.convert_dds_to_driven_control,
        {
            "dynamic_decoupling_sequence": base,
            "maximum_rabi_rate": rate,
            "maximum_detuning_rate": rate,
        },
        {
            "dynamic_decoupling_sequence": other,
            "maximum_rabi_rate": rate / scale,
            "maximum_detuning_rate": rate / scale,
        },
        case,
    )
    if first is None:
        return "rejected"
    segments = compare_controls(first, second, scale, case, 1e-6)
    return rounded((len(segments), tuple(segments[:3])), 6)


def run_control(case):
    scale = case["scale"]
    keywords = {
        "rabi_rotation": case["rotation"],
        "azimuthal_angle": case["azimuth"],
    }
    base, other = both(
        control_constructor(case["control"]),
        dict(keywords, maximum_rabi_rate=case["rate"]),
        dict(keywords, maximum_rabi_rate=case["rate"] / scale),
        case,
    )
    if base is None:
        return "rejected"
    return rounded(tuple(compare_controls(base, other, scale, case)), 7)


def run_gaussian(case):
    scale, duration = case["scale"], case["duration"]
    base, other = both(
        package.new_modulated_gaussian_control,
        {
            "maximum_rabi_rate": case["rate"] / duration,
            "minimum_segment_duration": duration / case["ratio"],
            "duration": duration,
            "modulation_frequency": case["cycles"] / duration,
        },
        {
            "maximum_rabi_rate": case["rate"] / duration / scale,
            "minimum_segment_duration": duration / case["ratio"] * scale,
            "duration": duration * scale,
            "modulation_frequency": case["cycles"] / duration / scale,
        },
        case,
    )
    if base is None:
        return "rejected"
    first, _ = proper(base)
    second, _ = proper(other)
    expect(len(first) == len(second), "{} segments, not {}", len(second), len(first))
    largest = max(segment[1] for segment in first)
    for a, b in zip(first, second):
        good = (
            near(b[0], a[0] * scale, b[0])
            and near(b[1], a[1] / scale, largest / scale, 1e-8)
            and (same_angle(a[2], b[2]) or a[1] < 1e-8 * largest)
            and b[3] == 0
        )
        expect(good, "segment {} instead of {} in the unit {}", b, a, scale)
    return rounded(tuple(second[:5]), 6)


def run_convert(case):
    scale = case["scale"]
    pulses = [
        (slot,) + KINDS[kind] for slot, kind in zip(case["slots"], case["kinds"])
    ]
    scaled = [
        (scale if slot == 1 else slot * scale, r, a, z) for slot, r, a, z in pulses
    ]
    rabi, detuning = PI / case["rabi width"], PI / case["detuning width"]
    keywords = {"name": None}
    base, other = both(
        package.convert_dds_to_driven_control,
        {
            "dynamic_decoupling_sequence": make_sequence(1.0, pulses),
            "maximum_rabi_rate": rabi,
            "maximum_detuning_rate": detuning,
            "minimum_segment_duration": case["minimum"],
        },
        {
            "dynamic_decoupling_sequence": make_sequence(scale, scaled),
            "maximum_rabi_rate": rabi / scale,
            "maximum_detuning_rate": detuning / scale,
            "minimum_segment_duration": case["minimum"] * scale,
        },
        case,
    )
    if base is None:
        return "rejected"
    return rounded(tuple(compare_controls(base, other, scale, case, 1e-7)), 6)


class Derived:
    def __init__(self, scratch):
        self.scratch = scratch

    def exported(self, control, file_type, coordinates):
        path = os.path.join(self.scratch, "c04-{}".format(os.getpid()))
        control.export_to_file(path, file_type=file_type, coordinates=coordinates)
        with open(path, "rb") as handle:
            content = handle.read()
        os.unlink(path)
        return files.parse(content, file_type, coordinates)[0]

    def run(self, case):
        scale = case["scale"]
        base = make_control(segments_for(case["word"]))
        other = make_control(segments_for(case["word"], scale))
        power = {
            "maximum_rabi_rate": -1,
            "maximum_detuning": -1,
            "maximum_duration": 1,
            "minimum_duration": 1,
            "duration": 1,
            "times": 1,
            "amplitude_x": -1,
            "amplitude_y": -1,
            "angles": 0,
            "directions": 0,
            "number_of_segments": 0,
        }
        result = []
        for name, exponent in power.items():
            first = np.asarray(getattr(base, name), dtype=float) * scale ** exponent
            second = np.asarray(getattr(other, name), dtype=float)
            expect(first.shape == second.shape, "{} has shape {}", name, second.shape)
            expect(
                np.allclose(first, second, rtol=1e-10, atol=0)
                or np.allclose(
                    first, second, rtol=1e-10, atol=1e-14 * np.max(np.abs(first))
                ),
                "{} is {} instead of {}",
                name,
                second.tolist(),
                first.tolist(),
            )
            result.append(second.tolist())
        for coordinates in ("cylindrical", "cartesian"):
            for normalised in (True, False):
                first = base.export(coordinates, normalised)
                second = other.export(coordinates, normalised)
                expect(set(first) == set(second), "keys {}", set(second))
                for key, entries in first.items():
                    unit = 1.0 if normalised and key != "Detuning" else scale
                    expect(len(entries) == len(second[key]), "entries of {}", key)
                    for a, b in zip(entries, second[key]):
                        expect(
                            near(b["duration"], a["duration"] * scale)
                            and abs(b["value"] - a["value"] / unit)
                            <= 1e-10 * abs(a["value"] / unit),
                            "{}: {} instead of {}",
                            key,
                            b,
                            a,
                        )
            for file_type in ("CSV", "JSON"):
                first = self.exported(base, file_type, coordinates)
                second = self.exported(other, file_type, coordinates)
                units = {"duration": scale, "detuning": 1 / scale, "maximum_rabi_rate": 1 / scale}
                for key, values in first.items():
                    unit = units.get(key, 1.0)
                    expect(
                        np.allclose(
                            np.asarray(values) * unit, second[key], rtol=1e-10, atol=0
                        ),
                        "exported {} is {} instead of {}",
                        key,
                        second[key],
                        values,
                    )
        lists = []
        for control in (base, other):
            text = str(control)
            lists.append([line.split("] x ")[0] for line in text.split("\n")])
        for a, b in zip(*lists):
            if a == b:
                continue
            expect(
                np.allclose(
                    [float(v) for v in a.split("[")[1].split(",")],
                    [float(v) for v in b.split("[")[1].split(",")],
                    rtol=1e-10,
                    atol=0,
                ),
                "text {!r} instead of {!r}",
                b,
                a,
            )
        return rounded(tuple(repr(item) for item in result[:5]), 7)


SLOTS = [0, 0.25, 0.4, 0.6180339887, 0.9, 1]
PULSES = ["X", "Y", "-Z", "X/2", "odd", "long", "small", "small Z", "none", "negative", "mixed", "mixed negative"]


def families(tier, scratch):
    deep = tier == "thorough"
    scales = SCALES
    derived = Derived(scratch)
    return [
        Family(
            "predefined sequences",
            [
                ("family", sorted(PARAMETERS)),
                ("parameters", parameter_sets),
                ("rotations", [False, True]),
                ("duration", [1.0, 7.3] if deep else [1.0]),
                ("width", [0.1, 0.4, 1.7] if deep else [0.3, 1.7]),
                ("scale", scales),
            ],
            run_sequence,
        ),
        Family(
            "predefined controls",
            [
                ("control", CONTROLS),
                ("rotation", lambda case: rotations(case["control"], 8 if deep else 16) + [0, -1.0, 13]),
                ("azimuth", [0.0, 0.4, -20.0] if deep else [0.4]),
                ("rate", [1.0, 2 * PI] if deep else [2 * PI]),
                ("scale", scales),
            ],
            run_control,
        ),
        Family(
            "modulated Gaussian controls",
            [
                ("ratio", [1.5, 2.2, 9.7, 50.3]),
                ("rate", [26.0, 30.0, 100.0, 24.0, 1.0]),
                ("cycles", [0, 0.3, 2, 7.7, -2]),
                ("duration", [1.0, 7.3]),
                ("scale", scales),
            ],
            run_gaussian,
        ),
        Family(
            "conversion",
            [
                ("size", [0, 1, 2, 3] if deep else [0, 1, 2]),
                (
                    "slots",
                    lambda case: [
                        list(item)
                        for item in itertools.product(SLOTS, repeat=case["size"])
                        if case["size"] < 3 or list(item) == sorted(item)
                    ],
                ),
                (
                    "kinds",
                    lambda case: [
                        list(item)
                        for item in itertools.product(
                            PULSES if case["size"] < 2 else PULSES[:3] + ["small", "mixed negative"], repeat=case["size"]
                        )
                    ],
                ),
                ("rabi width", [0.03, 0.26]),
                ("detuning width", [0.07]),
                ("minimum", [0.0, 0.05, 0.17] if deep else [0.0, 0.17]),
                ("scale", scales[::2]),
            ],
            run_convert,
        ),
        Family(
            "derived quantities",
            [
                ("word", words(SEGMENT_KINDS, [1]) + words(CORE, [2])),
                ("scale", scales),
            ],
            derived.run,
        ),
    ]
