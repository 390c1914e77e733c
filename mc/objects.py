"""Domains of driven controls and decoupling sequences built segment by segment."""

import itertools
import math

from .common import must, np, package

PI = math.pi

# (duration, rabi, azimuth, detuning)
SEGMENTS = {
    "idle": (1.0, 0.0, 0.0, 0.0),
    "X": (0.5, PI, 0.0, 0.0),
    "Y": (0.25, 2 * PI, PI / 2, 0.0),
    "-X": (1.0, PI / 2, PI, 0.0),
    "Z": (1.0, 0.0, 0.0, PI),
    "-Z": (0.7, 0.0, 0.0, -2.5),
    "tilted": (1.3, 1.1, 0.7, 0.9),
    "tilted down": (0.9, 2.2, -2.1, -3.3),
    "wound": (1.0 / 3.0, 1.7, 17.3, 0.0),
    "wound back": (0.1, 0.3, -11.0, 0.2),
    "idle tilted": (2.0, 0.0, 1.2, 0.0),
    "Z tilted": (2.0, 0.0, -0.4, 1.5),
    "short": (1e-6, 1.0, 0.3, -1.0),
    "long": (1e5, 1e-5, 0.3, 2e-5),
    "weak": (1.0, 1e-6, 2.0, 0.0),
    "weak Z": (1.0, 0.0, 0.0, -1e-6),
    "strong": (1e-7, 3e6, 4.0, 0.0),
    "strong Z": (1e-7, 0.0, 0.0, 2e6),
    "weak on strong Z": (1e-3, 1e-4, 1.0, 1e3),
    "weak Z on strong": (1e-3, 1e3, 1.0, -1e-4),
    "same X": (0.5, PI, 0.0, 0.0),
    "third": (2.0 / 3.0, 1.0 / 3.0, 1.0 / 7.0, -1.0 / 9.0),
    "faint": (1.0, 3e-11, 0.8, 0.0),
    "faint tilted": (1.5, 2e-12, -0.3, -3e-12),
}
KINDS = list(SEGMENTS)
CORE = ["idle", "X", "-Z", "tilted down", "strong", "weak on strong Z", "third", "wound"]

NAMES = [
    None,
    "",
    "control",
    "two words",
    "quote ' and \" here",
    "comma, semicolon; [1, 2] x 3",
    "back\\slash {} {0} %s",
    "Ω π",
    "two\nlines",
    "Duration = 3",
    " padded\t",
    " ",
    "None",
    "0",
]


def words(kinds, sizes):
    return [
        list(word)
        for size in sizes
        for word in itertools.product(kinds, repeat=size)
    ]


def segments_for(word, time=1.0):
    """Segments of a word with another unit of time."""
    return [
        (d * time, r / time, a, z / time)
        for d, r, a, z in (SEGMENTS[kind] for kind in word)
    ]


def long_word(length, pattern):
    return [pattern[i % len(pattern)] for i in range(length)]


def word_of(case):
    """A long word, possibly with one different entry."""
    word = long_word(case["length"], case["pattern"])
    if "outlier" in case:
        word[case["position"]] = case["outlier"]
    return word


def outliers(lengths, patterns, kinds):
    """Choices of a long word with one different entry at any position."""
    return [
        ("length", lengths),
        ("pattern", patterns),
        ("outlier", kinds),
        ("position", lambda case: range(case["length"])),
    ]


DIFFERENT = ["short", "long", "strong", "-Z", "tilted down", "idle", "faint tilted"]
PATTERNS = [
    ["X"],
    ["idle"],
    ["-Z"],
    ["X", "-Z", "idle"],
    ["tilted down", "strong", "wound", "third", "weak on strong Z"],
]
# round numbers and their neighbours, where buffers and chunks may end
VERY_LONG = [1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 10000, 10001]
LONGEST = [16385, 32769, 65537, 100001]


def make_control(segments, name=None, columns="dra z", style="array"):
    """Builds a control; `columns` tells which optional columns are given."""
    durations, rabi, azimuth, detuning = (list(part) for part in zip(*segments))
    convert = {
        "array": lambda values: np.array(values, dtype=float),
        "list": list,
        "tuple": tuple,
        "strided": lambda values: np.repeat(np.array(values, dtype=float), 2)[::2],
        "int": lambda values: np.array([int(round(v)) for v in values]),
        "float32": lambda values: np.array(values, dtype=np.float32),
    }[style]
    keywords = {"durations": convert(durations)}
    if "r" in columns:
        keywords["rabi_rates"] = convert(rabi)
    if "a" in columns:
        keywords["azimuthal_angles"] = convert(azimuth)
    if "z" in columns:
        keywords["detunings"] = convert(detuning)
    if name is not None:
        keywords["name"] = name
    return must(package.DrivenControl, **keywords)


# (rabi, azimuth, detuning)
PULSES = {
    "X": (PI, 0.0, 0.0),
    "Y": (PI, PI / 2, 0.0),
    "Z": (0.0, 0.0, PI),
    "-Z/2": (0.0, 0.0, -PI / 2),
    "none": (0.0, 0.0, 0.0),
    "odd": (1.0, -2.2, 0.0),
    "wound": (2.2, 17.3, 0.0),
    "both": (1.1, 0.7, -0.9),
    "negative": (-PI, 0.3, 0.0),
    "tiny": (1e-9, 1e-9, -1e-9),
    "huge": (1e6, -300.0, 1e5),
    "third": (1.0 / 3.0, 1.0 / 7.0, -1.0 / 9.0),
    "X/2": (PI / 2, 0.0, 0.0),
    "tilted Z": (0.0, 1.3, PI / 2),
}
PULSE_KINDS = list(PULSES)


def pulses_for(word, duration, spread="even"):
    """Pulses of a word over a sequence."""
    count = len(word)
    positions = {
        "even": [(i + 0.5) / count for i in range(count)],
        "edges": [i / (count - 1) if count > 1 else 0.0 for i in range(count)],
        "start": [0.0] * count,
        "reversed": [1 - (i + 0.3) / count for i in range(count)],
        "thirds": [(i / 3.0) % 1.0 for i in range(count)],
    }[spread]
    return [
        (min(duration * position, duration),) + PULSES[kind]
        for position, kind in zip(positions, word)
    ]


def make_sequence(duration, pulses, name=None, style="array"):
    columns = [list(part) for part in zip(*pulses)] if pulses else [[], [], [], []]
    convert = {
        "array": lambda values: np.array(values, dtype=float),
        "list": list,
        "tuple": tuple,
    }[style]
    keywords = {} if name is None else {"name": name}
    return must(
        package.DynamicDecouplingSequence,
        duration=duration,
        offsets=convert(columns[0]),
        rabi_rotations=convert(columns[1]),
        azimuthal_angles=convert(columns[2]),
        detuning_rotations=convert(columns[3]),
        **keywords
    )
