"""Types of numbers and arrays."""

import itertools
import os

from .. import files
from ..common import (
    attempt,
    control_data,
    expect,
    must,
    near,
    np,
    package,
    rounded,
    sequence_data,
)
from ..controls import NAMES as CONTROLS, constructor as control_constructor
from ..engine import Family
from ..sequences import PARAMETERS, constructor as sequence_constructor
from . import c15, c18, c19

ASSUMPTIONS = [
    "types are Python's int and float, NumPy's signed and unsigned integers of 32 and "
    "64 bits and 64 bit floats; arrays also 32 bit floats and small integers, always "
    "with exactly representable values",
    "results are compared to 1e-12 with those for Python floats and fresh arrays",
]

# all of them can hold the values used here
SCALARS = {
    "float": float,
    "int": int,
    "float64": np.float64,
    "int64": np.int64,
    "int32": np.int32,
    "uint64": np.uint64,
    "uint32": np.uint32,
}
FLAGS = {"bool": bool, "bool_": np.bool_, "int": int, "int64": np.int64}


def read_only(values):
    array = np.array(values, dtype=float)
    array.setflags(write=False)
    return array


ARRAYS = {
    "array": lambda values: np.array(values, dtype=float),
    "list": lambda values: [float(value) for value in values],
    "tuple": lambda values: tuple(float(value) for value in values),
    "list of int": lambda values: [int(value) for value in values],
    "tuple of int": lambda values: tuple(int(value) for value in values),
    "list of float64": lambda values: [np.float64(value) for value in values],
    "list of int32": lambda values: [np.int32(value) for value in values],
    "mixed list": lambda values: [
        int(value) if position % 2 else float(value)
        for position, value in enumerate(values)
    ],
    "int64 array": lambda values: np.array(values, dtype=np.int64),
    "int32 array": lambda values: np.array(values, dtype=np.int32),
    "int8 array": lambda values: np.array(values, dtype=np.int8),
    "float32 array": lambda values: np.array(values, dtype=np.float32),
    "read-only array": read_only,
    "strided array": lambda values: np.repeat(np.array(values, dtype=float), 3)[1::3],
    "reversed array": lambda values: np.array(values[::-1], dtype=float)[::-1],
    "column": lambda values: np.array(
        [[value, 0.5, -7.0] for value in values], dtype=float
    ).reshape(-1, 3)[:, 0],
    "swapped bytes": lambda values: np.array(values, dtype=">f8"),
    "unsigned array": lambda values: np.array(values, dtype=np.uint32)
    if min(values, default=0) >= 0
    else np.array(values, dtype=float),
}


def describe(result):
    """Public data of a control or sequence."""
    if isinstance(result, package.DrivenControl):
        return control_data(result)
    data = sequence_data(result)
    return ([data[0]],) + data[1:]


def agree(got, wanted, what):
    expect(
        len(got) == len(wanted)
        and all(len(one) == len(other) for one, other in zip(got, wanted)),
        "{}: {} instead of {}",
        what,
        got,
        wanted,
    )
    for one, other in zip(got, wanted):
        scale = max([abs(value) for value in other], default=0.0)
        expect(
            all(near(a, b, scale, 1e-12) for a, b in zip(one, other)),
            "{}: {} instead of {}",
            what,
            one,
            other,
        )


def compare(function, plain, typed):
    """The same call with plain and with typed arguments."""
    wanted, refusal = attempt(function, **plain)
    got, error = attempt(function, **typed)
    kinds = {
        name: type(value).__name__
        for name, value in typed.items()
        if type(value) is not type(plain[name])
    }
    expect(
        (refusal is None) == (error is None),
        "{} with {}: {} instead of {}",
        plain,
        kinds,
        "accepted" if error is None else str(error)[:300],
        "accepted" if refusal is None else str(refusal)[:300],
    )
    if refusal is not None:
        return ("rejected", sorted(kinds.items()))
    agree(describe(got), describe(wanted), "{} with {}".format(plain, kinds))
    expect(got.name == wanted.name, "name {!r}", got.name)
    return rounded((sorted(kinds.items()), describe(got)))


# predefined sequences

VALUES = {
    "duration": [10, 3, 1, 200],
    "offset_count": [1, 2, 7, 130],
    "paley_order": [1, 6, 255, 300],
    "inner_offset_count": [1, 3, 9],
    "outer_offset_count": [2, 1, 9],
    "concatenation_order": [1, 2, 3, 4],
}


def sequence_names(family):
    return ("duration",) + PARAMETERS[family]


def sequence_values(case):
    names = sequence_names(case["family"])
    return [list(item) for item in itertools.product(*[VALUES[name] for name in names])]


def scalar_types(count_of):
    def domain(case):
        return [
            list(item)
            for item in itertools.product(list(SCALARS), repeat=count_of(case))
        ]

    return domain


def run_sequence(case):
    names = sequence_names(case["family"])
    plain = dict(zip(names, case["values"]))
    plain["duration"] = float(plain["duration"])
    typed = {
        name: SCALARS[kind](value)
        for name, value, kind in zip(names, case["values"], case["types"])
    }
    plain["pre_post_rotation"] = case["rotations"]
    typed["pre_post_rotation"] = FLAGS[case["flag"]](case["rotations"])
    return compare(sequence_constructor(case["family"]), plain, typed)


# predefined controls

CONTROL_NAMES = ("rabi_rotation", "maximum_rabi_rate", "azimuthal_angle")


def control_values(case):
    return [
        [rotation, rate, azimuth]
        for rotation in (3, 1, 6, 13)
        for rate in (1, 7, 1000000)
        for azimuth in (0, 4)
    ]


def run_control(case):
    plain = {
        name: float(value) for name, value in zip(CONTROL_NAMES, case["values"])
    }
    typed = {
        name: SCALARS[kind](value)
        for name, value, kind in zip(CONTROL_NAMES, case["values"], case["types"])
    }
    return compare(control_constructor(case["control"]), plain, typed)


def run_listed(case):
    """Controls for listed rotations only: the other arguments vary."""
    values = [case["rate"], case["azimuth"]]
    plain = {"rabi_rotation": case["rotation"]}
    typed = {"rabi_rotation": np.float64(case["rotation"])}
    for name, value, kind in zip(CONTROL_NAMES[1:], values, case["types"]):
        plain[name] = float(value)
        typed[name] = SCALARS[kind](value)
    return compare(control_constructor(case["control"]), plain, typed)


GAUSSIAN_NAMES = (
    "maximum_rabi_rate",
    "minimum_segment_duration",
    "duration",
    "modulation_frequency",
)


def run_gaussian(case):
    plain = {
        name: float(value) for name, value in zip(GAUSSIAN_NAMES, case["values"])
    }
    typed = {
        name: SCALARS[kind](value)
        for name, value, kind in zip(GAUSSIAN_NAMES, case["values"], case["types"])
    }
    return compare(package.new_modulated_gaussian_control, plain, typed)


# objects made from columns

SEGMENTS = {
    "one": [(2, 3, 1, -4)],
    "two": [(1, 0, 0, 0), (3, 2, -1, 5)],
    "four": [(5, 7, 3, 0), (1, 0, 2, -9), (2, 100, -3, 100), (1, 1, 0, 1)],
    "equal": [(1, 1, 1, 1)] * 3,
}
COLUMNS = ("durations", "rabi_rates", "azimuthal_angles", "detunings")
PULSES = {
    "none": [],
    "one": [(5, 2, 1, 0)],
    "two": [(0, 1, 0, 0), (10, 3, -2, 0)],
    "three": [(2, 3, 1, 0), (4, 0, 0, -2), (9, 1, -3, 0)],
    "unordered": [(8, 1, 0, 0), (3, 0, 0, 1)],
}
SEQUENCE_COLUMNS = (
    "offsets",
    "rabi_rotations",
    "azimuthal_angles",
    "detuning_rotations",
)


class Objects:
    def __init__(self, scratch):
        self.scratch = scratch

    def read_file(self, thing, file_type, coordinates, **limits):
        path = os.path.join(self.scratch, "c27-{}".format(os.getpid()))
        must(
            thing.export_to_file,
            filename=path,
            file_type=file_type,
            coordinates=coordinates,
            **limits
        )
        with open(path, "rb") as handle:
            content = handle.read()
        os.unlink(path)
        return files.parse(content, file_type, coordinates)[0]

    def control(self, case):
        segments = SEGMENTS[case["segments"]]
        columns = list(zip(*segments))
        arguments = {
            name: ARRAYS[kind](list(column))
            for name, column, kind in zip(COLUMNS, columns, case["types"])
        }
        control = must(package.DrivenControl, **arguments)
        plain = [tuple(float(value) for value in segment) for segment in segments]
        c15.check(control, plain)
        c19.check_control_text(control, plain, None)
        for coordinates in ("cylindrical", "cartesian"):
            c18.check_control(
                control, plain, {"coordinates": coordinates, "normalised": True}
            )
            for file_type in ("CSV", "JSON"):
                content = self.read_file(control, file_type, coordinates)
                files.compare(content, coordinates, plain)
        # the data can be edited like any floating point numbers
        if not any(kind == "read-only array" for kind in case["types"]):
            for name, value in zip(COLUMNS, (0.375, 0.625, 0.125, -0.875)):
                getattr(control, name)[-1] = value
            edited = plain[:-1] + [(0.375, 0.625, 0.125, -0.875)]
            expect(
                control_data(control) == tuple(list(part) for part in zip(*edited)),
                "{} after editing the last segment of {}",
                control_data(control),
                plain,
            )
        return rounded((case["types"], case["segments"]))

    def sequence(self, case):
        pulses = PULSES[case["pulses"]]
        columns = list(zip(*pulses)) if pulses else [(), (), (), ()]
        arguments = {
            name: ARRAYS[kind](list(column))
            for name, column, kind in zip(SEQUENCE_COLUMNS, columns, case["types"])
        }
        duration = SCALARS[case["duration"]](10)
        sequence = must(
            package.DynamicDecouplingSequence, duration=duration, **arguments
        )
        plain = package.DynamicDecouplingSequence(
            10.0, *[np.array(column, dtype=float) for column in columns]
        )
        agree(describe(sequence), describe(plain), "data")
        c19.check_sequence_text(
            sequence,
            10.0,
            [tuple(float(value) for value in pulse) for pulse in pulses],
            None,
        )
        self.same_plot(sequence, plain)
        convert = package.convert_dds_to_driven_control
        wanted, refusal = attempt(convert, plain, 20.0, 30.0)
        got, error = attempt(
            convert, sequence, SCALARS[case["limit"]](20), SCALARS[case["limit"]](30)
        )
        expect(
            (error is None) == (refusal is None),
            "conversion {} instead of {}",
            error,
            refusal,
        )
        if refusal is None:
            agree(control_data(got), control_data(wanted), "conversion")
            limits = {
                "maximum_rabi_rate": SCALARS[case["limit"]](20),
                "maximum_detuning_rate": SCALARS[case["limit"]](30),
            }
            for file_type in ("CSV", "JSON"):
                content = self.read_file(sequence, file_type, "cylindrical", **limits)
                files.compare(content, "cylindrical", list(zip(*control_data(wanted))))
        if pulses and not any(kind == "read-only array" for kind in case["types"]):
            for name, value in zip(SEQUENCE_COLUMNS, (9.375, 0.625, 0.125, -0.875)):
                getattr(sequence, name)[-1] = value
            data = sequence_data(sequence)[1:]
            expect(
                [column[-1] for column in data] == [9.375, 0.625, 0.125, -0.875],
                "last pulse {} after editing",
                [column[-1] for column in data],
            )
        return rounded((case["types"], case["pulses"], case["duration"], case["limit"]))

    def same_plot(self, first, second):
        one, other = must(first.export), must(second.export)
        expect(set(one) == set(other), "plot keys {}", sorted(one))
        for key in one:
            expect(len(one[key]) == len(other[key]), "plot {}", key)
            for a, b in zip(one[key], other[key]):
                expect(
                    abs(complex(a["rotation"]) - complex(b["rotation"])) < 1e-12
                    and float(a["offset"]) == float(b["offset"]),
                    "plot entry {} instead of {}",
                    a,
                    b,
                )


def run_convert(case):
    sequence = package.DynamicDecouplingSequence(
        20.0, [4.0, 8.0, 16.0], [1.0, 0.0, 2.0], [0.0, 0.0, 1.0], [0.0, -2.0, 0.0]
    )
    names = ("maximum_rabi_rate", "maximum_detuning_rate", "minimum_segment_duration")
    plain = {"dynamic_decoupling_sequence": sequence}
    typed = {"dynamic_decoupling_sequence": sequence}
    for name, value, kind in zip(names, case["values"], case["types"]):
        plain[name] = float(value)
        typed[name] = SCALARS[kind](value)
    return compare(package.convert_dds_to_driven_control, plain, typed)


def families(tier, scratch):
    deep = tier == "thorough"
    objects = Objects(scratch)
    arrays = list(ARRAYS)
    free = [name for name in CONTROLS if name not in ("scrofulous", "corpse_in_scrofulous", "wamf1")]
    listed = [name for name in CONTROLS if name not in free]
    pi = 3.141592653589793

    def each_and_pairs(count):
        """All types in one column, or the same in all, or every pair of columns."""
        kinds = set()
        for item in itertools.product(arrays, repeat=2):
            for first, second in itertools.combinations(range(count), 2):
                types = ["array"] * count
                types[first], types[second] = item
                kinds.add(tuple(types))
        kinds |= {(kind,) * count for kind in arrays}
        if deep:
            for item in itertools.product(arrays, repeat=3):
                for places in itertools.combinations(range(count), 3):
                    types = ["array"] * count
                    for place, kind in zip(places, item):
                        types[place] = kind
                    kinds.add(tuple(types))
        return [list(item) for item in sorted(kinds)]

    columns = each_and_pairs(4)
    return [
        Family(
            "predefined sequences",
            [
                ("family", sorted(PARAMETERS)),
                ("values", sequence_values),
                ("types", scalar_types(lambda case: len(sequence_names(case["family"])))),
                ("rotations", [False, True]),
                ("flag", list(FLAGS) if deep else ["bool", "int64"]),
            ],
            run_sequence,
        ),
        Family(
            "predefined controls",
            [
                ("control", free),
                ("values", control_values),
                ("types", scalar_types(lambda case: 3)),
            ],
            run_control,
        ),
        Family(
            "controls of listed rotations",
            [
                ("control", listed),
                ("rotation", [pi, pi / 2, pi / 4]),
                ("rate", [1, 7, 20]),
                ("azimuth", [0, 1, 4]),
                ("types", scalar_types(lambda case: 2)),
            ],
            run_listed,
        ),
        Family(
            "modulated Gaussian controls",
            [
                (
                    "values",
                    [
                        [100, 1, 10, 0],
                        [100, 1, 10, 1],
                        [30, 2, 30, 3],
                        [1000000, 1, 7, 0],
                        [1, 1, 10, 0],
                        [100, 11, 10, 0],
                    ],
                ),
                ("types", scalar_types(lambda case: 4)),
            ],
            run_gaussian,
        ),
        Family(
            "limits of the conversion",
            [
                (
                    "values",
                    [
                        list(item)
                        for item in itertools.product((20, 3, 1), (30, 4, 1), (0, 1, 5))
                    ],
                ),
                ("types", scalar_types(lambda case: 3)),
            ],
            run_convert,
        ),
        Family(
            "columns of controls",
            [("segments", list(SEGMENTS)), ("types", columns)],
            objects.control,
        ),
        Family(
            "columns of sequences",
            [
                ("pulses", list(PULSES)),
                ("types", columns),
                ("duration", list(SCALARS) if deep else ["float", "int"]),
                ("limit", list(SCALARS) if deep else ["float", "uint32"]),
            ],
            objects.sequence,
        ),
    ]
