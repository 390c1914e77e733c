"""Acceptance and rejection of arguments."""

import math
import os

from ..common import NAN, attempt, expect, np, package
from ..controls import constructor as control_constructor
from ..engine import Family
from ..ref import controls as ref_controls
from ..sequences import PARAMETERS, constructor as sequence_constructor

ASSUMPTIONS = [
    "infinite values, and azimuthal angles and detunings that are not numbers, are "
    "not covered by the property",
    "lists without any element are not covered by the property",
    "the rotation of a predefined control is reported through the resulting "
    "durations if it is negative",
]

PI = math.pi
TINY = 5e-324

POSITIVE = [1.0, 1, 2.5, 1e-12, 1e9, np.float64(0.3), np.int64(7)]
NOT_POSITIVE = [0, 0.0, -0.0, -1, -1.0, -1e-12, -1e9, NAN, -TINY]
DURATIONS = POSITIVE + NOT_POSITIVE
COUNTS = [3, 1, 2, 4, 1.0, 1.5, np.int64(2), 0, 0.0, 0.99, -1, -0.5, -3, NAN, 0.9999999999]
PALEY = [3, 1, 2, 2000, 2000.0, 1999.5, 1.0, 1.5, 0, 0.99, -1, 2001, 2000.5, 2000.0000001, 5000, 4096, NAN, -2000]
RATES = [2 * PI, 1, 1e-9, 1e9, np.float64(3)] + NOT_POSITIVE

LIMIT = 4 * PI
ROTATIONS = [
    PI,
    PI / 2,
    PI / 4,
    1,
    0.3,
    1e-9,
    2 * PI,
    3.5 * PI,
    LIMIT,
    math.nextafter(LIMIT, 100) if hasattr(math, "nextafter") else LIMIT * (1 + 3e-16),
    LIMIT + 1e-6,
    13,
    5 * PI,
    100.0,
    0,
    0.0,
    -1e-9,
    -PI,
    -PI / 2,
    -PI / 4,
    -LIMIT,
    -13,
    NAN,
    PI / 3,
    3 * PI / 4,
    PI + 1e-3,
    PI - 1e-3,
    PI / 2 + 1e-3,
    PI / 4 - 1e-3,
    np.float64(PI),
]
AZIMUTHS = [0.0, 0.5, -3, 100.0]
NAMES = [None, "a name"]


def positive(value):
    return value > 0


def not_negative(value):
    return value >= 0


def count(value):
    return value >= 1


def paley(value):
    return 1 <= value <= 2000


def shows(message, name, values):
    """The message states the name and (one form of) the value."""
    forms = []
    for value in values:
        forms.append(repr(value))
        if isinstance(value, (list, tuple)) or isinstance(value, np.ndarray):
            forms.append(repr(np.asarray(value)))
            forms.append(repr(np.asarray(value, dtype=float)))
    return any("{}={}".format(name, form) in message for form in forms)


def judge(function, arguments, invalid, names_only=(), positional=()):
    """
    Calls the function. `invalid` lists the names of invalid arguments; the call
    has to be rejected, naming one of them with its value (or one of `names_only`
    with any value), if and only if there are any.
    """
    result, error = attempt(function, *positional, **arguments)
    if not invalid:
        expect(
            error is None,
            "valid arguments {} were rejected: {}",
            arguments,
            str(error)[:500],
        )
        return ("accepted", "" if result is None else repr(result)[:400])
    expect(
        error is not None,
        "invalid {} were accepted: {}",
        sorted(invalid),
        {name: arguments.get(name) for name in invalid},
    )
    message = str(error)
    named = [
        name
        for name in invalid
        if name in arguments and shows(message, name, [arguments[name]])
    ]
    named += [name for name in names_only if name + "=" in message]
    expect(
        named,
        "the message does not show what was invalid ({}): {}",
        {name: arguments.get(name) for name in invalid},
        message[:500],
    )
    return ("rejected", named[0], message[:400])


# predefined sequences


def sequence_dims(family):
    dims = [("duration", DURATIONS)]
    for parameter in PARAMETERS[family]:
        dims.append((parameter, PALEY if parameter == "paley_order" else COUNTS))
    dims.append(("pre_post_rotation", [False, True]))
    dims.append(("name", NAMES))
    return dims


def sequence_runner(family):
    function = sequence_constructor(family)
    tests = {"duration": positive}
    for parameter in PARAMETERS[family]:
        tests[parameter] = paley if parameter == "paley_order" else count

    def run(case):
        invalid = [name for name, test in tests.items() if not test(case[name])]
        return judge(function, dict(case), invalid)

    return run


# predefined controls


def rotation_is_valid(name, value):
    if name in ref_controls.LISTED:
        return any(abs(value - listed) < 1e-9 for listed in (PI, PI / 2, PI / 4))
    if name in ref_controls.LIMITED:
        return 0 < value <= LIMIT
    return value > 0


def run_control(case):
    arguments = dict(case)
    name = arguments.pop("control")
    invalid = []
    if not rotation_is_valid(name, case["rabi_rotation"]):
        invalid.append("rabi_rotation")
    if not case["maximum_rabi_rate"] > 0:
        invalid.append("maximum_rabi_rate")
    names_only = ["durations"] if "rabi_rotation" in invalid else []
    return judge(control_constructor(name), arguments, invalid, names_only)


def run_gaussian(case):
    needed = math.sqrt(2 * PI) / 0.1
    invalid = []
    names_only = []
    for name in ("maximum_rabi_rate", "minimum_segment_duration"):
        if not case[name] > 0:
            invalid.append(name)
    if not case["duration"] > case["minimum_segment_duration"]:
        invalid += ["duration", "minimum_segment_duration"]
    elif not case["duration"] > 0:
        invalid.append("duration")
    elif not case["maximum_rabi_rate"] >= needed / case["duration"]:
        invalid.append("maximum_rabi_rate")
    return judge(
        package.new_modulated_gaussian_control, dict(case), sorted(set(invalid))
    )


# the two classes and the conversion


def lists(length, good, bad):
    """Lists that are good, or bad at one position."""
    result = [[good] * length]
    for value in bad:
        for position in range(length):
            result.append([good] * position + [value] + [good] * (length - position - 1))
    return result


def control_lists(good, bad):
    def domain(case):
        length = case["length"]
        result = lists(length, good, bad) + [None]
        for other in {length - 1, length + 1, length + 2, 2 * length} - {length}:
            if other > 0:
                result.append([good] * other)
        return result

    return domain


def run_class(case):
    convert = {"list": list, "tuple": tuple, "array": np.array}[case["style"]]
    arguments = {"durations": convert(case["durations"])}
    for name in ("rabi_rates", "azimuthal_angles", "detunings"):
        if case[name] is not None:
            arguments[name] = convert(case[name])
        elif case["explicit"]:
            arguments[name] = None
    if case["name"] is not None:
        arguments["name"] = case["name"]
    invalid = []
    if not all(value > 0 for value in case["durations"]):
        invalid.append("durations")
    if case["rabi_rates"] is not None and not all(v >= 0 for v in case["rabi_rates"]):
        invalid.append("rabi_rates")
    lengths = {
        len(case[name])
        for name in ("durations", "rabi_rates", "azimuthal_angles", "detunings")
        if case[name] is not None
    }
    if len(lengths) > 1:
        invalid += [name for name in arguments if name != "name"]
    return judge(package.DrivenControl, arguments, sorted(set(invalid)))


def run_sequence_class(case):
    convert = {"list": list, "tuple": tuple, "array": np.array}[case["style"]]
    names = ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations")
    arguments = {name: convert(case[name]) for name in names}
    arguments["duration"] = case["duration"]
    if case["name"] is not None:
        arguments["name"] = case["name"]
    duration = case["duration"]
    invalid = []
    if not duration > 0:
        invalid.append("duration")
    if not all(0 <= value <= duration for value in case["offsets"]):
        invalid += ["offsets", "duration"]
    for name in names[1:]:
        if len(case[name]) != len(case["offsets"]):
            invalid += [name, "offsets"]
    return judge(package.DynamicDecouplingSequence, arguments, sorted(set(invalid)))


def column(good, other):
    """A column as long as the offsets, longer or shorter."""

    def domain(case):
        length = len(case["offsets"])
        result = [[good] * length, [other] * length]
        for different in (length - 1, length + 1, 0, 2 * length):
            if different >= 0 and different != length:
                result.append([good] * different)
        return result

    return domain


def offsets(case):
    duration = case["duration"]
    inside = [[0.25, 0.5], [], [0.5], [0.0, 1.0], [0.0], [1.0], [0.1, 0.2, 0.3]]
    scale = duration if duration > 0 else 1.0
    result = [[value * scale for value in item] for item in inside]
    just_over = scale * (1 + 3e-16)
    for bad in (-TINY, -1e-9 * scale, -scale, just_over, scale * 1.001, 2 * scale, NAN):
        result += [[bad], [bad, 0.5 * scale], [0.5 * scale, bad]]
    return result


def run_long_control(case):
    """One invalid entry somewhere in a long control."""
    columns = {
        "durations": [0.5] * case["length"],
        "rabi_rates": [2.0] * case["length"],
        "azimuthal_angles": [0.5] * case["length"],
        "detunings": [-0.5] * case["length"],
    }
    columns[case["column"]][case["position"]] = case["value"]
    return run_class(dict(columns, explicit=False, name=None, style=case["style"]))


def run_long_sequence(case):
    length, duration = case["length"], case["duration"]
    times = [(i + 0.5) / length * duration for i in range(length)]
    times[case["position"]] = case["relative"] * duration
    return run_sequence_class(
        {
            "duration": duration,
            "offsets": times,
            "rabi_rotations": [1.0] * length,
            "azimuthal_angles": [0.0] * length,
            "detuning_rotations": [0.0] * length,
            "style": case["style"],
            "name": None,
        }
    )


def run_convert(case):
    sequence = package.DynamicDecouplingSequence(
        duration=10.0,
        offsets=[2.5, 7.5] if case["kind"] != "empty" else [],
        rabi_rotations={"X": [1.0, 1.0], "bad": [-1.0, 1.0], "both": [1.0, 0]}.get(
            case["kind"], [0.0, 0.0] if case["kind"] != "empty" else []
        ),
        azimuthal_angles=[0.0, 0.0] if case["kind"] != "empty" else [],
        detuning_rotations={"Z": [-1.0, 1.0], "both": [-1.0, 0]}.get(
            case["kind"], [0.0, 0.0] if case["kind"] != "empty" else []
        ),
    )
    arguments = {
        key: case[key]
        for key in (
            "maximum_rabi_rate",
            "maximum_detuning_rate",
            "minimum_segment_duration",
        )
    }
    invalid = []
    names_only = []
    for name in ("maximum_rabi_rate", "maximum_detuning_rate"):
        if not case[name] > 0:
            invalid.append(name)
    if not case["minimum_segment_duration"] >= 0:
        invalid.append("minimum_segment_duration")
    if case["kind"] in ("bad", "both"):
        invalid.append("dynamic_decoupling_sequence")
        names_only.append("dynamic_decoupling_sequence")
    return judge(
        package.convert_dds_to_driven_control,
        arguments,
        invalid,
        names_only,
        positional=(sequence,),
    )


FORMATS = ["Q-CTRL expanded", "", "q-ctrl expanded", "Q-CTRL", None, "CSV", 3]
TYPES = ["CSV", "JSON", "csv", "json", "", "XML", None, "CSV ", 3, True]
SYSTEMS = ["cylindrical", "cartesian", "Cartesian", "", "polar", None, "cylindrical ", 3]


def exporter(scratch):
    def run(case):
        path = os.path.join(scratch, "c16-{}".format(os.getpid()))
        if case["object"] == "control":
            thing = package.DrivenControl(durations=[1.0], rabi_rates=[1.0])
        else:
            thing = package.new_spin_echo_sequence(duration=10.0)
        invalid = []
        if case["file_format"] not in FORMATS[:1]:
            invalid.append("file_format")
        if case["file_type"] not in TYPES[:2]:
            invalid.append("file_type")
        if case["coordinates"] not in SYSTEMS[:2]:
            invalid.append("coordinates")
        arguments = {
            key: case[key] for key in ("file_format", "file_type", "coordinates")
        }
        if case["object"] == "sequence":
            for key in ("maximum_rabi_rate", "maximum_detuning_rate"):
                arguments[key] = case[key]
                if not case[key] > 0:
                    invalid.append(key)
        arguments["filename"] = path
        result = judge(thing.export_to_file, arguments, invalid)
        expect(
            os.path.exists(path) == (not invalid),
            "invalid {} and a file exists: {}",
            invalid,
            os.path.exists(path),
        )
        if not invalid:
            os.unlink(path)
        return result

    return run


def run_plot(case):
    control = package.DrivenControl(durations=[1.0], rabi_rates=[1.0])
    invalid = [] if case["coordinates"] in SYSTEMS[:2] else ["coordinates"]
    return judge(
        control.export,
        {
            "coordinates": case["coordinates"],
            "dimensionless_rabi_rate": case["dimensionless_rabi_rate"],
        },
        invalid,
    )


def families(tier, scratch):
    deep = tier == "thorough"
    result = []
    for family in sorted(PARAMETERS):
        result.append(
            Family(
                "sequence " + family, sequence_dims(family), sequence_runner(family)
            )
        )
    result += [
        Family(
            "predefined controls",
            [
                ("control", sorted(ref_controls.CONTROLS)),
                ("rabi_rotation", ROTATIONS),
                ("maximum_rabi_rate", RATES),
                ("azimuthal_angle", AZIMUTHS),
                ("name", NAMES),
            ],
            run_control,
        ),
        Family(
            "modulated Gaussian controls",
            [
                ("maximum_rabi_rate", [100.0, 30, 26, 25, 1e9, 2.0] + NOT_POSITIVE),
                ("minimum_segment_duration", [0.1, 0.3, 0.99, 1, 1.5, 20] + NOT_POSITIVE),
                ("duration", [1.0, 1, 2, 0.1, 10.0, 0.05] + NOT_POSITIVE),
                ("modulation_frequency", [0, 0.0, 2, -3.5]),
            ],
            run_gaussian,
        ),
        Family(
            "driven controls",
            [
                ("length", [2, 1, 3, 4, 17] if deep else [2, 1, 3, 17]),
                (
                    "durations",
                    lambda case: lists(case["length"], 1.0, [0.0, -1.0, NAN, -TINY, 0]),
                ),
                ("rabi_rates", control_lists(1.0, [-1.0, -1e-12, NAN, 0.0, -TINY])),
                ("azimuthal_angles", control_lists(0.5, [-20.0])),
                ("detunings", control_lists(0.5, [-20.0])),
                ("style", ["list", "tuple", "array"]),
                ("explicit", [False, True]),
                ("name", NAMES),
            ],
            run_class,
            deviations=4 if deep else 3,
        ),
        Family(
            "sequences",
            [
                ("duration", [1.0, 1, 3.7e-6, 1e6] + NOT_POSITIVE),
                ("offsets", offsets),
                ("rabi_rotations", column(1.0, -1.0)),
                ("azimuthal_angles", column(0.5, -20.0)),
                ("detuning_rotations", column(0.0, -2.0)),
                ("style", ["list", "tuple", "array"]),
                ("name", NAMES),
            ],
            run_sequence_class,
            deviations=5 if deep else 4,
        ),
        Family(
            "one different entry in a long control",
            [
                ("length", [5, 70, 300] if deep else [5, 70]),
                ("position", lambda case: range(case["length"])),
                ("column", ["durations", "rabi_rates", "azimuthal_angles", "detunings"]),
                (
                    "value",
                    lambda case: [0.0, -0.1, -TINY, NAN, 1e9]
                    if case["column"] in ("durations", "rabi_rates")
                    else [0.0, -1e9],
                ),
                ("style", ["list", "array"]),
            ],
            run_long_control,
        ),
        Family(
            "one different time in a long sequence",
            [
                ("length", [5, 70, 300] if deep else [5, 70]),
                ("position", lambda case: range(case["length"])),
                (
                    "relative",
                    [0.0, 1.0, 0.5, -1e-12, 1 + 1e-12, 1 + 3e-16, -1.0, 2.0, NAN, -TINY],
                ),
                ("duration", [1.0, 3.7e-6]),
                ("style", ["list", "array"]),
            ],
            run_long_sequence,
        ),
        Family(
            "conversion",
            [
                ("kind", ["X", "Z", "none", "empty", "bad", "both"]),
                ("maximum_rabi_rate", [10.0, 3, 1e9] + NOT_POSITIVE),
                ("maximum_detuning_rate", [10.0, 3, 1e9] + NOT_POSITIVE),
                ("minimum_segment_duration", [0.0, 0, 0.5, 1, -1, -1e-12, NAN, -TINY]),
            ],
            run_convert,
        ),
        Family(
            "export of controls",
            [
                ("object", ["control"]),
                ("file_format", FORMATS),
                ("file_type", TYPES),
                ("coordinates", SYSTEMS),
            ],
            exporter(scratch),
        ),
        Family(
            "export of sequences",
            [
                ("object", ["sequence"]),
                ("file_format", FORMATS),
                ("file_type", TYPES),
                ("coordinates", SYSTEMS),
                ("maximum_rabi_rate", [10.0, 1e3, 0, -1.0, NAN]),
                ("maximum_detuning_rate", [10.0, 1e3, 0, -1.0, NAN]),
            ],
            exporter(scratch),
        ),
        Family(
            "plot data",
            [
                ("coordinates", SYSTEMS),
                ("dimensionless_rabi_rate", [True, False]),
            ],
            run_plot,
        ),
    ]
    return result
