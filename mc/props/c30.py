"""Ways of passing arguments."""

import math
import os

from ..common import ArgumentsValueError, expect, package
from ..controls import NAMES as CONTROLS
from ..engine import Family, count_call
from ..sequences import PARAMETERS
from .c20 import canonical

ASSUMPTIONS = [
    "the documented names, order and defaults of the parameters are written down here",
    "every value is valid by itself; combinations that are rejected must be rejected alike",
]

OMITTED = "(omitted)"
PI = math.pi
QCTRL = "Q-CTRL expanded"

# {callable: [(parameter, given values, [default])]}
SIGNATURES = {}
for _name in CONTROLS:
    SIGNATURES["new_{}_control".format(_name)] = [
        ("rabi_rotation", [PI, PI / 2], []),
        ("maximum_rabi_rate", [1.0, 2.5], []),
        ("azimuthal_angle", [0.0, 0.5, PI / 2], [0.0]),
        ("name", [None, "n", "m"], [None]),
    ]
for _name, _parameters in PARAMETERS.items():
    SIGNATURES["new_{}_sequence".format(_name)] = (
        [("duration", [1.0, 3.0, 2.0], [])]
        + [(parameter, [1, 2, 3], []) for parameter in _parameters]
        + [
            ("pre_post_rotation", [False, True], [False]),
            ("name", [None, "n", "m"], [None]),
        ]
    )
SIGNATURES["new_modulated_gaussian_control"] = [
    ("maximum_rabi_rate", [20.0, 1.0, 30.0], []),
    ("minimum_segment_duration", [0.1, 1.0, 0.25], []),
    ("duration", [10.0, 20.0, 1.0], []),
    ("modulation_frequency", [0.0, 0.1, 1.0], []),
]
SIGNATURES["DrivenControl"] = [
    ("durations", [[1.0, 2.0], [3.0, 0.5]], []),
    ("rabi_rates", [None, [0.0, 1.0], [2.0, 3.0]], [None]),
    ("azimuthal_angles", [None, [0.0, 1.0], [2.0, 3.0]], [None]),
    ("detunings", [None, [0.0, 1.0], [2.0, 3.0]], [None]),
    ("name", [None, "n", "m"], [None]),
]
SIGNATURES["DynamicDecouplingSequence"] = [
    ("duration", [5.0, 3.0], []),
    ("offsets", [[0.0, 1.0], [2.0, 3.0]], []),
    ("rabi_rotations", [[0.0, 1.0], [2.0, 3.0]], []),
    ("azimuthal_angles", [[0.0, 1.0], [2.0, 3.0]], []),
    ("detuning_rotations", [[0.0, 1.0], [2.0, 3.0]], []),
    ("name", [None, "n", "m"], [None]),
]
SEQUENCES = {
    "both": lambda: package.DynamicDecouplingSequence(
        50.0, [10.0, 30.0], [PI, 0.0], [0.5, 0.0], [0.0, 1.5], "original"
    ),
    "unnamed": lambda: package.DynamicDecouplingSequence(
        50.0, [25.0], [PI], [0.5], [0.0]
    ),
}
SIGNATURES["convert_dds_to_driven_control"] = [
    ("dynamic_decoupling_sequence", list(SEQUENCES), []),
    ("maximum_rabi_rate", [20.0, 3.0, 0.001], []),
    ("maximum_detuning_rate", [20.0, 3.0, 0.001], []),
    ("minimum_segment_duration", [0.0, 1.0, 2.0], [0.0]),
    ("name", [None, "n", "m"], [None]),
]
FILE = [
    ("filename", ["one", "two"], []),
    ("file_format", [QCTRL, "unknown"], [QCTRL]),
    ("file_type", ["CSV", "JSON", "unknown"], ["CSV"]),
    ("coordinates", ["cylindrical", "cartesian", "unknown"], ["cylindrical"]),
]
CONTROLS_TO_EXPORT = {
    "named": lambda: package.DrivenControl(
        [1.0, 2.0], [3.0, 0.0], [0.5, 1.0], [-1.0, 2.0], "original"
    ),
    "unnamed": lambda: package.DrivenControl([1.0, 2.0], [3.0, 0.0], [0.5, 1.0]),
}
SIGNATURES["DrivenControl.export_to_file"] = FILE
SIGNATURES["DrivenControl.export"] = [
    ("coordinates", ["cylindrical", "cartesian", "unknown"], ["cylindrical"]),
    ("dimensionless_rabi_rate", [True, False], [True]),
]
SIGNATURES["DynamicDecouplingSequence.export_to_file"] = FILE + [
    ("maximum_rabi_rate", [2 * PI, 1.0, 0.01], [2 * PI]),
    ("maximum_detuning_rate", [2 * PI, 1.0, 0.01], [2 * PI]),
]
OBJECTS = {
    "DrivenControl.export_to_file": CONTROLS_TO_EXPORT,
    "DrivenControl.export": CONTROLS_TO_EXPORT,
    "DynamicDecouplingSequence.export_to_file": SEQUENCES,
}


class Caller:
    def __init__(self, scratch):
        self.scratch = scratch
        self.known = {}

    def outcome(self, case, arguments, keywords):
        """Result, error or files written by a call."""
        directory = os.path.join(self.scratch, "c30-{}".format(os.getpid()))
        os.makedirs(directory, exist_ok=True)

        def real(name, value):
            if name == "filename":
                return os.path.join(directory, value)
            if name == "dynamic_decoupling_sequence":
                return SEQUENCES[value]()
            return value

        label = case["callable"]
        if "." in label:
            target = OBJECTS[label][case["object"]]()
            function = getattr(target, label.split(".")[1])
        else:
            function = getattr(package, label)
        names = [name for name, _, _ in SIGNATURES[label]]
        arguments = [real(name, value) for name, value in zip(names, arguments)]
        keywords = {name: real(name, value) for name, value in keywords.items()}
        count_call()
        try:
            result = canonical(function(*arguments, **keywords))
        except ArgumentsValueError as error:
            result = ("error", error.description)
        written = {}
        for name in sorted(os.listdir(directory)):
            path = os.path.join(directory, name)
            with open(path, "rb") as handle:
                written[name] = handle.read()
            os.unlink(path)
        return result, tuple(written.items())

    def run(self, case):
        signature = SIGNATURES[case["callable"]]
        given = case["values"]
        positional = given[: case["positional"]]
        rest = [
            (name, value)
            for (name, _, _), value in list(zip(signature, given))[case["positional"] :]
            if value != OMITTED
        ]
        if case["order"] == "reversed":
            rest.reverse()
        got = self.outcome(case, positional, dict(rest))
        plain = {
            name: default[0] if value == OMITTED else value
            for (name, _, default), value in zip(signature, given)
        }
        key = repr((case["callable"], case.get("object"), plain))
        if key not in self.known:
            if len(self.known) > 20000:
                self.known.clear()
            self.known[key] = self.outcome(case, [], plain)
        wanted = self.known[key]
        expect(
            got == wanted,
            "{}(*{}, **{}) gives {} instead of {}",
            case["callable"],
            positional,
            dict(rest),
            str(got)[:300],
            str(wanted)[:300],
        )
        if "name" in plain and wanted[0][0] != "error":
            expect(repr(plain["name"]) in wanted[0], "the name is not {!r}", plain["name"])
        return hash(repr(got))


def assignments(signature, fewer):
    """All lists of given values, with every optional one also left out."""
    found = [[]]
    for _, values, default in signature:
        choices = values[:2] if fewer else values
        choices = choices + ([OMITTED] if default else [])
        found = [item + [choice] for item in found for choice in choices]
    return found


def leading(values):
    """How many arguments can be given by position."""
    return values.index(OMITTED) if OMITTED in values else len(values)


def families(tier, scratch):
    deep = tier == "thorough"
    caller = Caller(scratch)
    tables = {
        label: assignments(signature, not deep and len(signature) > 5)
        for label, signature in SIGNATURES.items()
    }

    def ways(case):
        return list(range(leading(case["values"]) + 1))

    return [
        Family(
            "ways of passing arguments",
            [
                ("callable", sorted(set(SIGNATURES) - set(OBJECTS))),
                ("values", lambda case: tables[case["callable"]]),
                ("positional", ways),
                ("order", ["documented", "reversed"]),
            ],
            caller.run,
        ),
        Family(
            "ways of passing arguments to methods",
            [
                ("callable", sorted(OBJECTS)),
                ("object", lambda case: list(OBJECTS[case["callable"]])),
                ("values", lambda case: tables[case["callable"]]),
                ("positional", ways),
                ("order", ["documented", "reversed"]),
            ],
            caller.run,
        ),
    ]
