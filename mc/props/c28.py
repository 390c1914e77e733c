"""Copies of controls, sequences and errors."""

import copy
import pickle

from ..common import (
    ArgumentsValueError,
    expect,
    must,
    np,
    package,
)
from ..engine import Family, Violation
from ..objects import KINDS, NAMES, make_control, make_sequence, pulses_for, segments_for, words
from ..objects import CORE, PULSE_KINDS
from .c20 import CALLS, canonical
from .c25 import CONTROL_STARTS, SEQUENCE_STARTS

ASSUMPTIONS = [
    "copies are made by the copy module and by pickling with protocols 0 to 4 (with "
    "protocol 5 the interpreter used here cannot pickle several empty arrays); editing "
    "means changing the arrays in place or replacing the name",
]

WAYS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
}
for _protocol in range(5):
    WAYS["pickle {}".format(_protocol)] = lambda thing, protocol=_protocol: pickle.loads(
        pickle.dumps(thing, protocol)
    )
NAMES_OF = {
    "control": ("durations", "rabi_rates", "azimuthal_angles", "detunings"),
    "sequence": ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations"),
}
SCALARS = (
    "number_of_segments",
    "maximum_rabi_rate",
    "maximum_detuning",
    "maximum_duration",
    "minimum_duration",
    "duration",
)
VECTORS = ("amplitude_x", "amplitude_y", "angles", "directions", "times")


def kind_of(thing):
    return "control" if isinstance(thing, package.DrivenControl) else "sequence"


def view(thing):
    """Everything that can be seen of a control or sequence."""
    seen = [canonical(thing), str(thing), repr(thing), canonical(must(thing.export))]
    if kind_of(thing) == "control":
        seen += [float(getattr(thing, name)) for name in SCALARS]
        seen += [np.asarray(getattr(thing, name)).tolist() for name in VECTORS]
        seen.append(canonical(must(thing.export, "cartesian", False)))
    else:
        try:
            control = package.convert_dds_to_driven_control(thing, 20.0, 30.0)
            seen.append(canonical(control))
        except ArgumentsValueError as error:
            seen.append(str(error))
    return seen


def edit(thing):
    """Changes all data in place."""
    for name in NAMES_OF[kind_of(thing)]:
        array = getattr(thing, name)
        if array.size:
            array[...] = array[::-1] * 0.5 + 0.25


def check(thing, way):
    """A copy equals the original; a deep one is independent of it."""
    before = view(thing)
    try:
        twin = WAYS[way](thing)
    except Exception as error:  # pylint: disable=broad-except
        raise Violation("cannot be copied: {}: {}".format(type(error).__name__, error))
    expect(type(twin) is type(thing), "the copy is a {}", type(twin))
    expect(twin is not thing, "the copy is the object itself")
    expect(view(twin) == before, "the copy is {!r} instead of {!r}", twin, thing)
    expect(view(thing) == before, "copying changed the object to {!r}", thing)
    if way == "copy":
        # what a shallow copy shares with the original is left open
        return hash(repr(before))
    edit(twin)
    twin.name = "another name"
    expect(view(thing) == before, "editing the copy changed the object")
    twin = WAYS[way](thing)
    for name in NAMES_OF[kind_of(thing)]:
        setattr(twin, name, np.array(getattr(twin, name)) * 0.5 + 0.25)
    expect(view(thing) == before, "replacing data of the copy changed the object")
    # and the other way round: a copy made before a change keeps the old data
    twin = WAYS[way](thing)
    edit(thing)
    thing.name = "changed"
    expect(view(twin) == before, "editing the object changed its copy")
    # a copy made after the change has the new data
    after = view(thing)
    expect(view(WAYS[way](thing)) == after, "a copy of the changed object differs")
    return hash(repr(before))


def run_control(case):
    return check(make_control(segments_for(case["word"]), case.get("name")), case["way"])


def run_sequence(case):
    pulses = pulses_for(case["word"], 10.0, "even")
    return check(make_sequence(10.0, pulses, case.get("name")), case["way"])


def run_start(case):
    starts = CONTROL_STARTS if case["object"] == "control" else SEQUENCE_STARTS
    thing = must(starts[case["start"]])
    if case["read"]:
        view(thing)
    return check(thing, case["way"])


# errors

FAILING = [label for label in CALLS if label.startswith("fail")]


def error_view(error):
    return (
        type(error),
        str(error),
        error.args,
        error.description,
        error.message,
        canonical(error.arguments),
        None if error.extras is None else canonical(error.extras),
    )


def check_error(error, way):
    before = error_view(error)
    try:
        twin = WAYS[way](error)
    except Exception as failure:  # pylint: disable=broad-except
        raise Violation(
            "the error cannot be copied: {}: {}".format(type(failure).__name__, failure)
        )
    expect(
        error_view(twin) == before, "the copy is {} instead of {}", error_view(twin), before
    )
    again = error_view(WAYS[way](twin))
    expect(again == before, "the copy of the copy is {} instead of {}", again, before)
    return hash(repr(before[1:]))


def raised_by(scratch):
    def run(case):
        function, arguments, keywords = CALLS[case["call"]](scratch)
        try:
            function(*arguments, **keywords)
        except ArgumentsValueError as error:
            return check_error(error, case["way"])
        raise Violation("the call '{}' was accepted".format(case["call"]))

    return run


VALUES = {
    "number": 1.5,
    "nothing": None,
    "text": "x",
    "array": np.array([1.0, -2.0]),
    "list": [1, "two"],
    "nan": float("nan"),
    "dictionary": {"a": np.array([3.0])},
}
EXTRAS = {"none": None, "empty": {}}
EXTRAS.update({name: {"extra": value} for name, value in VALUES.items()})


def run_made(case):
    arguments = {
        "argument {}".format(position): VALUES[kind]
        for position, kind in enumerate(case["arguments"])
    }
    extras = EXTRAS[case["extras"]]
    if case["style"] == "positional":
        error = ArgumentsValueError(case["description"], arguments, extras)
    elif case["style"] == "keywords":
        error = ArgumentsValueError(
            description=case["description"], arguments=arguments, extras=extras
        )
    else:
        error = ArgumentsValueError(case["description"], arguments)
    return check_error(error, case["way"])


def families(tier, scratch):
    deep = tier == "thorough"
    ways = [("way", list(WAYS))]
    return [
        Family(
            "controls",
            [("word", words(KINDS, [1, 2] if deep else [1]) + words(CORE, [2, 3] if deep else [2]))] + ways,
            run_control,
        ),
        Family(
            "named controls",
            [("word", words(CORE[:3], [1, 2])), ("name", NAMES)] + ways,
            run_control,
        ),
        Family(
            "sequences",
            [("word", words(PULSE_KINDS, [1, 2, 3] if deep else [1, 2]))] + ways,
            run_sequence,
        ),
        Family(
            "named sequences",
            [("word", words(PULSE_KINDS[:3], [1, 2])), ("name", NAMES)] + ways,
            run_sequence,
        ),
        Family(
            "objects made in other ways",
            [
                ("object", ["control", "sequence"]),
                (
                    "start",
                    lambda case: list(
                        CONTROL_STARTS if case["object"] == "control" else SEQUENCE_STARTS
                    ),
                ),
                ("read", [False, True]),
            ]
            + ways,
            run_start,
        ),
        Family("errors raised", [("call", FAILING)] + ways, raised_by(scratch)),
        Family(
            "errors made",
            [
                ("description", ["", "Wrong.", "two\nlines {} %s"]),
                ("arguments", [[]] + words(list(VALUES), [1, 2])),
                ("extras", list(EXTRAS)),
                ("style", ["positional", "keywords", "short"]),
            ]
            + ways,
            run_made,
        ),
    ]
