"""What argument errors and code-like texts list."""

import itertools

from ..common import ArgumentsValueError, attempt, expect, np, package
from ..engine import Family, count_call
from ..objects import words

from qctrlopencontrols import exceptions  # noqa: E402

try:
    from qctrlopencontrols import utils  # noqa: E402
except ImportError:
    utils = None

ASSUMPTIONS = [
    "names are texts; values are numbers, texts, containers, arrays and objects of the "
    "library; the helpers of the module of utilities are not published by the package: "
    "one that is no longer there is not explored",
]


class Thing:
    """Has attributes and a property to be listed."""

    def __init__(self, **attributes):
        self.__dict__.update(attributes)

    @property
    def computed(self):
        return 1.25


class Other(Thing):
    pass


class Awkward:
    """Its truth value and comparisons are not available."""

    def __bool__(self):
        raise ValueError("no truth value")

    def __eq__(self, other):
        raise ValueError("no comparison")

    __hash__ = None

    def __repr__(self):
        return "Awkward()"


VALUES = {
    "number": -1.5,
    "zero": 0,
    "nothing": None,
    "false": False,
    "empty text": "",
    "text": "two\nlines {} %s 'x'",
    "nan": float("nan"),
    "list": [1, "a", None],
    "empty list": [],
    "dictionary": {"a": 1},
    "array": np.array([1.0, -2.5]),
    "empty array": np.array([]),
    "long array": np.arange(3000.0),
    "long list": [float(number) for number in range(3000)],
    "long text": "abc " * 3000,
    "nested": [{"a": [(1, np.array([[1.0, 2.0], [3.0, 4.0]]))]}] * 3,
    "complex": 1 + 2j,
    "control": package.DrivenControl([1.0], [2.0], [0.5], [-1.0], "c"),
    "sequence": package.DynamicDecouplingSequence(
        1.0, [0.5], [3.0], [0.0], [0.0], None
    ),
    "awkward": Awkward(),
}
KINDS = list(VALUES)
KEYS = ["duration", "a", "", "with space", "x=y"]
DESCRIPTIONS = ["", "Wrong.", "two\nlines {} %s"]


def wanted_message(description, arguments, extras):
    lines = [description]
    for group in (arguments, extras or {}):
        lines += ["{}={!r}".format(key, value) for key, value in group.items()]
    return "\n".join(lines)


def identical(first, second):
    """Dictionaries with the same keys in order and the very same values."""
    return list(first) == list(second) and all(first[key] is second[key] for key in first)


def check_error(error, description, arguments, extras):
    expect(isinstance(error, exceptions.QctrlError), "not an error of the library")
    expect(isinstance(error, Exception), "not an exception")
    message = wanted_message(description, arguments, extras)
    for what, text in (("text", str(error)), ("message", error.message)):
        expect(text == message, "{} {!r} instead of {!r}", what, text[:500], message[:500])
    expect(error.args == (message,), "arguments of the exception {}", error.args)
    expect(error.description == description, "description {!r}", error.description)
    expect(identical(error.arguments, arguments), "arguments {!r}", error.arguments)
    if extras is None:
        expect(error.extras is None, "extras {!r}", error.extras)
    else:
        expect(
            error.extras is not None and identical(error.extras, extras),
            "extras {!r}",
            error.extras,
        )
    return message[:200]


def table(kinds, prefix):
    return {prefix + KEYS[i % len(KEYS)] + str(i): VALUES[kind] for i, kind in enumerate(kinds)}


def run_error(case):
    arguments = table(case["arguments"], "")
    extras = None if case["extras"] is None else table(case["extras"], "extra ")
    count_call()
    if case["style"] == "keywords":
        error = ArgumentsValueError(
            description=case["description"], arguments=arguments, extras=extras
        )
    elif extras is None and case["style"] == "short":
        error = ArgumentsValueError(case["description"], arguments)
    else:
        error = ArgumentsValueError(case["description"], arguments, extras)
    return check_error(error, case["description"], arguments, extras)


def run_keys(case):
    arguments = {key: 1 for key in case["keys"]}
    extras = {key: 2 for key in case["more keys"]}
    count_call()
    error = ArgumentsValueError("Wrong.", arguments, extras=extras)
    return check_error(error, "Wrong.", arguments, extras)


CONDITIONS = {
    "true": (True, True),
    "false": (False, False),
    "one": (1, True),
    "zero": (0, False),
    "numpy true": (np.bool_(True), True),
    "numpy false": (np.bool_(False), False),
    "array true": (np.array([True]), True),
    "array false": (np.array([False]), False),
    "all true": (np.all(np.array([1.0, 2.0]) > 0), True),
    "all false": (np.all(np.array([1.0, -2.0]) > 0), False),
    "nan comparison": (float("nan") > 0, False),
    "text": ("x", True),
    "empty": ([], False),
    "none": (None, False),
}


def run_condition(case):
    condition, holds = CONDITIONS[case["condition"]]
    arguments = table(case["arguments"], "")
    extras = None if case["extras"] is None else table(case["extras"], "extra ")
    keywords = {} if extras is None and case["style"] == "short" else {"extras": extras}
    if case["style"] == "keywords":
        result, error = attempt(
            utils.check_arguments,
            condition=condition,
            description=case["description"],
            arguments=arguments,
            **keywords
        )
    else:
        result, error = attempt(
            utils.check_arguments, condition, case["description"], arguments, **keywords
        )
    if holds:
        expect(error is None, "a condition that holds raised {}", error)
        expect(result is None, "returned {!r}", result)
        return "accepted"
    expect(error is not None, "a condition that does not hold was accepted")
    return check_error(error, case["description"], arguments, extras)


def run_repr(case):
    kinds = case["values"]
    names = ["name{}".format(i) for i in range(len(kinds))]
    things = {name: VALUES[kind] for name, kind in zip(names, kinds)}
    thing = {"Thing": Thing, "Other": Other}[case["class"]](**things)
    listed = [names[i] if i < len(names) else "computed" for i in case["listed"]]
    attributes = {"list": list, "tuple": tuple}[case["container"]](listed)
    if case["style"] == "keywords":
        text, error = attempt(
            utils.create_repr_from_attributes, class_instance=thing, attributes=attributes
        )
    else:
        text, error = attempt(utils.create_repr_from_attributes, thing, attributes)
    expect(error is None, "rejected: {}", error)
    if not listed:
        wanted = "No attributes provided for object of class " + case["class"]
    else:
        wanted = "{}({})".format(
            case["class"],
            ",".join("{}={!r}".format(name, getattr(thing, name)) for name in listed),
        )
    expect(text == wanted, "{!r} instead of {!r}", text[:500], wanted[:500])
    return text[:200]


WRONG = {"number": 1, "none": None, "bytes": b"name0", "list": ["name0"], "type": str}


def run_wrong(case):
    listed = ["name0", "computed", "name0"][: case["length"]]
    if case["position"] is not None:
        listed[case["position"]] = WRONG[case["wrong"]]
    instance = Thing(name0=1) if case["instance"] else None
    attributes = listed if case["attributes"] else None
    text, error = attempt(utils.create_repr_from_attributes, instance, attributes)
    valid = case["instance"] and case["attributes"] and case["position"] is None
    if valid:
        expect(error is None, "rejected: {}", error)
        return text
    expect(error is not None, "accepted: {!r}", text)
    return str(error)[:100]


def sizes(kinds, longest):
    return [
        list(item)
        for size in range(longest + 1)
        for item in itertools.product(kinds, repeat=size)
    ]


def condition_family(few):
    return Family(
        "conditions",
        [
            ("condition", list(CONDITIONS)),
            ("description", DESCRIPTIONS),
            ("arguments", sizes(KINDS, 1) + sizes(few, 2)[len(few) + 1 :]),
            ("extras", [None] + sizes(KINDS, 1)),
            ("style", ["short", "keywords", "positional"]),
        ],
        run_condition,
    )


def text_family(name, values, containers, styles):
    return Family(
        name,
        [
            ("class", ["Thing", "Other"]),
            ("values", values),
            (
                "listed",
                lambda case: [
                    list(item)
                    for size in range(4)
                    for item in itertools.product(
                        range(len(case["values"]) + 1), repeat=size
                    )
                ],
            ),
            ("container", containers),
            ("style", styles),
        ],
        run_repr,
    )


def text_families(deep):
    short = sizes(KINDS, 2)
    more = [text_family("longer code-like texts", words(KINDS, [3]), ["list"], ["positional"])]
    return (more if deep else []) + [
        text_family(
            "code-like texts", short, ["list", "tuple"], ["positional", "keywords"]
        ),
        Family(
            "unusable arguments",
            [
                ("instance", [True, False]),
                ("attributes", [True, False]),
                ("length", [1, 2, 3]),
                ("position", lambda case: [None] + list(range(case["length"]))),
                ("wrong", list(WRONG)),
            ],
            run_wrong,
        ),
    ]


def families(tier, scratch):
    deep = tier == "thorough"
    few = ["number", "nothing", "array", "awkward"]
    extras = [None] + sizes(KINDS, 1) + sizes(few, 2)[len(few) + 1 :]
    found = [
        Family(
            "errors",
            [
                ("description", DESCRIPTIONS),
                ("arguments", sizes(KINDS, 2)),
                ("extras", extras),
                ("style", ["short", "keywords"]),
            ],
            run_error,
        ),
        Family(
            "long errors",
            [
                ("description", DESCRIPTIONS[1:2]),
                ("arguments", sizes(few, 5 if deep else 4)),
                ("extras", [None] + sizes(few, 3 if deep else 2)),
                ("style", ["short"]),
            ],
            run_error,
        ),
        Family(
            "names",
            [
                ("keys", [list(keys) for n in range(6) for keys in itertools.permutations(KEYS, n)]),
                ("more keys", [list(keys) for n in range(3) for keys in itertools.permutations(KEYS, n)]),
            ],
            run_keys,
        ),
    ]
    if hasattr(utils, "check_arguments"):
        found.append(condition_family(few))
    if hasattr(utils, "create_repr_from_attributes"):
        found += text_families(deep)
    return found
