"""Interleavings of concurrent calls."""

import os

from .. import schedule
from ..common import ArgumentsValueError, np, package
from ..engine import Family, Violation, count_call
from .c20 import CALLS, NUMBERS, canonical, in_child, small_control, small_sequence

ASSUMPTIONS = [
    "two threads; a thread can be preempted before every statement of the library, "
    "before storing to shared places, before comprehension elements and inside "
    "conditional expressions, but not inside numpy or the standard library",
    "expected results come from single calls in fresh processes",
]

# at least one call of each kind, those with few scheduling points where possible
LABELS = [label for label in CALLS if label not in ("walsh 261", "xy concatenated 3", "constants") and "faint" not in label]
EVERY = [
    "ramsey closed",
    "echo closed",
    "carr purcell",
    "cpmg closed",
    "uhrig",
    "periodic",
    "walsh",
    "quadratic",
    "x concatenated",
    "xy concatenated",
    "sequence",
    "primitive named",
    "bb1",
    "sk1",
    "scrofulous",
    "corpse",
    "corpse in bb1",
    "corpse in sk1",
    "corpse in scrofulous",
    "wamf1",
    "gaussian",
    "control",
    "convert",
    "plot control",
    "numbers",
    "texts of sequence",
    "file of control JSON",
    "file of sequence",
    "fail control",
    "fail convert",
]


def outcome_of(result):
    kind, value = result
    if kind == "returned":
        return ("result", canonical(value))
    if isinstance(value, ArgumentsValueError):
        return ("error", str(value))
    return ("unexpected", "{}: {}".format(type(value).__name__, value))


def together(first, second, quotas):
    """Runs two prepared calls under a schedule; outcomes and places of switches."""
    count_call(2)
    run = schedule.Run([first, second], quotas)
    results = run.run()
    return [outcome_of(result) for result in results], run


def prepared(label, scratch):
    function, arguments, keywords = CALLS[label](scratch)
    return lambda: function(*arguments, **keywords)


# operations on one shared object


def exported(scratch, **options):
    def operation(thing):
        path = os.path.join(scratch, "c21-{}-{}".format(os.getpid(), next(NUMBERS)))
        thing.export_to_file(filename=path, **options)
        with open(path, "rb") as handle:
            content = handle.read()
        os.unlink(path)
        return content

    return operation


def reading(*names):
    return lambda thing: [getattr(thing, name) for name in names]


def shared_operations(kind, scratch):
    if kind == "control":
        return {
            "limits": reading(
                "maximum_rabi_rate",
                "maximum_detuning",
                "maximum_duration",
                "minimum_duration",
                "duration",
                "number_of_segments",
            ),
            "amplitudes": reading("amplitude_x", "amplitude_y", "angles"),
            "directions": reading("directions", "times"),
            "plot": lambda thing: thing.export("cylindrical", True),
            "plot cartesian": lambda thing: thing.export("cartesian", False),
            "CSV": exported(scratch, file_type="CSV", coordinates="cylindrical"),
            "JSON": exported(scratch, file_type="JSON", coordinates="cartesian"),
            "CSV cartesian": exported(scratch, file_type="CSV", coordinates="cartesian"),
            "JSON cylindrical": exported(
                scratch, file_type="JSON", coordinates="cylindrical"
            ),
            "str": str,
            "repr": repr,
            "bad file": exported(scratch, file_type="XML"),
            "fields": canonical,
        }
    return {
        "plot": lambda thing: thing.export(),
        "convert": lambda thing: package.convert_dds_to_driven_control(
            thing, 20.0, 30.0, name="a"
        ),
        "convert slowly": lambda thing: package.convert_dds_to_driven_control(
            thing, 5.0, 6.0, 0.1
        ),
        "bad convert": lambda thing: package.convert_dds_to_driven_control(
            thing, 0.1, 6.0
        ),
        "CSV": exported(scratch, maximum_rabi_rate=20.0, maximum_detuning_rate=30.0),
        "JSON": exported(
            scratch,
            file_type="JSON",
            coordinates="cartesian",
            maximum_rabi_rate=30.0,
            maximum_detuning_rate=20.0,
        ),
        "str": str,
        "repr": repr,
        "fields": canonical,
    }


MAKERS = {"control": small_control, "sequence": small_sequence}


class Schedules:
    def __init__(self, scratch):
        self.scratch = scratch
        self.expected = {}
        self.points = {}
        self.passages = {}
        self.shared = {kind: shared_operations(kind, scratch) for kind in MAKERS}

    def measure(self, make):
        outcomes, run = together(make(), lambda: None, ())
        return outcomes[0], run.trace

    def setup(self):
        if self.expected:
            return
        jobs = {
            label: (lambda label=label: prepared(label, self.scratch))
            for label in LABELS
        }
        for kind, operations in self.shared.items():
            for name, operation in operations.items():
                jobs[(kind, name)] = lambda kind=kind, operation=operation: (
                    lambda thing=MAKERS[kind](): operation(thing)
                )
        for key, make in jobs.items():
            self.expected[key], trace = in_child(lambda: self.measure(make))
            self.points[key] = len(trace)
            # the first and the last passage of each place
            numbered = list(enumerate(trace))
            first = {place: i for i, place in reversed(numbered)}
            last = {place: i for i, place in numbered}
            self.passages[key] = sorted(set(first.values()) | set(last.values()))

    def switches(self, case):
        """All positions at which the first call can be interrupted."""
        return range(self.points[self.key(case, "first")])

    def returns(self, case):
        """All positions at which the second call can be interrupted."""
        return range(self.points[self.key(case, "second")])

    def places(self, case):
        return self.passages[self.key(case, "first")]

    def return_places(self, case):
        return self.passages[self.key(case, "second")]

    def key(self, case, which):
        label = case[which]
        return (case["kind"], label) if "kind" in case else label

    def judge(self, case, outcomes, run):
        for which, outcome in zip(("first", "second"), outcomes):
            wanted = self.expected[self.key(case, which)]
            if outcome != wanted:
                raise Violation(
                    "the {} of two concurrent calls ({}, {}) gives {} instead of "
                    "{} when interrupted at {}".format(
                        which,
                        case["first"],
                        case["second"],
                        str(outcome)[:600],
                        str(wanted)[:600],
                        [
                            schedule.place_name(place)
                            for _, place in run.places
                        ],
                    )
                )
        return (case["first"], case["second"], case.get("kind"), tuple(run.places))

    def quotas(self, case):
        return [case["switch"]] + ([case["return"]] if "return" in case else [])

    def warm(self, case):
        first = prepared(case["first"], self.scratch)
        second = prepared(case["second"], self.scratch)
        return self.judge(case, *together(first, second, self.quotas(case)))

    def cold(self, case):
        return in_child(lambda: self.warm(case))

    def same_object(self, case):
        thing = MAKERS[case["kind"]]()
        operations = self.shared[case["kind"]]
        before = canonical(thing)
        observation = self.judge(
            case,
            *together(
                lambda: operations[case["first"]](thing),
                lambda: operations[case["second"]](thing),
                self.quotas(case),
            )
        )
        if canonical(thing) != before:
            raise Violation("reading an object concurrently changed it")
        return observation


# one pair of calls of each function with different arguments
TWINS = {
    "ramsey": "ramsey other",
    "echo": "echo closed",
    "carr purcell": "carr purcell 5",
    "cpmg": "cpmg short",
    "uhrig": "uhrig 7",
    "periodic": "periodic closed",
    "walsh": "walsh closed",
    "quadratic": "quadratic swapped",
    "x concatenated": "x concatenated 4",
    "xy concatenated 1": "xy concatenated",
    "sequence": "empty sequence",
    "fail sequence": "sequence of lists",
    "primitive": "primitive named",
    "bb1": "bb1 turned",
    "sk1": "corpse in sk1",
    "scrofulous": "scrofulous pi",
    "corpse": "corpse in bb1",
    "corpse in scrofulous": "scrofulous",
    "wamf1": "wamf1 quarter",
    "gaussian": "gaussian still",
    "control": "control of durations",
    "fail control": "control",
    "convert edges": "convert",
    "plot control": "plot control cartesian",
    "file of control": "file of control JSON",
    "texts of control": "texts of sequence",
}


def partners(case):
    """Calls of the same kind: those that share the longest part of the label."""
    word = case["first"].split()[0]
    return [label for label in LABELS if label.split()[0] == word]


def families(tier, scratch):
    deep = tier == "thorough"
    schedules = Schedules(scratch)
    pair = [("first", EVERY), ("second", EVERY), ("switch", schedules.switches)]
    kinds = [
        ("kind", list(MAKERS)),
        ("first", lambda case: list(schedules.shared[case["kind"]])),
        ("second", lambda case: list(schedules.shared[case["kind"]])),
        ("switch", schedules.switches),
    ]
    result = [
        Family(
            "first calls of the process, related",
            [("first", LABELS), ("second", partners), ("switch", schedules.switches)],
            schedules.cold,
            setup=schedules.setup,
        ),
        Family("all pairs", pair, schedules.warm, setup=schedules.setup),
        Family("one object", kinds, schedules.same_object, setup=schedules.setup),
    ]
    places = [("switch", schedules.places), ("return", schedules.return_places)]
    result += [
        Family(
            "two preemptions at places, related",
            [
                ("first", LABELS if deep else list(TWINS)),
                (
                    "second",
                    partners if deep else lambda case: [TWINS[case["first"]]],
                ),
            ]
            + places,
            schedules.warm,
            setup=schedules.setup,
        ),
        Family(
            "two preemptions at places, one object",
            [("kind", list(MAKERS) if deep else ["control"])] + kinds[1:3] + places,
            schedules.same_object,
            setup=schedules.setup,
        ),
    ]
    if deep:
        result += [
            Family(
                "first calls of the process, all pairs",
                pair,
                schedules.cold,
                setup=schedules.setup,
            ),
            Family(
                "two preemptions, same call",
                [
                    ("first", EVERY),
                    ("second", lambda case: [case["first"]]),
                    ("switch", schedules.switches),
                    ("return", schedules.returns),
                ],
                schedules.warm,
                setup=schedules.setup,
            ),
            Family(
                "two preemptions, one object",
                kinds + [("return", schedules.returns)],
                schedules.same_object,
                setup=schedules.setup,
            ),
        ]
    return result
