"""Calls that are interrupted."""

from .. import schedule
from ..common import ArgumentsValueError, np
from ..engine import Family, Violation, count_call
from ..process import changes, look
from .c20 import CALLS, CORE, canonical, in_child, perform
from .c21 import LABELS, MAKERS, partners, shared_operations

ASSUMPTIONS = [
    "an interruption is a KeyboardInterrupt raised before a statement of the library, "
    "before storing to shared places, before comprehension elements and inside "
    "conditional expressions, but not inside numpy or the standard library",
    "handlers of exceptions, finally clauses, the point right before a try statement "
    "and the methods __enter__, __exit__ and __del__ are not interrupted",
    "expected results come from single calls in fresh processes; what an interrupted "
    "export leaves in its file, and whether that is still open, is not specified",
]


class Interruptions:
    def __init__(self, scratch):
        self.scratch = scratch
        self.expected = {}
        self.points = {}
        self.passages = {}
        self.shared = {kind: shared_operations(kind, scratch) for kind in MAKERS}

    def outcome(self, function, *arguments, **keywords):
        """The outcome of a call and the interruption, if any, that ended it."""
        count_call()
        try:
            return ("result", canonical(function(*arguments, **keywords)))
        except ArgumentsValueError as error:
            return ("error", str(error))
        except schedule.Interrupted:
            return ("interrupted",)
        except Exception as error:  # pylint: disable=broad-except
            return ("unexpected", type(error).__name__, str(error))

    def measure(self, make):
        function, arguments, keywords = make()
        interruption = schedule.Interruption()
        outcome = self.outcome(interruption.run, function, *arguments, **keywords)
        return outcome, interruption.trace

    def use(self, kind, name):
        return self.shared[kind][name], (MAKERS[kind](),), {}

    def setup(self):
        if self.expected:
            return
        jobs = {label: (lambda label=label: CALLS[label](self.scratch)) for label in CALLS}
        for kind, operations in self.shared.items():
            for name in operations:
                jobs[(kind, name)] = lambda kind=kind, name=name: self.use(kind, name)
        for key, make in jobs.items():
            self.expected[key], trace = in_child(lambda: self.measure(make))
            allowed = [
                (number, place)
                for number, (place, cleaning) in enumerate(trace)
                if not cleaning
            ]
            self.points[key] = [number for number, _ in allowed]
            # the first and the last passage of each place
            first = {place: number for number, place in reversed(allowed)}
            last = {place: number for number, place in allowed}
            self.passages[key] = sorted(set(first.values()) | set(last.values()))

    def key(self, case, which):
        label = case[which]
        return (case["kind"], label) if "kind" in case else label

    def every_point(self, case):
        return self.points[self.key(case, "call")]

    def places(self, case):
        return self.passages[self.key(case, "call")]

    def later_places(self, case):
        return self.passages[self.key(case, "second")]

    def compare(self, key, outcome, story):
        if outcome != self.expected[key]:
            raise Violation(
                "{} after {} gives {} instead of {}".format(
                    key, story, str(outcome)[:600], str(self.expected[key])[:600]
                )
            )

    def interrupt(self, key, point, call, story):
        """Interrupts a call; says where."""
        function, arguments, keywords = call
        given = canonical([list(arguments), dict(keywords)])
        # the usual settings, which differ from those of this process
        np.seterr(all="warn", under="ignore")
        settings = look()
        interruption = schedule.Interruption(point)
        outcome = self.outcome(interruption.run, function, *arguments, **keywords)
        if interruption.place is None:
            # with what earlier calls have prepared there are fewer points
            self.compare(key, outcome, story)
            where = "nowhere"
        else:
            where = schedule.place_name(interruption.place)
            if outcome != ("interrupted",):
                raise Violation(
                    "{} interrupted at {} does not pass the interruption on: {}".format(
                        key, where, str(outcome)[:600]
                    )
                )
        story.append("{} interrupted at {}".format(key, where))
        if canonical([list(arguments), dict(keywords)]) != given:
            raise Violation("{} has changed its arguments".format(story))
        # a file that was being written may still be open
        del settings["open files"]
        found = changes(settings, look())
        if found:
            raise Violation("{} has changed {}".format(story, found))

    def calls(self, case):
        return in_child(lambda: self.call_history(case))

    def call_history(self, case):
        label = case["call"]
        story = []
        look()
        if case["before"] == "same call":
            self.compare(label, perform(label, self.scratch)[0], story)
            story.append(label)
        call = CALLS[label](self.scratch)
        self.interrupt(label, case["point"], call, story)
        # with the same arguments, then with new ones
        function, arguments, keywords = call
        self.compare(label, self.outcome(function, *arguments, **keywords), story)
        probes = partners({"first": label})
        # in the middle of a loop the related calls suffice
        if case["before"] == "nothing" and case["point"] in self.passages[label]:
            probes = probes + CORE
        for probe in probes:
            self.compare(probe, perform(probe, self.scratch)[0], story)
        return tuple(story)

    def uses(self, case):
        """An object is used, interrupted and used in all ways."""
        kind = case["kind"]
        thing = MAKERS[kind]()
        operations = self.shared[kind]
        story = []
        look()
        if case["before"] != "nothing":
            outcome = self.outcome(operations[case["before"]], thing)
            self.compare((kind, case["before"]), outcome, story)
            story.append(case["before"])
        self.interrupt(
            (kind, case["call"]),
            case["point"],
            (operations[case["call"]], (thing,), {}),
            story,
        )
        if "second" in case:
            self.interrupt(
                (kind, case["second"]),
                case["second point"],
                (operations[case["second"]], (thing,), {}),
                story,
            )
        names = list(operations)
        start = names.index(case["call"])
        for name in names[start:] + names[:start]:
            self.compare((kind, name), self.outcome(operations[name], thing), story)
        return (kind, tuple(story))


def families(tier, scratch):
    deep = tier == "thorough"
    work = Interruptions(scratch)
    operations = lambda case: list(work.shared[case["kind"]])
    earlier = lambda case: ["nothing"] + operations(case)
    same = lambda case: ["nothing", case["call"]]
    result = [
        Family(
            "first calls of the process",
            [("before", ["nothing"]), ("call", LABELS), ("point", work.every_point)],
            work.calls,
            setup=work.setup,
        ),
        Family(
            "repeated calls",
            [
                ("before", ["same call"]),
                ("call", LABELS),
                ("point", work.every_point if deep else work.places),
            ],
            work.calls,
            setup=work.setup,
        ),
        Family(
            "one object",
            [
                ("kind", list(MAKERS)),
                ("call", operations),
                ("before", earlier if deep else same),
                ("point", work.every_point),
            ],
            work.uses,
            setup=work.setup,
        ),
    ]
    if deep:
        result += [
            Family(
                "one object interrupted twice",
                [
                    ("kind", list(MAKERS)),
                    ("before", ["nothing"]),
                    ("call", operations),
                    ("point", work.places),
                    (
                        "second",
                        lambda case: operations(case)
                        if case["kind"] == "control"
                        else [case["call"]],
                    ),
                    ("second point", work.later_places),
                ],
                work.uses,
                setup=work.setup,
            ),
        ]
    return result
