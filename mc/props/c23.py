"""Export of sequences."""

import itertools
import math
import os

from .. import files
from ..common import NAN, attempt, control_data, expect, must, package, rounded
from ..convert import KINDS, make_sequence, snapshot
from ..engine import Family
from ..sequences import PARAMETERS, constructor

ASSUMPTIONS = [
    "files are compared after parsing, numbers exactly",
    "the conversion itself is the subject of C01 to C03",
]

PI = math.pi
TYPES = ["CSV", "JSON"]
SYSTEMS = ["cylindrical", "cartesian"]


class Exporter:
    def __init__(self, scratch):
        self.scratch = scratch

    def path(self, label):
        return os.path.join(self.scratch, "c23-{}-{}".format(os.getpid(), label))

    def written(self, path):
        if not os.path.exists(path):
            return None
        with open(path, "rb") as handle:
            content = handle.read()
        os.unlink(path)
        return content

    def check(self, sequence, options, positional=False, previous=None):
        """Exports directly and by way of a control, and compares."""
        direct, detour = self.path("direct"), self.path("detour")
        for path in (direct, detour):
            if os.path.exists(path):
                os.unlink(path)
            if previous is not None:
                with open(path, "wb") as handle:
                    handle.write(previous)
        before = snapshot(sequence)
        if positional:
            arguments = [
                options.get("file_format", "Q-CTRL expanded"),
                options.get("file_type", "CSV"),
                options.get("coordinates", "cylindrical"),
                options.get("maximum_rabi_rate", 2 * PI),
                options.get("maximum_detuning_rate", 2 * PI),
            ]
            _, error = attempt(sequence.export_to_file, direct, *arguments)
        else:
            _, error = attempt(sequence.export_to_file, filename=direct, **options)
        expect(snapshot(sequence) == before, "the export changed the sequence")
        control, refused = attempt(
            package.convert_dds_to_driven_control,
            dynamic_decoupling_sequence=sequence,
            maximum_rabi_rate=options.get("maximum_rabi_rate", 2 * PI),
            maximum_detuning_rate=options.get("maximum_detuning_rate", 2 * PI),
            minimum_segment_duration=0.0,
            name=sequence.name,
        )
        if refused is None:
            _, refused = attempt(
                control.export_to_file,
                filename=detour,
                **{
                    key: value
                    for key, value in options.items()
                    if not key.startswith("maximum")
                }
            )
        expect(
            (error is None) == (refused is None),
            "direct export {}, conversion and export {}",
            "succeeds" if error is None else "fails: {}".format(str(error)[:300]),
            "succeed" if refused is None else "fail: {}".format(str(refused)[:300]),
        )
        one, two = self.written(direct), self.written(detour)
        if error is not None:
            expect(one == previous, "a rejected export left {!r}", one and one[:200])
            return "rejected"
        expect(one is not None and two is not None, "no file was written")
        file_type = options.get("file_type", "CSV")
        coordinates = options.get("coordinates", "cylindrical")
        first = files.parse(one, file_type, coordinates)
        second = files.parse(two, file_type, coordinates)
        expect(
            first == second, "files differ: {} instead of {}", first, second
        )
        if file_type == "JSON":
            expect(
                first[1] == sequence.name,
                "name {!r} instead of {!r}",
                first[1],
                sequence.name,
            )
        segments = list(zip(*control_data(control)))
        files.compare(first[0], coordinates, segments)
        return (
            file_type,
            coordinates,
            rounded(tuple(tuple(segment) for segment in segments[:6]), 7),
        )

    def options(self, case):
        options = {}
        for key, name in (
            ("type", "file_type"),
            ("coordinates", "coordinates"),
            ("format", "file_format"),
            ("max rabi", "maximum_rabi_rate"),
            ("max detuning", "maximum_detuning_rate"),
        ):
            if case.get(key) is not None:
                options[name] = case[key]
        return options

    def run(self, case):
        duration = case["duration"]
        pulses = [
            (duration if slot == 1 else slot * duration,) + KINDS[kind]
            for slot, kind in zip(case["slots"], case["kinds"])
        ]
        sequence = make_sequence(duration, pulses, case["name"])
        return self.check(
            sequence,
            self.options(case),
            case.get("positional", False),
            case.get("previous"),
        )

    def run_predefined(self, case):
        keywords = dict(
            zip(PARAMETERS[case["family"]], case["parameters"]),
            duration=case["duration"],
            pre_post_rotation=case["rotations"],
            name=case["name"],
        )
        sequence = must(constructor(case["family"]), **keywords)
        return self.check(sequence, self.options(case))


SLOTS = [0, 0.25, 0.5, 0.8, 1]
PULSES = ["X", "Y", "-Z", "Z/2", "odd", "none", "mixed", "negative", "small"]


def shape(sizes, kinds):
    return [
        ("size", sizes),
        (
            "slots",
            lambda case: [
                list(item) for item in itertools.combinations(SLOTS, case["size"])
            ],
        ),
        (
            "kinds",
            lambda case: [
                list(item) for item in itertools.product(kinds, repeat=case["size"])
            ],
        ),
    ]


PARAMETER_SETS = {
    0: [()],
    1: [(1,), (2,), (3,), (4,), (6,)],
    2: [(1, 1), (2, 1), (1, 2), (3, 3), (2, 4)],
}


def families(tier, scratch):
    deep = tier == "thorough"
    exporter = Exporter(scratch)
    options = [("type", TYPES), ("coordinates", SYSTEMS)]
    return [
        Family(
            "sequences of pulses",
            shape([0, 1, 2, 3] if deep else [0, 1, 2], PULSES)
            + [
                ("duration", [10.0]),
                ("name", [None]),
                ("max rabi", [None, 2.0, 100.0]),
                ("max detuning", [None, 3.0]),
            ]
            + options,
            exporter.run,
        ),
        Family(
            "three pulses",
            shape([3], ["X", "-Z", "odd", "none"])
            + [
                ("duration", [10.0]),
                ("name", ["three"]),
                ("max rabi", [None, 30.0]),
                ("max detuning", [None]),
                ("type", ["CSV"]),
                ("coordinates", ["cartesian"]),
            ],
            exporter.run,
        ),
        Family(
            "options",
            shape([0, 1, 2], ["X", "-Z"])
            + [
                ("duration", [10.0, 1.0, 3]),
                ("name", [None, "", "a name", "Ω"]),
                ("max rabi", [None, 20.0]),
                ("max detuning", [None, 20.0]),
                ("type", [None, "CSV", "JSON", "XML"]),
                ("coordinates", [None, "cylindrical", "cartesian", "polar"]),
                ("format", [None, "Q-CTRL expanded"]),
                ("positional", [False, True]),
            ],
            exporter.run,
            deviations=8 if deep else 5,
        ),
        Family(
            "limits and formats",
            shape([0, 1], ["X", "-Z", "mixed"])
            + [
                ("duration", [10.0]),
                ("name", [None]),
                ("max rabi", [None, 0, -1.0, NAN, 1e-3, 1e9]),
                ("max detuning", [None, 0, -1.0, NAN, 1e-3, 1e9]),
                ("format", [None, "other", ""]),
                ("previous", [None, b"", b"previous content" * 100]),
            ]
            + options,
            exporter.run,
        ),
        Family(
            "time scales",
            shape([0, 1, 2], ["X", "-Z"])
            + [
                (
                    "duration",
                    [10.0 ** power for power in range(-12, 7)],
                ),
                ("name", [None]),
                ("max rabi", lambda case: [20 * PI / case["duration"], PI / case["duration"]]),
                ("max detuning", lambda case: [30 * PI / case["duration"]]),
            ]
            + options,
            exporter.run,
        ),
        Family(
            "predefined sequences",
            [
                ("family", sorted(PARAMETERS)),
                ("parameters", lambda case: PARAMETER_SETS[len(PARAMETERS[case["family"]])]),
                ("rotations", [False, True]),
                ("duration", [100.0, 1e-3]),
                ("name", [None, "predefined"]),
                ("max rabi", [None, 1e6]),
                ("max detuning", [None, 2e6]),
            ]
            + options,
            exporter.run_predefined,
        ),
    ]
