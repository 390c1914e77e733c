"""Predefined sequences all the way to the file."""

import math
import os

from .. import files
from ..common import expect, floats, must, near, package, rounded
from ..engine import Family
from ..ref import su2
from ..ref.sequences import PULSE
from ..sequences import PARAMETERS, build, ideal

ASSUMPTIONS = [
    "the ideal pulses come from the reference model, the evolution from an "
    "independent quaternion model; they are compared to 1e-7",
    "sequences whose pulses coincide (XY of odd order with post-rotation) cannot be "
    "converted and are left out",
]

PI = math.pi


def target(family, parameters):
    net = su2.IDENTITY
    for _, kind in ideal(family, parameters):
        net = su2.multiply(su2.pulse(*PULSE[kind]), net)
    return net


class Pipeline:
    def __init__(self, scratch):
        self.scratch = scratch

    def run(self, case):
        family, duration = case["family"], case["duration"]
        parameters = [case[name] for name in PARAMETERS[family]]
        times = [time for time, _ in ideal(family, parameters)]
        if case["rotations"]:
            if times and (times[0] == 0 or times[-1] == 1):
                return "coincident pulses"
        sequence = build(
            family,
            duration,
            parameters,
            pre_post_rotation=case["rotations"],
            name="pipeline",
        )
        marks = sorted({0.0, 1.0} | set(times))
        gap = min(b - a for a, b in zip(marks, marks[1:])) * duration
        rabi = PI / (case["width"] * gap)
        detuning = rabi * case["ratio"]
        path = os.path.join(self.scratch, "c24-{}".format(os.getpid()))
        options = {"file_type": case["type"], "coordinates": case["coordinates"]}
        if case["way"] == "sequence":
            must(
                sequence.export_to_file,
                filename=path,
                maximum_rabi_rate=rabi,
                maximum_detuning_rate=detuning,
                **options
            )
        else:
            minimum = {"convert": 0.0, "minimum": case["width"] * gap / 8}[case["way"]]
            control = must(
                package.convert_dds_to_driven_control,
                dynamic_decoupling_sequence=sequence,
                maximum_rabi_rate=rabi,
                maximum_detuning_rate=detuning,
                minimum_segment_duration=minimum,
                name="pipeline",
            )
            must(control.export_to_file, filename=path, **options)
        with open(path, "rb") as handle:
            content = handle.read()
        os.unlink(path)
        columns, name = files.parse(content, case["type"], case["coordinates"])
        if case["type"] == "JSON":
            expect(name == "pipeline", "name {!r}", name)
        segments = files.segments_in(columns, case["coordinates"])
        total = math.fsum(segment[0] for segment in segments)
        expect(
            near(total, duration, duration, 1e-7),
            "the control lasts {!r} instead of {!r}",
            total,
            duration,
        )
        for length, rate, _, shift in segments:
            expect(length > 0, "segment of {!r}", length)
            slack = 1e-7 + 2e-15 * duration / length
            expect(
                rate <= rabi * (1 + slack) and abs(shift) <= detuning * (1 + slack),
                "rates {!r} and {!r} above {!r} and {!r}",
                rate,
                shift,
                rabi,
                detuning,
            )
        net = su2.evolve(segments)
        if case["rotations"]:
            away = min(su2.distance(net, su2.IDENTITY), su2.distance(net, su2.Z))
        else:
            away = su2.distance(net, target(family, parameters))
        expect(away < 1e-7, "the evolution is {} away from the ideal one", away)
        return rounded((len(segments), total, tuple(segments[:4])), 7)


def families(tier, scratch):
    deep = tier == "thorough"
    pipeline = Pipeline(scratch)
    tail = [
        ("rotations", [False, True]),
        ("duration", [1.0, 3.7e-6]),
        ("width", [0.1, 0.45, 1e-3, 1e-7]),
        ("ratio", [1.0, 2.5]),
        ("way", ["sequence", "convert", "minimum"]),
        ("type", ["CSV", "JSON"]),
        ("coordinates", ["cylindrical", "cartesian"]),
    ]
    # the same with one deviation at a time for the large ones
    counts = list(range(1, 13))
    more = list(range(13, 40 if deep else 26)) + [32, 50, 64, 100] + ([200, 256] if deep else [])
    orders = {"x_concatenated": [1, 2, 3, 4, 5, 6, 7], "xy_concatenated": [1, 2, 3]}
    high = {"x_concatenated": [8, 9, 10], "xy_concatenated": [4, 5] if deep else [4]}
    paley = [1 << k for k in range(11)] + [(1 << k) - 1 for k in range(2, 11)]
    return [
        Family("simple", [("family", ["ramsey", "spin_echo"])] + tail, pipeline.run),
        Family(
            "counted",
            [
                ("family", ["carr_purcell", "cpmg", "uhrig", "periodic"]),
                ("offset_count", counts),
            ]
            + tail,
            pipeline.run,
        ),
        Family(
            "many pulses",
            [
                ("family", ["carr_purcell", "cpmg", "uhrig", "periodic"]),
                ("offset_count", more),
            ]
            + tail,
            pipeline.run,
            deviations=4 if deep else 3,
        ),
        Family(
            "walsh",
            [("family", ["walsh"]), ("paley_order", list(range(1, 65)))] + tail,
            pipeline.run,
            deviations=4 if deep else 3,
        ),
        Family(
            "high walsh",
            [("family", ["walsh"]), ("paley_order", paley + [2000, 1365, 1999])] + tail,
            pipeline.run,
            deviations=2,
        ),
        Family(
            "quadratic",
            [
                ("family", ["quadratic"]),
                ("inner_offset_count", list(range(1, 9))),
                ("outer_offset_count", list(range(1, 9))),
            ]
            + tail,
            pipeline.run,
            deviations=5 if deep else 4,
        ),
        Family(
            "concatenated",
            [
                ("family", ["x_concatenated", "xy_concatenated"]),
                ("concatenation_order", lambda case: orders[case["family"]]),
            ]
            + tail,
            pipeline.run,
        ),
        Family(
            "highly concatenated",
            [
                ("family", ["x_concatenated", "xy_concatenated"]),
                ("concatenation_order", lambda case: high[case["family"]]),
            ]
            + tail,
            pipeline.run,
            deviations=3,
        ),
    ]
