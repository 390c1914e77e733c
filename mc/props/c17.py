"""Contents of exported files."""

import os
import pathlib

from .. import files
from ..common import control_data, expect, must, rounded
from ..engine import Family
from ..objects import (
    CORE,
    DIFFERENT,
    KINDS,
    LONGEST,
    NAMES,
    PATTERNS,
    VERY_LONG,
    make_control,
    outliers,
    segments_for,
    word_of,
    words,
)

ASSUMPTIONS = [
    "Rabi rates and amplitudes are compared to 1e-14, everything else exactly",
    "the order of CSV columns is not part of the property",
]

TYPES = ["CSV", "JSON"]
SYSTEMS = ["cylindrical", "cartesian"]


class Exporter:
    def __init__(self, scratch):
        self.scratch = scratch

    def path(self, label):
        directory = os.path.join(self.scratch, "files-{}".format(os.getpid()))
        os.makedirs(directory, exist_ok=True)
        return os.path.join(directory, label)

    def export(self, case, control, segments, name):
        path = self.path(case.get("file", "export"))
        previous = case.get("previous")
        if os.path.exists(path):
            os.unlink(path)
        if previous is not None:
            with open(path, "wb") as handle:
                handle.write(previous)
        target = path
        if case.get("as") == "pathlib":
            target = pathlib.Path(path)
        elif case.get("as") == "relative":
            os.chdir(os.path.dirname(path))
            target = os.path.basename(path)
        before = repr(control_data(control))
        options = {}
        if case["type"] is not None:
            options["file_type"] = case["type"]
        if case["coordinates"] is not None:
            options["coordinates"] = case["coordinates"]
        if case.get("format"):
            options["file_format"] = "Q-CTRL expanded"
        if case.get("positional"):
            must(
                control.export_to_file,
                target,
                "Q-CTRL expanded",
                case["type"] or "CSV",
                case["coordinates"] or "cylindrical",
            )
        else:
            must(control.export_to_file, filename=target, **options)
        expect(repr(control_data(control)) == before, "the export changed the control")
        with open(path, "rb") as handle:
            content = handle.read()
        expect(
            os.listdir(os.path.dirname(path)) == [os.path.basename(path)],
            "other files: {}",
            os.listdir(os.path.dirname(path)),
        )
        os.unlink(path)
        coordinates = case["coordinates"] or "cylindrical"
        columns, found = files.parse(content, case["type"] or "CSV", coordinates)
        files.compare(columns, coordinates, segments)
        if case["type"] == "JSON":
            expect(found == name, "name {!r} instead of {!r}", found, name)
        return (
            case["type"],
            coordinates,
            rounded(sorted((k, repr(v)[:200]) for k, v in columns.items())),
        )

    def run(self, case):
        segments = segments_for(case["word"], case.get("time", 1.0))
        name = case.get("name")
        return self.export(case, make_control(segments, name), segments, name)

    def run_columns(self, case):
        segments = segments_for(case["word"])
        columns = case["columns"]
        control = make_control(segments, None, columns, case["style"])
        segments = [
            (
                d,
                r if "r" in columns else 0.0,
                a if "a" in columns else 0.0,
                z if "z" in columns else 0.0,
            )
            for d, r, a, z in segments
        ]
        return self.export(case, control, segments, None)

    def run_long(self, case):
        segments = segments_for(word_of(case))
        return self.export(case, make_control(segments), segments, None)


PREVIOUS = [
    None,
    b"",
    b"x",
    b"something else\n" * 1000,
    b"rabi_rates,azimuthal_angles,detuning,duration,maximum_rabi_rate\r\n1,2,3,4,5\r\n" * 20,
    b"{\"name\": \"old\"}",
]


def families(tier, scratch):
    deep = tier == "thorough"
    exporter = Exporter(scratch)
    options = [("type", TYPES), ("coordinates", SYSTEMS)]
    return [
        Family(
            "up to three segments",
            [("word", words(KINDS, [1, 2, 3] if deep else [1, 2]))] + options,
            exporter.run,
        ),
        Family(
            "more segments",
            [("word", words(CORE, [3, 4] if deep else [3]))] + options,
            exporter.run,
        ),
        Family(
            "names",
            [("word", words(CORE[:5], [1, 2])), ("name", NAMES)] + options,
            exporter.run,
        ),
        Family(
            "previous contents and file names",
            [
                ("word", words(CORE[:4], [1, 2])),
                ("previous", PREVIOUS),
                ("file", ["export", "with space.csv", "odd.JSON", "π"]),
                ("as", ["str", "pathlib", "relative"]),
                ("name", [None, "new"]),
            ]
            + options,
            exporter.run,
        ),
        Family(
            "defaults",
            [
                ("word", words(CORE, [1, 2])),
                ("type", [None, "CSV", "JSON"]),
                ("coordinates", [None, "cylindrical", "cartesian"]),
                ("format", [False, True]),
                ("positional", [False, True]),
                ("name", [None, "a"]),
            ],
            exporter.run,
        ),
        Family(
            "time scales",
            [
                ("word", words(CORE, [1, 2])),
                ("time", [10.0 ** power for power in range(-12, 10)]),
            ]
            + options,
            exporter.run,
        ),
        Family(
            "omitted columns",
            [
                ("word", words(CORE, [1, 2])),
                ("columns", ["", "r", "a", "z", "ra", "rz", "az"]),
                ("style", ["array", "list"]),
            ]
            + options,
            exporter.run_columns,
        ),
        Family(
            "one different segment",
            outliers([12, 140] if deep else [70], [["X"], ["idle"], ["third"]], DIFFERENT) + options,
            exporter.run_long,
        ),
        Family(
            "very long controls",
            [("length", VERY_LONG + (LONGEST if deep else [])), ("pattern", PATTERNS[-1:])]
            + options,
            exporter.run_long,
        ),
        Family(
            "long controls",
            [
                ("length", list(range(5, 30)) + [64, 100, 999, 1000, 1001, 2500]),
                ("pattern", PATTERNS),
            ]
            + options,
            exporter.run_long,
        ),
    ]
