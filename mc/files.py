"""Reading of exported files, independent of the library."""

import csv
import io
import json
import math

from .common import expect

COMMON = {"duration", "detuning", "maximum_rabi_rate"}
FIELDS = {
    "cylindrical": COMMON | {"rabi_rates", "azimuthal_angles"},
    "cartesian": COMMON | {"amplitude_x", "amplitude_y"},
}


def reject_constant(text):
    raise ValueError("not a number in the file: {}".format(text))


def parse(content, file_type, coordinates):
    """
    Parses the content (bytes) of an exported file. Returns (columns, name) with
    columns a dictionary of lists of floats except for the maximum Rabi rate.
    """
    text = content.decode("utf-8")
    fields = FIELDS[coordinates]
    name = None
    if file_type == "CSV":
        reader = csv.reader(io.StringIO(text, newline=""), strict=True)
        rows = list(reader)
        expect(len(rows) > 1, "no rows in the file: {!r}", text[:300])
        header = rows[0]
        expect(sorted(header) == sorted(fields), "header is {}", header)
        columns = {field: [] for field in fields}
        for row in rows[1:]:
            expect(len(row) == len(header), "row {}", row)
            for field, value in zip(header, row):
                columns[field].append(float(value))
        maxima = set(columns["maximum_rabi_rate"])
        expect(len(maxima) == 1, "different maximum Rabi rates {}", maxima)
        columns["maximum_rabi_rate"] = maxima.pop()
    else:
        columns = json.loads(text, parse_constant=reject_constant)
        expect(isinstance(columns, dict), "the file contains {!r}", text[:300])
        if "name" in columns:
            name = columns.pop("name")
            expect(isinstance(name, str), "name is {!r}", name)
        expect(set(columns) == fields, "fields are {}", sorted(columns))
        for field, values in columns.items():
            if field == "maximum_rabi_rate":
                values = [values]
            expect(isinstance(values, list), "{} is {!r}", field, values)
            for value in values:
                expect(
                    isinstance(value, (int, float)) and not isinstance(value, bool),
                    "{} contains {!r}",
                    field,
                    value,
                )
    lengths = set()
    for field, values in columns.items():
        if field == "maximum_rabi_rate":
            values = [values]
        else:
            lengths.add(len(values))
        expect(all(math.isfinite(v) for v in values), "{} is {}", field, values[:20])
    expect(len(lengths) == 1, "columns of different lengths {}", lengths)
    return columns, name


def segments_in(columns, coordinates):
    """(duration, rabi, azimuth, detuning) of the parsed columns."""
    largest = columns["maximum_rabi_rate"]
    if coordinates == "cylindrical":
        rabi = [value * largest for value in columns["rabi_rates"]]
        azimuth = columns["azimuthal_angles"]
    else:
        rabi = [
            math.hypot(x, y) * largest
            for x, y in zip(columns["amplitude_x"], columns["amplitude_y"])
        ]
        azimuth = [
            math.atan2(y, x)
            for x, y in zip(columns["amplitude_x"], columns["amplitude_y"])
        ]
    return list(zip(columns["duration"], rabi, azimuth, columns["detuning"]))


def compare(columns, coordinates, segments, tolerance=1e-14):
    """The parsed columns describe exactly the given segments."""
    expect(
        len(columns["duration"]) == len(segments),
        "{} segments in the file instead of {}",
        len(columns["duration"]),
        len(segments),
    )
    largest = columns["maximum_rabi_rate"]
    wanted = max(segment[1] for segment in segments)
    expect(largest == wanted, "maximum Rabi rate {} instead of {}", largest, wanted)
    for position, (duration, rabi, azimuth, detuning) in enumerate(segments):
        expect(
            columns["duration"][position] == duration
            and columns["detuning"][position] == detuning,
            "segment {} has duration {!r} and detuning {!r}, not {!r} and {!r}",
            position,
            columns["duration"][position],
            columns["detuning"][position],
            duration,
            detuning,
        )
        if coordinates == "cylindrical":
            got = columns["rabi_rates"][position]
            expect(
                abs(got * largest - rabi) <= tolerance * rabi and got <= 1 and got >= 0,
                "Rabi rate {!r} of segment {} (maximum {!r}) instead of {!r}",
                got,
                position,
                largest,
                rabi,
            )
            got = columns["azimuthal_angles"][position]
            expect(
                got == azimuth,
                "azimuthal angle {!r} of segment {} instead of {!r}",
                got,
                position,
                azimuth,
            )
        else:
            for label, factor in (
                ("amplitude_x", math.cos(azimuth)),
                ("amplitude_y", math.sin(azimuth)),
            ):
                got = columns[label][position]
                expect(
                    abs(got * largest - rabi * factor) <= tolerance * rabi,
                    "{} {!r} of segment {} (maximum {!r}) instead of {!r}",
                    label,
                    got,
                    position,
                    largest,
                    rabi * factor,
                )
