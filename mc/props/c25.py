"""Derived views of changing objects."""

import math
import os

from .. import files
from ..common import control_data, expect, must, near, np, package, sequence_data
from ..controls import NAMES as CONTROLS
from ..convert import check_fidelity
from ..engine import Family
from ..ref import convert as ref_convert
from . import c15, c18, c19

ASSUMPTIONS = [
    "the public data are the numpy arrays of the object, its duration and its name",
    "every history starts from a fresh object",
]

PI = math.pi


def column_of(name):
    return {"durations": 0, "rabi_rates": 1, "azimuthal_angles": 2, "detunings": 3}[name]


class ControlWorld:
    """A control under test and the segments it should have."""

    def __init__(self, scratch, start):
        self.scratch = scratch
        self.control = must(start)
        data = control_data(self.control)
        self.segments = [list(segment) for segment in zip(*data)]
        self.name = self.control.name

    def set_column(self, name, values):
        position = column_of(name)
        for segment, value in zip(self.segments, values):
            segment[position] = float(value)

    def tuples(self):
        return [tuple(segment) for segment in self.segments]

    # reads

    def scalars(self):
        c15.check(self.control, self.tuples())

    def text(self):
        c19.check_control_text(self.control, self.tuples(), self.name)

    def plot(self, coordinates, normalised):
        c18.check_control(
            self.control,
            self.tuples(),
            {"coordinates": coordinates, "normalised": normalised},
        )

    def export(self, file_type, coordinates):
        path = os.path.join(self.scratch, "c25-{}".format(os.getpid()))
        must(
            self.control.export_to_file,
            filename=path,
            file_type=file_type,
            coordinates=coordinates,
        )
        with open(path, "rb") as handle:
            content = handle.read()
        columns, name = files.parse(content, file_type, coordinates)
        files.compare(columns, coordinates, self.tuples())
        if file_type == "JSON":
            expect(name == self.name, "exported name {!r}", name)

    def everything(self):
        self.scalars()
        self.text()
        for coordinates in ("cylindrical", "cartesian"):
            for normalised in (True, False):
                self.plot(coordinates, normalised)
            for file_type in ("CSV", "JSON"):
                self.export(file_type, coordinates)

    def unchanged(self):
        data = control_data(self.control)
        expect(
            data == tuple(list(column) for column in zip(*self.segments)),
            "the data became {}",
            data,
        )
        expect(self.control.name == self.name, "the name became {!r}", self.control.name)

    # edits

    def edit(self, name, position, value):
        getattr(self.control, name)[position] = value
        self.segments[position][column_of(name)] = float(value)

    def scale(self, name, factor):
        array = getattr(self.control, name)
        array *= factor
        for segment in self.segments:
            segment[column_of(name)] = segment[column_of(name)] * factor

    def reverse(self, *names):
        for name in names:
            array = getattr(self.control, name)
            array[:] = array[::-1].copy()
            self.set_column(
                name, [segment[column_of(name)] for segment in reversed(self.segments)]
            )

    def replace(self, name, values):
        values = values[: len(self.segments)]
        values = values + [values[-1]] * (len(self.segments) - len(values))
        setattr(self.control, name, np.array(values, dtype=float))
        self.set_column(name, values)

    def resize(self, segments):
        self.segments = [list(segment) for segment in segments]
        for name in ("durations", "rabi_rates", "azimuthal_angles", "detunings"):
            values = [segment[column_of(name)] for segment in segments]
            setattr(self.control, name, np.array(values, dtype=float))

    def rename(self, name):
        self.control.name = name
        self.name = name


COLUMNS = {
    "durations": [1.0, 0.5],
    "rabi_rates": [PI, 2.0],
    "azimuthal_angles": [0.4, -1.0],
    "detunings": [0.5, -3.0],
}


def control_with(*names, **options):
    """Makes a control from some of the columns."""

    def make():
        columns = {
            name: np.array(COLUMNS[name], dtype=float) for name in names
        }
        return package.DrivenControl(name="first", **columns, **options)

    return make


def called(function, *arguments, **keywords):
    return lambda: getattr(package, function)(*arguments, **keywords)


def converted():
    return package.convert_dds_to_driven_control(
        package.new_quadratic_sequence(10.0, 1, 2), 20.0, 30.0, name="converted"
    )


CONTROL_STARTS = {
    "given": control_with("durations", "rabi_rates", "azimuthal_angles", "detunings"),
    "durations": control_with("durations"),
    "durations and Rabi rates": control_with("durations", "rabi_rates"),
    "durations and azimuths": control_with("durations", "azimuthal_angles"),
    "durations and detunings": control_with("durations", "detunings"),
    "no Rabi rates": control_with("durations", "azimuthal_angles", "detunings"),
    "no azimuths": control_with("durations", "rabi_rates", "detunings"),
    "no detunings": control_with("durations", "rabi_rates", "azimuthal_angles"),
    "lists": lambda: package.DrivenControl(**COLUMNS),
    "zeros": lambda: package.DrivenControl([1.0, 2.0], [0.0, 0.0], [0, 0.0], [0.0, 0]),
    "Gaussian": called("new_modulated_gaussian_control", 10.0, 2.5, 10.0, 0.3),
    "still Gaussian": called("new_modulated_gaussian_control", 10.0, 2.5, 10.0, 0),
    "converted": converted,
    "converted free evolution": lambda: package.convert_dds_to_driven_control(
        package.new_ramsey_sequence(10.0), 20.0, 30.0
    ),
}
for name in CONTROLS:
    CONTROL_STARTS[name] = called("new_{}_control".format(name), PI / 2, 2.0, 0.3)

CONTROL_EVENTS = {
    "read numbers": lambda world: world.scalars(),
    "read text": lambda world: world.text(),
    "read cylindrical plot": lambda world: world.plot("cylindrical", True),
    "read cartesian plot": lambda world: world.plot("cartesian", True),
    "read raw plot": lambda world: world.plot("cylindrical", False),
    "write CSV": lambda world: world.export("CSV", "cylindrical"),
    "write JSON": lambda world: world.export("JSON", "cartesian"),
    "edit Rabi rate": lambda world: world.edit("rabi_rates", 0, 7.0),
    "clear Rabi rate": lambda world: world.edit("rabi_rates", 0, 0.0),
    "edit duration": lambda world: world.edit("durations", -1, 3.25),
    "edit azimuth": lambda world: world.edit("azimuthal_angles", 0, 2.5),
    "edit detuning": lambda world: world.edit("detunings", -1, 6.5),
    "scale Rabi rates": lambda world: world.scale("rabi_rates", 0.5),
    "scale durations": lambda world: world.scale("durations", 2.0),
    "scale detunings": lambda world: world.scale("detunings", -1.0),
    "reverse": lambda world: world.reverse(*COLUMNS),
    "reverse Rabi rates": lambda world: world.reverse("rabi_rates"),
    "replace Rabi rates": lambda world: world.replace("rabi_rates", [0.0, 5.0, 1.0]),
    "replace durations": lambda world: world.replace("durations", [0.1, 0.2, 0.3]),
    "replace azimuths": lambda world: world.replace("azimuthal_angles", [9.0, 0.0, 1.0]),
    "replace detunings": lambda world: world.replace("detunings", [0.0, -2.0, 4.0]),
    "grow": lambda world: world.resize([(0.2, 1.0, 0.0, 0.0), (0.3, 0.0, 0.0, 2.0), (0.4, 3.0, 1.0, -1.0)]),
    "shrink": lambda world: world.resize([(2.0, 0.0, 0.0, -1.0)]),
    "rename": lambda world: world.rename("second"),
    "unname": lambda world: world.rename(None),
}

# for deeper histories
CONTROL_CORE = [
    "read numbers",
    "read text",
    "read cartesian plot",
    "write CSV",
    "write JSON",
    "edit Rabi rate",
    "edit duration",
    "edit azimuth",
    "edit detuning",
    "scale Rabi rates",
    "reverse",
    "replace durations",
    "grow",
    "rename",
]


class SequenceWorld:
    """A sequence under test and the pulses it should have."""

    FIELDS = {
        "offsets": 0,
        "rabi_rotations": 1,
        "azimuthal_angles": 2,
        "detuning_rotations": 3,
    }

    def __init__(self, scratch, start):
        self.scratch = scratch
        self.sequence = must(start)
        data = sequence_data(self.sequence)
        self.duration = data[0]
        self.pulses = [list(pulse) for pulse in zip(*data[1:])]
        self.name = self.sequence.name
        # whether every history keeps the sequence in the domain of the conversion
        self.strict = start is SEQUENCE_STARTS["given"]

    def tuples(self):
        return [tuple(pulse) for pulse in self.pulses]

    def text(self):
        c19.check_sequence_text(self.sequence, self.duration, self.tuples(), self.name)

    def plot(self):
        import cmath

        result = must(self.sequence.export)
        expect(set(result) == {"Rabi", "Detuning"}, "keys {}", sorted(result))
        keys = ("rotation", "offset")
        c18.check_entries(
            "Rabi",
            result["Rabi"],
            [(r * cmath.exp(1j * a), t, r) for t, r, a, _ in self.tuples()],
            keys,
        )
        c18.check_entries(
            "Detuning",
            result["Detuning"],
            [(z, t, z) for t, _, _, z in self.tuples()],
            keys,
        )

    def convert(self, rabi, detuning, minimum=0.0):
        verdict, intervals = ref_convert.plan(
            self.duration, self.tuples(), rabi, detuning, minimum
        )
        if verdict != ref_convert.ACCEPT:
            expect(not self.strict, "the history leads out of the domain")
            return
        control = must(
            package.convert_dds_to_driven_control,
            dynamic_decoupling_sequence=self.sequence,
            maximum_rabi_rate=rabi,
            maximum_detuning_rate=detuning,
            minimum_segment_duration=minimum,
        )
        check_fidelity(control, self.duration, intervals)

    def export(self, file_type, coordinates):
        path = os.path.join(self.scratch, "c25-{}".format(os.getpid()))
        verdict, intervals = ref_convert.plan(
            self.duration, self.tuples(), 20.0, 30.0, 0.0
        )
        if verdict != ref_convert.ACCEPT:
            expect(not self.strict, "the history leads out of the domain")
            return
        must(
            self.sequence.export_to_file,
            filename=path,
            file_type=file_type,
            coordinates=coordinates,
            maximum_rabi_rate=20.0,
            maximum_detuning_rate=30.0,
        )
        with open(path, "rb") as handle:
            content = handle.read()
        columns, name = files.parse(content, file_type, coordinates)
        if file_type == "JSON":
            expect(name == self.name, "exported name {!r}", name)
        segments = files.segments_in(columns, coordinates)
        active, end = ref_convert.timeline(segments, 5e-8 * self.duration)
        wanted = ref_convert.expected_timeline(intervals, 5e-8 * self.duration)
        expect(
            near(end, self.duration, self.duration, 1e-7)
            and len(active) == len(wanted),
            "the file has {} instead of {}",
            active,
            wanted,
        )
        for got, want in zip(active, wanted):
            expect(
                all(near(a, b, self.duration, 1e-7) for a, b in zip(got[:2], want[:2]))
                and near(got[2], want[2], 1.0, 1e-7)
                and near(got[4], want[4], 1.0, 1e-7)
                and (want[2] == 0 or c15_same_angle(got[3], want[3])),
                "the file has {} instead of {}",
                got,
                want,
            )

    def everything(self):
        self.text()
        self.plot()
        self.convert(20.0, 30.0)
        self.convert(40.0, 25.0, 0.01)
        self.export("CSV", "cylindrical")
        self.export("JSON", "cartesian")

    def unchanged(self):
        data = sequence_data(self.sequence)
        columns = [list(column) for column in zip(*self.pulses)] or [[]] * 4
        expect(
            data == (self.duration,) + tuple(columns), "the data became {}", data
        )
        expect(
            self.sequence.name == self.name, "the name became {!r}", self.sequence.name
        )

    def edit(self, name, position, value):
        if not self.pulses:
            return
        getattr(self.sequence, name)[position] = value
        self.pulses[position][self.FIELDS[name]] = float(value)

    def stretch(self, factor):
        """Multiplies all times in place."""
        self.duration = self.duration * factor
        self.sequence.duration = self.duration
        offsets = self.sequence.offsets
        offsets *= factor
        for pulse in self.pulses:
            pulse[0] = pulse[0] * factor

    def reverse(self):
        """Reverses the rotations in place, keeping the times."""
        for name, position in self.FIELDS.items():
            if name != "offsets":
                array = getattr(self.sequence, name)
                array[:] = array[::-1].copy()
                values = [pulse[position] for pulse in reversed(self.pulses)]
                for pulse, value in zip(self.pulses, values):
                    pulse[position] = value

    def mirror(self):
        """Mirrors the times in place, keeping the rotations."""
        offsets = self.sequence.offsets
        offsets[:] = self.duration - offsets[::-1]
        values = [self.duration - pulse[0] for pulse in reversed(self.pulses)]
        for pulse, value in zip(self.pulses, values):
            pulse[0] = value

    def lengthen(self):
        self.duration = self.duration + 4.0
        self.sequence.duration = self.duration

    def resize(self, pulses):
        pulses = [(t * self.duration, r, a, z) for t, r, a, z in pulses]
        self.pulses = [list(pulse) for pulse in pulses]
        for name, position in self.FIELDS.items():
            setattr(
                self.sequence,
                name,
                np.array([pulse[position] for pulse in pulses], dtype=float),
            )

    def rename(self, name):
        self.sequence.name = name
        self.name = name


def c15_same_angle(first, second):
    return abs(math.cos(first) - math.cos(second)) < 1e-9 and abs(
        math.sin(first) - math.sin(second)
    ) < 1e-9


SEQUENCE_STARTS = {
    "given": lambda: package.DynamicDecouplingSequence(
        10.0,
        np.array([2.0, 5.0, 8.0]),
        np.array([PI, 0.0, 1.0]),
        np.array([0.4, 0.0, -1.0]),
        np.array([0.0, -1.0, 0.0]),
        name="first",
    ),
    "lists": called(
        "DynamicDecouplingSequence", 10.0, [2.0, 8.0], [1.0, 2.0], [0.0, 0.0], [0.0, 0]
    ),
    "zeros": called(
        "DynamicDecouplingSequence", 10.0, [0.0, 8.0], [0.0, 0.0], [0.0, 0.0], [0.0, 0]
    ),
}
for name, parameters in (
    ("ramsey", ()),
    ("spin_echo", ()),
    ("carr_purcell", (2,)),
    ("cpmg", (2,)),
    ("uhrig", (3,)),
    ("periodic", (2,)),
    ("walsh", (5,)),
    ("quadratic", (1, 2)),
    ("x_concatenated", (2,)),
    ("xy_concatenated", (1,)),
    ("xy_concatenated", (2,)),
):
    for closed in (False, True):
        SEQUENCE_STARTS[
            " ".join([name] + [str(item) for item in parameters] + ["closed"] * closed)
        ] = called(
            "new_{}_sequence".format(name), 10.0, *parameters, pre_post_rotation=closed
        )


def edit_pulse(world):
    """Turns the first pulse into a detuning pulse and back."""
    if not world.pulses:
        return
    if world.pulses[0][1]:
        world.edit("rabi_rotations", 0, 0.0)
        world.edit("detuning_rotations", 0, 2.0)
    else:
        world.edit("detuning_rotations", 0, 0.0)
        world.edit("rabi_rotations", 0, 2.0)


def scale_rotations(world):
    array = world.sequence.rabi_rotations
    array *= 0.5
    for pulse in world.pulses:
        pulse[1] = pulse[1] * 0.5


SEQUENCE_EVENTS = {
    "read text": lambda world: world.text(),
    "read plot": lambda world: world.plot(),
    "convert": lambda world: world.convert(20.0, 30.0),
    "convert otherwise": lambda world: world.convert(40.0, 25.0, 0.01),
    "write CSV": lambda world: world.export("CSV", "cylindrical"),
    "write JSON": lambda world: world.export("JSON", "cartesian"),
    "move first pulse": lambda world: world.edit("offsets", 0, 1.25),
    "move first pulse to start": lambda world: world.edit("offsets", 0, 0.0),
    "turn first axis": lambda world: world.edit("azimuthal_angles", 0, 2.5),
    "change first pulse": edit_pulse,
    "weaken pulses": scale_rotations,
    "stretch": lambda world: world.stretch(2.0),
    "reverse rotations": lambda world: world.reverse(),
    "mirror times": lambda world: world.mirror(),
    "lengthen": lambda world: world.lengthen(),
    "replace by two": lambda world: world.resize([(0.0, 1.0, 0.0, 0.0), (1.0, 2.0, 1.0, 0.0)]),
    "replace by four": lambda world: world.resize(
        [(0.2, 1.0, 0.0, 0.0), (0.4, 0.0, 0.0, 1.0), (0.6, 0.0, 0.0, -1.0), (0.9, PI, 3.0, 0.0)]
    ),
    "replace by none": lambda world: world.resize([]),
    "rename": lambda world: world.rename("second"),
    "unname": lambda world: world.rename(None),
}


# for deeper histories
SEQUENCE_CORE = [
    "read text",
    "read plot",
    "convert",
    "convert otherwise",
    "write JSON",
    "move first pulse",
    "turn first axis",
    "change first pulse",
    "stretch",
    "reverse rotations",
    "replace by four",
    "rename",
]

# single changes of longer objects, between two complete readings

LENGTHS = [1, 2, 3, 4, 9, 17, 40]
LONG = [1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 65, 130]


def long_control(length):
    return package.DrivenControl(
        np.array([0.5 + 0.37 * (i % 7) + 0.011 * i for i in range(length)]),
        np.array([1.0 + 0.83 * (i % 5) + 0.013 * i for i in range(length)]),
        np.array([-2.0 + 0.71 * (i % 6) + 0.017 * i for i in range(length)]),
        np.array([3.0 - 1.37 * (i % 4) - 0.019 * i for i in range(length)]),
        name="long",
    )


def long_sequence(length):
    """Rabi pulses at even and detuning pulses at odd positions."""
    return package.DynamicDecouplingSequence(
        10.0 * length,
        np.array([10.0 * i + 4.0 + 0.07 * (i % 5) for i in range(length)]),
        np.array([0.0 if i % 2 else 1.0 + 0.031 * (i % 9) for i in range(length)]),
        np.array([0.0 if i % 2 else -2.0 + 0.071 * (i % 11) for i in range(length)]),
        np.array([1.5 - 0.53 * (i % 7) if i % 2 else 0.0 for i in range(length)]),
        name="long",
    )


def change(columns, kind, name, at):
    """
    New values {(column, position): value}, or None if the change does not make sense.
    """
    column = columns[name]
    value = column[at]
    signed = name in ("azimuthal_angles", "detunings", "detuning_rotations")
    times = name in ("durations", "offsets")
    step = 2 if "offsets" in columns else 1
    if kind == "nudge":
        return {(name, at): value * (1 + 3e-8)}
    if kind == "negate":
        return {(name, at): -value} if signed and value else None
    if kind == "clear":
        return None if times or not value else {(name, at): 0.0}
    if kind == "turn":
        return {(name, at): value + 2 * PI} if name == "azimuthal_angles" else None
    if at + step >= len(column) or name == "offsets":
        return None
    other = column[at + step]
    if kind == "swap":
        return {(name, at): other, (name, at + step): value}
    # keeps the sum
    part = (min(value, other) if not signed else 1.0) / 4
    if not part:
        return None
    return {(name, at): value + part, (name, at + step): other - part}


KINDS = ["nudge", "negate", "clear", "turn", "swap", "balance"]
WAYS = ["in place", "another array"]


def positions(length):
    if length <= 9:
        return list(range(length))
    return sorted({0, 1, 7, 8, 9, length // 2, length - 4, length - 3, length - 2, length - 1})


def single_changes(world_class, make, names, scratch):
    def run(case):
        world = world_class(scratch, lambda: make(case["length"]))
        rows = world.segments if world_class is ControlWorld else world.pulses
        thing = world.control if world_class is ControlWorld else world.sequence
        columns = {name: [row[i] for row in rows] for i, name in enumerate(names)}
        changed = change(columns, case["change"], case["column"], case["position"])
        if changed is None:
            return "none"
        world.everything()
        if case["way"] == "another array":
            setattr(thing, case["column"], np.array(getattr(thing, case["column"])))
        for (name, at), value in changed.items():
            getattr(thing, name)[at] = value
            rows[at][list(names).index(name)] = value
        world.everything()
        world.unchanged()
        return repr(sorted(changed.items()))

    return run


def runner(scratch, world_class, starts, events):
    def run(case):
        world = world_class(scratch, starts[case["start"]])
        for position in range(case["depth"]):
            label = case["event {}".format(position + 1)]
            try:
                events[label](world)
                world.unchanged()
            except Exception as error:
                raise type(error)("event {} ({}): {}".format(position + 1, label, error))
        world.everything()
        world.unchanged()
        return repr((world.name, getattr(world, "pulses", None) or world.__dict__.get("segments"), world.__dict__.get("duration")))

    return run


def history(starts, events, depths):
    labels = list(events)
    deepest = max(depths)
    dims = [("start", starts), ("depth", depths)]
    for position in range(deepest):
        dims.append(
            (
                "event {}".format(position + 1),
                lambda case, position=position: labels
                if position < case["depth"]
                else [None],
            )
        )
    return dims


def families(tier, scratch):
    deep = tier == "thorough"
    lengths = LONG if deep else LENGTHS

    def single(name, world_class, make, names):
        return Family(
            name,
            [
                ("length", lengths),
                ("column", list(names)),
                ("position", lambda case: positions(case["length"])),
                ("change", KINDS),
                ("way", WAYS),
            ],
            single_changes(world_class, make, names, scratch),
        )

    result = [
        single("single changes of controls", ControlWorld, long_control, tuple(COLUMNS)),
        single(
            "single changes of sequences",
            SequenceWorld,
            long_sequence,
            tuple(SequenceWorld.FIELDS),
        ),
        Family(
            "histories of a control",
            history(["given"], CONTROL_EVENTS, [0, 1, 2, 3]),
            runner(scratch, ControlWorld, CONTROL_STARTS, CONTROL_EVENTS),
        ),
        Family(
            "histories of a sequence",
            history(["given"], SEQUENCE_EVENTS, [0, 1, 2, 3]),
            runner(scratch, SequenceWorld, SEQUENCE_STARTS, SEQUENCE_EVENTS),
        ),
        Family(
            "histories of other controls",
            history(list(CONTROL_STARTS), CONTROL_EVENTS, [0, 1, 2]),
            runner(scratch, ControlWorld, CONTROL_STARTS, CONTROL_EVENTS),
        ),
        Family(
            "histories of other sequences",
            history(list(SEQUENCE_STARTS), SEQUENCE_EVENTS, [0, 1, 2]),
            runner(scratch, SequenceWorld, SEQUENCE_STARTS, SEQUENCE_EVENTS),
        ),
    ]
    if deep:
        for start, depth in (("given", [4]), (None, [3])):
            result.append(
                Family(
                    "deeper histories of {} controls".format(start or "other"),
                    history([start] if start else list(CONTROL_STARTS), CONTROL_CORE, depth),
                    runner(scratch, ControlWorld, CONTROL_STARTS, CONTROL_EVENTS),
                )
            )
            result.append(
                Family(
                    "deeper histories of {} sequences".format(start or "other"),
                    history([start] if start else list(SEQUENCE_STARTS), SEQUENCE_CORE, depth),
                    runner(scratch, SequenceWorld, SEQUENCE_STARTS, SEQUENCE_EVENTS),
                )
            )
    return result
