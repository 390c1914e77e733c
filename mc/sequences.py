"""Access to the predefined sequences of the implementation, by family name."""

from .common import expect, must, near, package, same_angle, sequence_data
from .ref import sequences as ref

PARAMETERS = {
    "ramsey": (),
    "spin_echo": (),
    "carr_purcell": ("offset_count",),
    "cpmg": ("offset_count",),
    "uhrig": ("offset_count",),
    "periodic": ("offset_count",),
    "walsh": ("paley_order",),
    "quadratic": ("inner_offset_count", "outer_offset_count"),
    "x_concatenated": ("concatenation_order",),
    "xy_concatenated": ("concatenation_order",),
}


def constructor(family):
    return getattr(package, "new_{}_sequence".format(family))


def build(family, duration, parameters, **options):
    """Builds a sequence, parameters given by keyword."""
    keywords = dict(zip(PARAMETERS[family], parameters))
    keywords.update(options)
    return must(constructor(family), duration=duration, **keywords)


_cache = {}


def ideal(family, parameters):
    """The reference pulses [(time, kind)] with times as floats."""
    key = (family, tuple(parameters))
    if key not in _cache:
        if len(_cache) > 3000:
            _cache.clear()
        pulses = ref.FAMILIES[family](*[int(value) for value in parameters])
        _cache[key] = [(float(time), kind) for time, kind in pulses]
    return _cache[key]


def check_pulses(sequence, duration, pulses, tolerance=1e-10):
    """
    Compares a sequence with reference pulses. Each pulse must be a pi rotation
    about the axis of its kind at the right time.
    """
    got, offsets, rabi, azimuth, detuning = sequence_data(sequence)
    expect(got == duration, "duration is {} instead of {}", got, duration)
    expect(
        len(offsets) == len(pulses),
        "{} pulses instead of {}; times {} instead of {}",
        len(offsets),
        len(pulses),
        offsets[:40],
        [duration * time for time, _ in pulses[:40]],
    )
    for name, values in (
        ("Rabi rotations", rabi),
        ("azimuthal angles", azimuth),
        ("detuning rotations", detuning),
    ):
        expect(
            len(values) == len(offsets),
            "{} {} for {} pulses",
            len(values),
            name,
            len(offsets),
        )
    previous = -1.0
    for position, (time, kind) in enumerate(pulses):
        offset = offsets[position]
        expect(
            near(offset, time * duration, duration, tolerance),
            "pulse {} at {!r} instead of {!r}",
            position,
            offset,
            time * duration,
        )
        expect(
            0 <= offset <= duration,
            "pulse {} at {!r} outside of the sequence of duration {!r}",
            position,
            offset,
            duration,
        )
        expect(offset > previous, "pulse {} is not after the one before", position)
        previous = offset
        wanted = ref.PULSE[kind]
        right = near(rabi[position], wanted[0], 1.0) and near(
            detuning[position], wanted[2], 1.0
        )
        if kind != "Z":
            right = right and same_angle(azimuth[position], wanted[1])
        expect(
            right,
            "pulse {} is (rabi {}, azimuth {}, detuning {}) instead of {}",
            position,
            rabi[position],
            azimuth[position],
            detuning[position],
            kind,
        )


def digest(sequence):
    """Canonical form of a sequence for counting distinct states."""
    data = sequence_data(sequence)
    whole = tuple(tuple(part) if isinstance(part, list) else part for part in data)
    return (len(data[1]), data[0], tuple(data[1][:3]), hash(whole))
