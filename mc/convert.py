"""Shared machinery of the conversion properties C01 to C03."""

import math

from .common import (
    attempt,
    control_data,
    expect,
    near,
    np,
    package,
    rounded,
    same_angle,
)
from .ref import convert as ref

PI = math.pi

# kinds of pulses: (rabi, azimuth, detuning)
KINDS = {
    "X": (PI, 0.0, 0.0),
    "Y": (PI, PI / 2, 0.0),
    "Z": (0.0, 0.0, PI),
    "X/2": (PI / 2, 0.0, 0.0),
    "-X/2": (PI / 2, PI, 0.0),
    "Z/2": (0.0, 0.0, PI / 2),
    "-Z": (0.0, 0.0, -PI),
    "-Z/4": (0.0, 0.0, -PI / 4),
    "odd": (1.0, -2.2, 0.0),
    "wound": (0.75 * PI, 7.5, 0.0),
    "long": (3 * PI, 0.4, 0.0),
    "small": (1e-3, 2.0, 0.0),
    "small Z": (0.0, 0.0, 1e-3),
    "none": (0.0, 0.0, 0.0),
    "none tilted": (0.0, 1.3, 0.0),
    "Z tilted": (0.0, 1.3, PI / 2),
    "very long": (17.0, -0.4, 0.0),
    "very long Z": (0.0, 0.0, -17.0),
    "tiny": (2e-7, 1.0, 0.0),
    "tiny Z": (0.0, 0.0, -2e-7),
    "far wound": (2.0, -75.0, 0.0),
    "negative": (-PI, 0.0, 0.0),
    "mixed": (PI, 0.0, PI / 2),
    "mixed negative": (PI, 0.0, -PI / 2),
    "mixed small": (1e-3, 0.0, -1e-3),
    "mixed tiny": (1e-5, 0.3, -1e-5),
    "X with a trace of Z": (PI, 0.0, 1e-9),
    "Z with a trace of X": (1e-9, 0.0, PI),
    "trace of negative": (-1e-9, 0.0, 0.0),
}


def pulses_of(case, duration):
    """[(offset, rabi, azimuth, detuning)] for slots and kinds of a case."""
    return [
        (offset_of(slot, duration),) + KINDS[kind]
        for slot, kind in zip(case["slots"], case["kinds"])
    ]


def offset_of(slot, duration):
    if slot == 1:
        return duration
    return slot * duration


def make_sequence(duration, pulses, name=None):
    columns = list(zip(*pulses)) if pulses else [(), (), (), ()]
    return package.DynamicDecouplingSequence(
        duration=duration,
        offsets=np.array(columns[0], dtype=float),
        rabi_rotations=np.array(columns[1], dtype=float),
        azimuthal_angles=np.array(columns[2], dtype=float),
        detuning_rotations=np.array(columns[3], dtype=float),
        name=name,
    )


def convert(duration, pulses, max_rabi, max_detuning, minimum, name=None, style=0):
    """Runs the conversion; returns (control or None, verdict, intervals)."""
    sequence = make_sequence(duration, pulses, name="the sequence")
    before = snapshot(sequence)
    function = package.convert_dds_to_driven_control
    if style == 1:
        control, error = attempt(
            function, sequence, max_rabi, max_detuning, minimum, name
        )
    elif style == 2 and minimum == 0:
        control, error = attempt(
            function,
            dynamic_decoupling_sequence=sequence,
            maximum_rabi_rate=max_rabi,
            maximum_detuning_rate=max_detuning,
            name=name,
        )
    else:
        control, error = attempt(
            function,
            dynamic_decoupling_sequence=sequence,
            maximum_rabi_rate=max_rabi,
            maximum_detuning_rate=max_detuning,
            minimum_segment_duration=minimum,
            name=name,
        )
    expect(snapshot(sequence) == before, "the conversion changed its argument")
    if error is None:
        expect(
            isinstance(control, package.DrivenControl), "result is {}", type(control)
        )
        expect(control.name == name, "name is {!r} instead of {!r}", control.name, name)
    verdict, intervals = ref.plan(duration, pulses, max_rabi, max_detuning, minimum)
    return control, verdict, intervals


def snapshot(sequence):
    return (
        sequence.duration,
        sequence.offsets.tobytes(),
        sequence.rabi_rotations.tobytes(),
        sequence.azimuthal_angles.tobytes(),
        sequence.detuning_rotations.tobytes(),
        sequence.name,
    )


def segments_of(control):
    data = control_data(control)
    expect(
        len({len(column) for column in data}) == 1,
        "columns of different lengths: {}",
        [len(column) for column in data],
    )
    segments = list(zip(*data))
    for segment in segments:
        expect(segment[0] > 0, "segment of duration {!r}", segment[0])
        expect(all(math.isfinite(value) for value in segment), "segment {}", segment)
        expect(segment[1] >= 0, "negative Rabi rate {!r}", segment[1])
    return segments


def check_fidelity(control, duration, intervals, tolerance=5e-8):
    """
    The control performs exactly the reference pulses (C01). The tolerance (of times,
    as a fraction of the duration) is that with which the library accepts pulses that
    overlap; if there is no overlap it can be much smaller.
    """
    segments = segments_of(control)
    sliver = tolerance * duration
    wanted = ref.expected_timeline(intervals, sliver)
    active, end = ref.timeline(segments, sliver)
    expect(
        near(end, duration, duration, 2 * tolerance),
        "the control lasts {!r} instead of {!r}",
        end,
        duration,
    )
    expect(
        len(active) == len(wanted),
        "{} active stretches instead of {}: {} instead of {}",
        len(active),
        len(wanted),
        active,
        wanted,
    )
    for got, want in zip(active, wanted):
        good = (
            near(got[0], want[0], duration, tolerance)
            and near(got[1], want[1], duration, tolerance)
            and near(got[5], want[5], max(PI, want[5]), 1e-9)
            and near(got[6], want[6], max(PI, abs(want[6])), 1e-9)
            and (got[2] == 0) == (want[2] == 0)
            and (got[4] == 0) == (want[4] == 0)
        )
        if want[2] != 0:
            good = good and same_angle(got[3], want[3])
        expect(
            good,
            "active stretch [start, end, rabi, azimuth, detuning, angles] {} instead of {}",
            got,
            want,
        )
    return segments


def check_limits(control, duration, max_rabi, max_detuning, minimum):
    """The control stays within its limits (C02)."""
    segments = segments_of(control)
    for length, rabi, _, detuning in segments:
        # segment boundaries are rounded to the precision of the sequence duration
        slack = 1e-9 + 2e-15 * duration / length
        expect(
            rabi <= max_rabi * (1 + slack),
            "Rabi rate {!r} above the maximum {!r}",
            rabi,
            max_rabi,
        )
        expect(
            abs(detuning) <= max_detuning * (1 + slack),
            "detuning {!r} above the maximum {!r}",
            detuning,
            max_detuning,
        )
        expect(
            length >= minimum * (1 - 2e-5) - 2e-8 * duration,
            "segment of {!r} below the minimum {!r}",
            length,
            minimum,
        )
        # a pulse is stretched only as far as the minimum requires
        if length > minimum * (1 + 1e-6) + 5e-8 * duration:
            if rabi > 0:
                expect(
                    near(rabi, max_rabi, max_rabi, slack),
                    "pulse of {!r} at rate {!r} instead of the maximum {!r}",
                    length,
                    rabi,
                    max_rabi,
                )
            if detuning != 0:
                expect(
                    near(abs(detuning), max_detuning, max_detuning, slack),
                    "pulse of {!r} at detuning {!r} instead of the maximum {!r}",
                    length,
                    detuning,
                    max_detuning,
                )
    return segments


def describe(segments):
    return rounded(tuple(segments), 7)
