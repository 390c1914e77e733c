"""Helpers shared by the properties."""

import math

from . import target
from .engine import Violation, count_call

package, ArgumentsValueError = target.load()
import numpy as np  # noqa: E402  pylint: disable=wrong-import-position

PI = math.pi
NAN = float("nan")


def attempt(function, *arguments, **keywords):
    """
    Calls the library. Returns (result, None) or (None, error) if the library
    rejected the arguments; anything else that is raised propagates and counts
    as a violation.
    """
    count_call()
    try:
        return function(*arguments, **keywords), None
    except ArgumentsValueError as error:
        return None, error


def must(function, *arguments, **keywords):
    """Calls the library with arguments that have to be accepted."""
    result, error = attempt(function, *arguments, **keywords)
    if error is not None:
        raise Violation("valid arguments were rejected: {}".format(str(error)[:600]))
    return result


def floats(array):
    """A one-dimensional array as a list of floats."""
    return [float(value) for value in np.asarray(array).tolist()]


def control_data(control):
    """(durations, rabi_rates, azimuthal_angles, detunings) as lists."""
    return (
        floats(control.durations),
        floats(control.rabi_rates),
        floats(control.azimuthal_angles),
        floats(control.detunings),
    )


def sequence_data(sequence):
    """(duration, offsets, rabi, azimuth, detuning) with lists."""
    return (
        float(sequence.duration),
        floats(sequence.offsets),
        floats(sequence.rabi_rotations),
        floats(sequence.azimuthal_angles),
        floats(sequence.detuning_rotations),
    )


def expect(condition, message, *details):
    if not condition:
        raise Violation(message.format(*details))


def near(value, wanted, scale=None, tolerance=1e-9):
    """Equal up to rounding, relative to `scale` (default: the wanted value)."""
    if scale is None:
        scale = abs(wanted)
    return abs(value - wanted) <= tolerance * scale


def same_angle(first, second, tolerance=1e-9):
    """Equal modulo a full turn."""
    return (
        abs(math.cos(first) - math.cos(second)) <= tolerance
        and abs(math.sin(first) - math.sin(second)) <= tolerance
    )


def rounded(value, digits=9):
    """A float rounded to significant digits, for the canonical form of states."""
    if isinstance(value, (list, tuple)):
        return tuple(rounded(item, digits) for item in value)
    if isinstance(value, float):
        if value == 0 or value != value:
            return 0.0 if value == 0 else "nan"
        return float("%.*e" % (digits, value))
    return value
