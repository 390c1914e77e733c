"""Access to the predefined driven controls and domains of their arguments."""

import math

from .common import control_data, expect, must, package
from .ref import controls as ref

PI = math.pi
NAMES = sorted(ref.CONTROLS)

AZIMUTHS = [0.0, 0.4, -0.4, PI / 2, PI, -PI, -PI / 2, 3 * PI / 2, 2 * PI, 7.5, -20.0, 1e-3]
RATES = [1.0, 2 * PI, 1e6, 2.5e-4, 3e9]
GRID = [k * PI / 48 for k in range(1, 193)]
ODD = [1e-6, 1e-3, 0.01, 1, 2.0, 3, 5.5, 6.0, 6.6, 9.42, 10, 12.0, 12.5, 12.566]
BEYOND = [4.5 * PI, 5 * PI, 20.0, 33, 100.0]
LISTED = [PI, PI / 2, PI / 4, 3.1415927, 1.5707963, 0.78539816]


# close to multiples of pi/4, where formulas may treat angles specially
ALMOST = [
    k * PI / 4 + sign * 10.0 ** -power
    for k in (1, 2, 3, 4, 6, 8, 12)
    for power in range(2, 9)
    for sign in (1, -1)
]


def rotations(name, fine=1):
    if name in ref.LISTED:
        return LISTED
    result = GRID[fine - 1 :: fine] + ODD
    if fine == 1:
        result = result + ALMOST
    if name not in ref.LIMITED:
        result = result + BEYOND
    return result


def nominal(name, theta):
    """The listed rotation angle that an almost equal one stands for."""
    if name in ref.LISTED:
        return min(LISTED[:3], key=lambda value: abs(value - theta))
    return theta


def constructor(name):
    return getattr(package, "new_{}_control".format(name))


def build(control, theta, rate, azimuth, **options):
    return must(
        constructor(control),
        rabi_rotation=theta,
        maximum_rabi_rate=rate,
        azimuthal_angle=azimuth,
        **options
    )


def segments_of(control):
    data = control_data(control)
    expect(len({len(part) for part in data}) == 1, "columns of different lengths")
    segments = list(zip(*data))
    for segment in segments:
        expect(segment[0] > 0, "segment of duration {!r}", segment[0])
        expect(segment[1] >= 0, "negative Rabi rate {!r}", segment[1])
        expect(all(math.isfinite(value) for value in segment), "segment {}", segment)
    return segments


_reference = {}


def reference(name, theta):
    key = (name, theta)
    if key not in _reference:
        _reference[key] = ref.CONTROLS[name](theta)
    return _reference[key]
