"""
Ideal pulses of the predefined sequences.

Every function returns a list of (time, kind) with times as fractions of the
duration (exact fractions where they are rational) and kinds "X", "Y" and "Z"
for pi rotations.
"""

import math
from fractions import Fraction


def ramsey():
    return []


def spin_echo():
    return [(Fraction(1, 2), "X")]


def carr_purcell(count):
    return [(Fraction(2 * i - 1, 2 * count), "X") for i in range(1, count + 1)]


def cpmg(count):
    return [(Fraction(2 * i - 1, 2 * count), "Y") for i in range(1, count + 1)]


def uhrig_times(count):
    # sin^2(x) written with the double angle
    return [
        (1 - math.cos(math.pi * i / (count + 1))) / 2 for i in range(1, count + 1)
    ]


def uhrig(count):
    return [(time, "Y") for time in uhrig_times(count)]


def periodic(count):
    return [(Fraction(i, count + 1), "X") for i in range(1, count + 1)]


def paley(order, numerator, power):
    """
    Value of the Paley-ordered Walsh function in the dyadic interval
    [numerator, numerator + 1) / 2**power: the parity of the binary digits that
    the order (least significant first) and the interval (most significant
    first) have in common.
    """
    value = 1
    for digit in range(power):
        if (order >> digit) & 1 and (numerator >> (power - 1 - digit)) & 1:
            value = -value
    return value


def walsh(order):
    power = order.bit_length()
    size = 1 << power
    pulses = []
    previous = paley(order, 0, power)
    for numerator in range(1, size):
        current = paley(order, numerator, power)
        if current != previous:
            pulses.append((Fraction(numerator, size), "X"))
        previous = current
    return pulses


def quadratic(inner, outer):
    edges = [0.0] + uhrig_times(outer) + [1.0]
    pulses = []
    for position in range(outer + 1):
        start, end = edges[position], edges[position + 1]
        for time in uhrig_times(inner):
            pulses.append((start + (end - start) * time, "Z"))
        if position < outer:
            pulses.append((end, "X"))
    return pulses


def _combine(raw):
    """Merges coincident pulses: parities of X and Y, both together give Z."""
    pulses = []
    for time in sorted(raw):
        x, y = raw[time]
        kind = {(1, 0): "X", (0, 1): "Y", (1, 1): "Z", (0, 0): None}[(x % 2, y % 2)]
        if kind is not None:
            pulses.append((time, kind))
    return pulses


def x_concatenated(order):
    # C_l = C_(l-1) X C_(l-1) X; times counted in units of 1/2**l
    raw = {}
    length = 1
    for _ in range(order):
        doubled = {}
        for shift in (0, length):
            for time, (x, y) in raw.items():
                a, b = doubled.get(time + shift, (0, 0))
                doubled[time + shift] = (a + x, b + y)
        for time in (length, 2 * length):
            a, b = doubled.get(time, (0, 0))
            doubled[time] = (a + 1, b)
        raw = doubled
        length *= 2
    pulses = [(Fraction(time, length), kind) for time, kind in _combine(raw)]
    return [item for item in pulses if item[0] != 1]


def xy_concatenated(order):
    raw = {}
    length = 1
    for _ in range(order):
        longer = {}
        for part in range(4):
            for time, (x, y) in raw.items():
                a, b = longer.get(time + part * length, (0, 0))
                longer[time + part * length] = (a + x, b + y)
        for part, kind in ((1, "X"), (2, "Y"), (3, "X"), (4, "Y")):
            a, b = longer.get(part * length, (0, 0))
            longer[part * length] = (a + (kind == "X"), b + (kind == "Y"))
        raw = longer
        length *= 4
    return [(Fraction(time, length), kind) for time, kind in _combine(raw)]


FAMILIES = {
    "ramsey": ramsey,
    "spin_echo": spin_echo,
    "carr_purcell": carr_purcell,
    "cpmg": cpmg,
    "uhrig": uhrig,
    "periodic": periodic,
    "walsh": walsh,
    "quadratic": quadratic,
    "x_concatenated": x_concatenated,
    "xy_concatenated": xy_concatenated,
}

# (rabi rotation, azimuthal angle, detuning rotation) of each kind of pulse
PULSE = {
    "X": (math.pi, 0.0, 0.0),
    "Y": (math.pi, math.pi / 2, 0.0),
    "Z": (0.0, 0.0, math.pi),
}
