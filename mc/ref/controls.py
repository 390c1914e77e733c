"""
Segments of the predefined driven controls, from the publications.

Each function returns [(rotation angle, phase)] at full amplitude for a rotation
by theta about the X axis; WAMF1 is amplitude modulated and returns
[(rotation angle, phase)] of four segments of equal duration.
"""

import math

PI = math.pi


def primitive(theta):
    return [(theta, 0.0)]


def _wimperis(theta):
    return math.acos(max(-1.0, min(1.0, -theta / (4 * PI))))


def bb1(theta):
    phi = _wimperis(theta)
    return [(theta, 0.0), (PI, phi), (2 * PI, 3 * phi), (PI, phi)]


def sk1(theta):
    phi = _wimperis(theta)
    return [(theta, 0.0), (2 * PI, -phi), (2 * PI, phi)]


def corpse(theta):
    k = math.asin(math.sin(theta / 2) / 2)
    return [
        (2 * PI + theta / 2 - k, 0.0),
        (2 * PI - 2 * k, PI),
        (theta / 2 - k, 0.0),
    ]


def _inverse_sinc(value):
    """x in (0, pi] with sin(x)/x = value, by bisection."""
    low, high = 1e-9, PI
    for _ in range(200):
        middle = (low + high) / 2
        if math.sin(middle) / middle > value:
            low = middle
        else:
            high = middle
    return (low + high) / 2


def scrofulous(theta):
    first = _inverse_sinc(2 * math.cos(theta / 2) / PI)
    phase = math.acos(-PI * math.cos(first) / (2 * first * math.sin(theta / 2)))
    second = phase - math.acos(-PI / (2 * first))
    return [(first, phase), (PI, second), (first, phase)]


def corpse_in(outer, every):
    """CORPSE in place of the first (or every) segment of another control."""

    def build(theta):
        result = []
        for position, (angle, phase) in enumerate(outer(theta)):
            if every or position == 0:
                result.extend((a, phase + p) for a, p in corpse(angle))
            else:
                result.append((angle, phase))
        return result

    return build


def _wamf1_sensitivity(plus, minus):
    """
    First-order sensitivity to a constant detuning of four equally long segments
    with rotation angles plus, minus, minus, plus about the same axis: the
    integral of exp(i * accumulated angle).
    """
    total = 0j
    angle = 0.0
    for step in (plus, minus, minus, plus):
        total += (
            complex(math.cos(angle + step), math.sin(angle + step))
            - complex(math.cos(angle), math.sin(angle))
        ) / (1j * step)
        angle += step
    return total


def wamf1(theta):
    """
    The modulation depth follows from the requirement of first-order robustness,
    with the total angle theta + 2 pi * k of the publication.
    """
    total = theta + 2 * PI
    middle = complex(math.cos(total / 2), -math.sin(total / 2))

    def signed(depth):
        value = _wamf1_sensitivity((total + depth) / 4, (total - depth) / 4)
        return (value * middle).real

    low, high = 0.0, total * 0.999
    # the smallest root
    steps = 2000
    previous = signed(low)
    for step in range(1, steps + 1):
        depth = low + (high - low) * step / steps
        current = signed(depth)
        if (previous <= 0) != (current <= 0):
            a, b = low + (high - low) * (step - 1) / steps, depth
            for _ in range(100):
                c = (a + b) / 2
                if (signed(c) <= 0) == (previous <= 0):
                    a = c
                else:
                    b = c
            depth = (a + b) / 2
            break
        previous = current
    plus, minus = (total + depth) / 4, (total - depth) / 4
    return [(plus, 0.0), (minus, 0.0), (minus, 0.0), (plus, 0.0)]


CONTROLS = {
    "primitive": primitive,
    "bb1": bb1,
    "sk1": sk1,
    "scrofulous": scrofulous,
    "corpse": corpse,
    "corpse_in_bb1": corpse_in(bb1, False),
    "corpse_in_sk1": corpse_in(sk1, False),
    "corpse_in_scrofulous": corpse_in(scrofulous, True),
    "wamf1": wamf1,
}

# only three rotation angles are published for these
LISTED = ("scrofulous", "corpse_in_scrofulous", "wamf1")
# rotation angles are limited to 4 pi for these
LIMITED = ("bb1", "sk1", "corpse_in_bb1", "corpse_in_sk1")
