"""
Rotations of a single qubit as unit quaternions (w, x, y, z).

The unitary exp(-i theta/2 n.sigma) is (cos theta/2, sin theta/2 n); a global
phase of -1 flips the sign of all four components.
"""

import math

IDENTITY = (1.0, 0.0, 0.0, 0.0)


def rotation(angle, axis):
    """Rotation by an angle about a vector that need not be normalised."""
    norm = math.sqrt(axis[0] ** 2 + axis[1] ** 2 + axis[2] ** 2)
    if norm == 0 or angle == 0:
        return IDENTITY
    sine = math.sin(angle / 2) / norm
    return (math.cos(angle / 2), sine * axis[0], sine * axis[1], sine * axis[2])


def multiply(second, first):
    """The rotation `first` followed by the rotation `second`."""
    a, b, c, d = second
    e, f, g, h = first
    return (
        a * e - b * f - c * g - d * h,
        a * f + b * e + c * h - d * g,
        a * g - b * h + c * e + d * f,
        a * h + b * g - c * f + d * e,
    )


def inverse(q):
    return (q[0], -q[1], -q[2], -q[3])


def rotate(q, vector):
    """The vector rotated by q."""
    result = multiply(multiply(q, (0.0,) + tuple(vector)), inverse(q))
    return result[1:]


def distance(first, second):
    """Distance up to a global phase (zero if and only if they are equal)."""
    plus = math.sqrt(sum((a - b) ** 2 for a, b in zip(first, second)))
    minus = math.sqrt(sum((a + b) ** 2 for a, b in zip(first, second)))
    return min(plus, minus)


def segment(duration, rabi, azimuth, detuning):
    """Evolution over one segment of constant drive."""
    vector = (rabi * math.cos(azimuth), rabi * math.sin(azimuth), detuning)
    size = math.sqrt(rabi * rabi + detuning * detuning)
    return rotation(size * duration, vector)


def evolve(segments):
    """Evolution over (duration, rabi, azimuth, detuning) segments."""
    total = IDENTITY
    for item in segments:
        total = multiply(segment(*item), total)
    return total


def pulse(rabi, azimuth, detuning):
    """Ideal pulse of given rotation angles."""
    return segment(1.0, rabi, azimuth, detuning)


def rotation_vector(q):
    """angle * axis of a rotation close to the identity."""
    w, x, y, z = q
    if w < 0:
        w, x, y, z = -w, -x, -y, -z
    size = math.sqrt(x * x + y * y + z * z)
    if size == 0:
        return (0.0, 0.0, 0.0)
    angle = 2 * math.atan2(size, w)
    return (x / size * angle, y / size * angle, z / size * angle)


X = rotation(math.pi, (1, 0, 0))
Y = rotation(math.pi, (0, 1, 0))
Z = rotation(math.pi, (0, 0, 1))
