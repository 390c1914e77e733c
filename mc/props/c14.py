"""Modulated Gaussian controls."""

import math
from fractions import Fraction

from ..common import (
    NAN,
    attempt,
    expect,
    near,
    np,
    package,
    rounded,
)
from ..controls import segments_of
from ..engine import Family
from ..ref import su2

ASSUMPTIONS = [
    "samples of the envelope are compared to 1e-9 of the maximum Rabi rate plus the "
    "rounding error of the modulation phase",
    "if the sinusoid is sampled so close to its zeros that its values drown in "
    "rounding errors, only the identity and the limits are checked",
    "the net effect of the control is computed with an independent quaternion model",
]

PI = math.pi
# smallest maximum Rabi rate, times the duration
NEEDED = math.sqrt(2 * PI) / 0.1


def sample(duration, frequency, count):
    """Exact midpoints of the segments in cycles of the modulation and widths."""
    cycles = Fraction(float(frequency)) * Fraction(float(duration))
    result = []
    for k in range(count):
        position = Fraction(2 * k + 1 - count, 2 * count)
        envelope = math.exp(-0.5 * (float(position) / 0.1) ** 2)
        turn = cycles * position
        turn -= math.floor(turn + Fraction(1, 2))
        if turn in (0, Fraction(1, 2), Fraction(-1, 2)):
            wave = 0.0
        else:
            wave = math.sin(2 * PI * float(turn))
        result.append((envelope, wave, abs(float(cycles * position))))
    return result


def run(case):
    duration = case["duration"]
    minimum = duration / case["ratio"]
    rate = case["rate"] * NEEDED / duration
    frequency = case["cycles"] / duration
    return check(rate, minimum, duration, frequency)


def check(rate, minimum, duration, frequency):
    control, error = attempt(
        package.new_modulated_gaussian_control,
        maximum_rabi_rate=rate,
        minimum_segment_duration=minimum,
        duration=duration,
        modulation_frequency=frequency,
    )
    valid = rate > 0 and minimum > 0 and duration > minimum
    if valid and not math.isclose(rate * duration, NEEDED, rel_tol=1e-12):
        valid = rate * duration > NEEDED
    elif valid:
        # within rounding errors of the smallest rate
        valid = error is None
    expect(
        valid == (error is None),
        "valid={} but the result was {}",
        valid,
        error if error is not None else "a control",
    )
    if error is not None:
        return "rejected"
    expect(isinstance(control, package.DrivenControl), "result is {}", type(control))
    segments = segments_of(control)
    count = len(segments)
    ratio = float(Fraction(float(duration)) / Fraction(float(minimum)))
    expect(
        count in (math.floor(ratio), math.floor(ratio * (1 + 1e-12) + 2e-9)),
        "{} segments for a ratio of {!r}",
        count,
        ratio,
    )
    for length, _, azimuth, detuning in segments:
        expect(detuning == 0, "detuning {}", detuning)
        expect(
            near(length, duration / count, duration / count, 1e-9),
            "segments of unequal length: {}",
            length,
        )
        expect(
            length >= minimum * (1 - 1e-8),
            "segment of {!r} below the minimum {!r}",
            length,
            minimum,
        )
        expect(abs(math.sin(azimuth)) < 1e-9, "azimuth {}", azimuth)
    total = math.fsum(segment[0] for segment in segments)
    expect(near(total, duration, duration, 1e-9), "total duration {!r}", total)
    values = [rabi * math.cos(azimuth) for _, rabi, azimuth, _ in segments]
    scale = rate * duration
    largest = max(abs(value) for value in values)
    exact = sample(duration, frequency, count)
    signal = [envelope * wave for envelope, wave, _ in exact]
    peak = max(signal)
    phases = max(phase for _, _, phase in exact) * 2 * PI
    # relative effect of the rounding of the modulation phases on the values
    noise = 0.0
    if frequency != 0 and peak > 0:
        noise = 1e-15 * phases * max(envelope for envelope, _, _ in exact) / peak
    away = su2.distance(su2.evolve(segments), su2.IDENTITY)
    expect(
        away < 1e-9 + (1e-14 + noise) * scale,
        "the net rotation is {} off identity",
        away,
    )

    if frequency == 0:
        peak = max(envelope for envelope, _, _ in exact)
        shape = [envelope / peak for envelope, _, _ in exact]
        possible = math.fsum(shape) * rate * duration / count / (2 * PI)
        turns = sum(values) * duration / count / (2 * PI)
        wanted = max(1, math.floor(possible))
        if abs(possible - round(possible)) < 1e-9:
            wanted = min((wanted, max(1, round(possible)), max(1, round(possible) - 1)), key=lambda n: abs(n - turns))
        expect(
            near(turns, wanted, wanted), "{} turns instead of {}", turns, wanted
        )
        if possible >= 1:
            expect(
                largest <= rate * (1 + 1e-9), "rate {!r} above {!r}", largest, rate
            )
        for value, part in zip(values, shape):
            expect(
                near(value, part * wanted / possible * rate, rate),
                "envelope {!r} instead of {!r}",
                value,
                part * wanted / possible * rate,
            )
        return rounded(tuple(values), 7)

    slack = min(1e-9 + 10 * noise, 1e-3)
    expect(largest <= rate * (1 + slack), "rate {!r} above {!r}", largest, rate)
    for value, mirrored in zip(values, reversed(values)):
        expect(
            near(value, -mirrored, rate, 1e-9 + 10 * noise),
            "not antisymmetric: {!r} and {!r}",
            value,
            mirrored,
        )
    if peak == 0:
        expect(largest == 0, "rate {!r} of a modulation that vanishes", largest)
        return ("vanishing", count)
    if noise > 1e-3 or max(abs(w) for _, w, _ in exact) < 1e-11 * phases:
        return ("drowned", count)
    expect(near(largest, rate, rate, slack), "largest rate {!r} instead of {!r}", largest, rate)
    for value, part in zip(values, signal):
        expect(
            near(value, part / peak * rate, rate, slack),
            "value {!r} instead of {!r}",
            value,
            part / peak * rate,
        )
    return rounded(tuple(values), 7)


def run_arguments(case):
    return check(case["rate"], case["minimum"], case["duration"], case["frequency"])


RATIOS = [1.0000001, 1.5, 1.999, 2, 2.5, 3, 3.3, 4, 5, 7.3, 10, 11, 16.5, 33.3, 50, 64, 99.999, 100, 101]
FACTORS = [1.0, 1.0001, 1.3, 2, 2.5, 3, 5, 10.3, 100, 0.9999, 0.5]


def cycles(case):
    half = math.floor(case["ratio"] + 1e-9) / 2
    plain = [0, 0.1, 0.25, 0.5, 1, 1.5, 2, 3, 3.7, 5, 10, 12.5, 20, 50, 123.4, 1e4, 1e6]
    aliased = [half, 2 * half, 3 * half, 10 * half, half * 0.5, half * 0.999, half + 0.5, 2 * half + 1]
    return plain + aliased + [-value for value in plain[1:] + aliased]


def families(tier, scratch):
    deep = tier == "thorough"
    return [
        Family(
            "shapes",
            [
                ("ratio", RATIOS + [200, 500, 1000] if deep else RATIOS),
                ("rate", FACTORS),
                ("cycles", cycles),
                ("duration", [1.0, 3.7e-6] if not deep else [1.0, 3.7e-6, 10, 0.3, 2.5e-8]),
            ],
            run,
        ),
        Family(
            "segment counts",
            [
                ("ratio", [k / 8 for k in range(9, 8 * (140 if not deep else 260))]),
                ("rate", [1.7]),
                ("cycles", [0, 0.7, 3]),
                ("duration", [1.0, 3e-7]),
            ],
            run,
        ),
        Family(
            "turns at zero frequency",
            [
                ("ratio", [2, 3, 10, 50.5, 100]),
                ("rate", [1 + k / 16 for k in range(-3, 120)]),
                ("cycles", [0]),
                ("duration", [1.0, 2.5e-5]),
            ],
            run,
        ),
        Family(
            "frequencies",
            [
                ("ratio", [2, 9, 20, 31]),
                ("rate", [1.7]),
                ("cycles", [k / 8 for k in range(-400, 401)]),
                ("duration", [1.0, 2.5e-5]),
            ],
            run,
        ),
        Family(
            "time scales",
            [
                ("ratio", [1.5, 2, 9.7, 50]),
                ("rate", [1.0001, 3.3, 0.99]),
                ("cycles", [0, 0.3, 5, 25, -2]),
                ("duration", [m * 10.0 ** power for power in range(-12, 10) for m in (1, 2.3)]),
            ],
            run,
        ),
        Family(
            "slow modulations",
            [
                ("ratio", [1.5, 2, 3, 9.7, 50, 51]),
                ("rate", [1.0001, 3.3, 40]),
                (
                    "cycles",
                    [sign * m * 10.0 ** -power for power in range(1, 13) for m in (1, 2.3) for sign in (1, -1)],
                ),
                ("duration", [1.0, 2.5e-8, 86400.0]),
            ],
            run,
        ),
        Family(
            "long controls",
            [
                ("ratio", [500, 1000.5, 3000, 4100, 8200] + ([10000, 16400, 33000, 66000] if deep else [])),
                ("rate", [1.5, 40]),
                ("cycles", [0, 2, 13.3]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "very long controls",
            [
                ("ratio", [16400, 66000, 140000] if deep else [16400, 66000]),
                ("rate", [1.5]),
                ("cycles", [0, 2]),
                ("duration", [1.0]),
            ],
            run,
        ),
        Family(
            "arguments",
            [
                ("rate", [100.0, 0, -1.0, 1e-9, 25, 30, NAN, 1e9]),
                ("minimum", [0.1, 0, -0.1, 1, 1.0, 2, NAN, 0.33, 1e-3]),
                ("duration", [1.0, 1, 2, 0, -1.0, 0.1, 0.05, NAN, 10]),
                ("frequency", [3.0, 0, 0.0, 1, -2, 5]),
            ],
            run_arguments,
        ),
    ]
