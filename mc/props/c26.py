"""Algebra of the published operators."""

from ..common import expect, np, package
from ..engine import Family, count_call

ASSUMPTIONS = [
    "the operators are those exported by the constants module; the convention of "
    "the library is that the lowering operator is (X + iY) / 2"
]

LETTERS = ["X", "Y", "Z", "M", "P"]


def operators():
    from qctrlopencontrols import constants

    count_call()
    named = {
        "X": constants.SIGMA_X,
        "Y": constants.SIGMA_Y,
        "Z": constants.SIGMA_Z,
        "M": constants.SIGMA_M,
        "P": constants.SIGMA_P,
    }
    result = {}
    for letter, matrix in named.items():
        array = np.asarray(matrix)
        expect(array.shape == (2, 2), "{} has shape {}", letter, array.shape)
        expect(
            np.issubdtype(array.dtype, np.complexfloating),
            "{} is an array of {}",
            letter,
            array.dtype,
        )
        result[letter] = tuple(
            tuple(complex(value) for value in row) for row in array.tolist()
        )
    return result


# reference: what each operator does to the two basis states, as
# {input: (output, factor)}; absent inputs are annihilated
ACTIONS = {
    "X": {0: (1, 1), 1: (0, 1)},
    "Y": {0: (1, 1j), 1: (0, -1j)},
    "Z": {0: (0, 1), 1: (1, -1)},
    "M": {1: (0, 1)},
    "P": {0: (1, 1)},
}


def multiply(first, second):
    return tuple(
        tuple(sum(first[i][k] * second[k][j] for k in range(2)) for j in range(2))
        for i in range(2)
    )


def run_word(case):
    """A product of operators acts on the basis as the reference says."""
    published = operators()
    word = case["word"]
    product = ((1, 0), (0, 1))
    for letter in word:
        product = multiply(published[letter], product)
    for start in range(2):
        state, factor = start, 1
        for letter in word:
            action = ACTIONS[letter].get(state)
            if action is None:
                factor = 0
                break
            state, factor = action[0], factor * action[1]
        for end in range(2):
            wanted = factor if end == state else 0
            expect(
                abs(product[end][start] - wanted) < 1e-12,
                "{} maps {} to {} with {} instead of {}",
                word,
                start,
                end,
                product[end][start],
                wanted,
            )
    return tuple(
        (round(value.real, 6) + 0.0, round(value.imag, 6) + 0.0)
        for row in product
        for value in [complex(item) for item in row]
    )


def run_relations(case):
    published = operators()
    x, y, z = (np.array(published[letter]) for letter in "XYZ")
    lower, raising = np.array(published["M"]), np.array(published["P"])
    one = np.eye(2)
    relations = {
        "hermitian": [(m, m.conj().T) for m in (x, y, z)],
        "squares": [(m @ m, one) for m in (x, y, z)],
        "cyclic": [(x @ y, 1j * z), (y @ z, 1j * x), (z @ x, 1j * y)],
        "lowering": [(lower, (x + 1j * y) / 2)],
        "raising": [(raising, (x - 1j * y) / 2)],
        "adjoint": [(lower.conj().T, raising)],
        "nilpotent": [(lower @ lower, 0 * one), (raising @ raising, 0 * one)],
        "commutators": [
            (z @ lower - lower @ z, 2 * lower),
            (z @ raising - raising @ z, -2 * raising),
        ],
    }
    for left, right in relations[case["relation"]]:
        expect(np.allclose(left, right, atol=1e-12), "{}: {} != {}", case, left, right)
    return case["relation"]


def run_group(case):
    """Closure under multiplication gives exactly sixteen elements."""
    published = operators()
    generators = [published[letter] for letter in case["generators"]]
    seen = {((1, 0), (0, 1))}
    frontier = list(seen)
    while frontier:
        element = frontier.pop()
        for generator in generators:
            product = multiply(generator, element)
            product = tuple(
                tuple(complex(round(v.real, 9) + 0.0, round(v.imag, 9) + 0.0) for v in row)
                for row in [[complex(item) for item in row] for row in product]
            )
            if product not in seen:
                expect(len(seen) < 64, "the group does not close")
                seen.add(product)
                frontier.append(product)
    sizes = {"X": 2, "Y": 2, "Z": 2, "XY": 8, "YZ": 8, "ZX": 8, "XYZ": 16}
    expect(
        len(seen) == sizes[case["generators"]],
        "{} elements instead of {}",
        len(seen),
        sizes[case["generators"]],
    )
    return (case["generators"], len(seen))


def families(tier, scratch):
    import itertools

    depth = 7 if tier == "thorough" else 5
    words = [
        "".join(word)
        for size in range(1, depth + 1)
        for word in itertools.product(LETTERS, repeat=size)
    ]
    return [
        Family("words", [("word", words)], run_word),
        Family(
            "relations",
            [
                (
                    "relation",
                    [
                        "hermitian",
                        "squares",
                        "cyclic",
                        "lowering",
                        "raising",
                        "adjoint",
                        "nilpotent",
                        "commutators",
                    ],
                )
            ],
            run_relations,
        ),
        Family(
            "group",
            [("generators", ["X", "Y", "Z", "XY", "YZ", "ZX", "XYZ"])],
            run_group,
        ),
    ]
