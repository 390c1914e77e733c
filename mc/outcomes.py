"""
Makes calls in an interpreter started with particular options.

Run on its own with a scratch directory, a file for the answer and labels of calls;
writes what each of the calls gives.
"""

import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc.engine import Violation  # noqa: E402  pylint: disable=wrong-import-position
from mc.props.c20 import (  # noqa: E402  pylint: disable=wrong-import-position
    in_child,
    perform,
)


def main(scratch, answer, *labels):
    result = {}
    for label in labels:
        try:
            result[label] = in_child(lambda: perform(label, scratch)[0])
        except Violation as error:
            result[label] = str(error)
    with open(answer, "wb") as handle:
        pickle.dump(result, handle, protocol=4)


if __name__ == "__main__":
    main(*sys.argv[1:])
