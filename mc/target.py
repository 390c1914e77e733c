"""
Loads the implementation under test from the working tree in /repo.

Stale byte code is never used: sources are compiled afresh into memory (the
interpreter is told not to write byte code, and the cache directory is pointed
at an empty place).
"""

import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.pycache_prefix = "/nonexistent-bytecode-cache"
    import numpy

    numpy.seterr(all="ignore")
    import qctrlopencontrols as package

    origin = os.path.realpath(package.__file__)
    if not origin.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("implementation loaded from {}".format(origin))
    from qctrlopencontrols.exceptions import ArgumentsValueError

    return package, ArgumentsValueError
