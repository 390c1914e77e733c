"""
Known findings: defects of the implementation that are not repaired.

KNOWN_FINDINGS.txt is written by hand. Lines starting with `fixed:` only record
repaired defects and suppress nothing. A line

    open: property=<id> family=<name> indices=<i,j,...> <what fails>

names one specific input; only a violation at exactly that input is reported as
a known finding.
"""

import os

from . import engine


def match(identifier, violation):
    if violation is None:
        return None
    path = os.path.join(engine.HERE, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return None
    key = "family={} indices={} ".format(
        violation["family"], ",".join(str(i) for i in violation["indices"])
    )
    with open(path) as handle:
        for line in handle:
            prefix = "open: property={} ".format(identifier) + key
            if line.startswith(prefix):
                return line[len(prefix) :].strip()
    return None
