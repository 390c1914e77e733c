"""Settings of a process, and what they are before and after loading the library.

Run on its own with a settings label, a scratch directory, a file for the answer and
the names of modules, this loads the modules in a process that has not loaded the
library before and writes what loading them changed.
"""

import decimal
import gc
import importlib
import json
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

ENVIRONMENT = ["HOME", "TMPDIR", "PYTHONHASHSEED", "QCTRL", "LC_NUMERIC"]


def usual(scratch):
    """The settings a process starts with."""


def other_directory(scratch):
    path = os.path.join(scratch, "c32 directory {}".format(os.getpid()))
    os.makedirs(path, exist_ok=True)
    os.chdir(path)


def coarse_printing(scratch):
    np.set_printoptions(precision=2, threshold=3, suppress=True, edgeitems=1, linewidth=20)


def old_printing(scratch):
    np.set_printoptions(legacy="1.13", sign=" ")


def strange_printing(scratch):
    np.set_printoptions(formatter={"all": lambda value: "?"}, floatmode="fixed")


def seeded(scratch):
    random.seed(7)
    np.random.seed(7)


def seeded_otherwise(scratch):
    random.seed(8)
    np.random.seed(8)


def coarse_decimals(scratch):
    decimal.getcontext().prec = 3
    decimal.getcontext().rounding = decimal.ROUND_UP


def strict_mask(scratch):
    os.umask(0o077)


def open_mask(scratch):
    os.umask(0)


def other_environment(scratch):
    for name in ENVIRONMENT:
        os.environ[name] = "something else"


def no_environment(scratch):
    os.environ.clear()


def shallow(scratch):
    sys.setrecursionlimit(250)


def error_log(scratch):
    logging.getLogger().setLevel(logging.DEBUG)


def no_collection(scratch):
    gc.disable()


def strict_warnings(scratch):
    warnings.simplefilter("error")
    warnings.simplefilter("ignore", RuntimeWarning)


def strict_numbers(scratch):
    np.seterr(divide="raise", invalid="raise")


def from_a_thread(scratch):
    """Handled by the caller: the call is made in another thread."""


# label -> function that brings the process into that state
SETTINGS = {
    "usual": usual,
    "other directory": other_directory,
    "coarse printing": coarse_printing,
    "old printing": old_printing,
    "strange printing": strange_printing,
    "seeded": seeded,
    "seeded otherwise": seeded_otherwise,
    "coarse decimals": coarse_decimals,
    "strict file mask": strict_mask,
    "open file mask": open_mask,
    "other environment": other_environment,
    "no environment": no_environment,
    "shallow": shallow,
    "logging everything": error_log,
    "no garbage collection": no_collection,
    "warnings are errors": strict_warnings,
    "divisions by zero are errors": strict_numbers,
    "in a thread": from_a_thread,
}
def mask():
    value = os.umask(0o022)
    os.umask(value)
    return value


def descriptors():
    result = {}
    for number in os.listdir("/proc/self/fd"):
        try:
            result[int(number)] = os.readlink("/proc/self/fd/" + number)
        except OSError:
            # the descriptor of the listing itself
            pass
    return result


def handlers():
    result = {}
    for number in range(1, signal.NSIG):
        try:
            result[number] = signal.getsignal(number)
        except ValueError:
            pass
    return result


def random_state():
    name, keys, *rest = np.random.get_state()
    return (name, keys.tobytes(), rest)


def printing():
    result = dict(np.get_printoptions())
    result["formatter"] = id(result.get("formatter") and result["formatter"].get("all"))
    return result


MONITORS = {
    "working directory": os.getcwd,
    "environment": lambda: dict(os.environ),
    "file mask": mask,
    "open files": descriptors,
    "NumPy error handling": np.geterr,
    "NumPy error callback": lambda: repr(np.geterrcall()),
    "NumPy print options": printing,
    "NumPy random numbers": random_state,
    "random numbers": random.getstate,
    "warning filters": lambda: list(warnings.filters),
    "recursion limit": sys.getrecursionlimit,
    "signal handlers": handlers,
    "alarm": lambda: signal.getitimer(signal.ITIMER_VIRTUAL),
    "decimal context": lambda: repr(decimal.getcontext()),
    "locale": lambda: locale.setlocale(locale.LC_ALL),
    "threads": lambda: sorted(thread.name for thread in threading.enumerate()),
    "module path": lambda: list(sys.path),
    "log level": lambda: (
        logging.getLogger().level,
        list(logging.getLogger().handlers),
        logging.root.manager.disable,
    ),
    "garbage collection": gc.isenabled,
    "hooks": lambda: (sys.excepthook, sys.displayhook, sys.stdout, sys.stderr, sys.stdin),
    "time zone": lambda: (time.tzname, time.timezone),
    "temporary directory": lambda: tempfile.tempdir,
}


def look():
    return {name: monitor() for name, monitor in MONITORS.items()}


def changes(before, after):
    return [
        "the {} from {} to {}".format(name, str(value)[:300], str(after[name])[:300])
        for name, value in before.items()
        if after[name] != value
    ]


def load(settings, scratch, answer, *names):
    warnings.filterwarnings("ignore", message="never seen")
    np.seterr(all="warn", under="ignore")
    SETTINGS[settings](scratch)
    look()
    before = look()
    result = []
    for name in names:
        try:
            importlib.import_module(name)
        except (Exception, SystemExit) as error:  # pylint: disable=broad-except
            result.append("loading {} fails: {!r}".format(name, error))
            break
        found = changes(before, look())
        if found:
            result.append("loading {} changed {}".format(name, found))
            break
    with open(answer, "w") as handle:
        json.dump(result, handle)


if __name__ == "__main__":
    load(*sys.argv[1:])
