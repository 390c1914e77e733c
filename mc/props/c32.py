"""Settings of the process before and after calls."""

import json
import os
import pickle
import pkgutil
import subprocess
import sys
import threading
import warnings

from .. import process, target
from ..common import np, package
from ..engine import Family, Violation, count_call
from ..process import SETTINGS, changes, look
from .c20 import CALLS, LABELS, in_child, perform

ASSUMPTIONS = [
    "every case runs in its own process, forked from one that has imported the library "
    "but never called it",
    "warnings are switched off except where they are set to be errors; then warnings "
    "about overflow and the like stay off",
    "NumPy set to reject overflow or underflow is not explored",
    "code-like texts and error messages show arrays in the way NumPy is set to print "
    "them, so they are not compared between different print settings; nor are files "
    "with the printing of NumPy 1.13, which writes the same numbers with other digits",
]

# settings for pairs of calls
SOME = ["usual", "coarse printing", "warnings are errors", "no environment", "in a thread"]
# options of the interpreter and environment variables it is started with
INTERPRETERS = {
    "usual": ([], {}),
    "without assertions": (["-O"], {}),
    "without docstrings": (["-OO"], {}),
    "isolated": (["-I"], {}),
    "without site packages of the user": (["-s"], {}),
    "strict about bytes": (["-bb"], {}),
    "development mode": (["-X", "dev"], {}),
    "UTF-8 mode": (["-X", "utf8"], {}),
    "other hashes": ([], {"PYTHONHASHSEED": "12345"}),
    "random hashes": (["-R"], {"PYTHONHASHSEED": "random"}),
    "plain locale": ([], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}),
    "latin locale": ([], {"LC_ALL": "de_DE.ISO-8859-1", "LANG": "de_DE.ISO-8859-1"}),
    "narrow streams": ([], {"PYTHONIOENCODING": "ascii"}),
    "other time zone": ([], {"TZ": "Asia/Tokyo"}),
}
BLOCKS = 8
OUTCOMES = os.path.join(os.path.dirname(process.__file__), "outcomes.py")

PRINTING = {"coarse printing", "old printing", "strange printing"}
TEXTUAL = {label for label in LABELS if label.startswith(("texts", "fail"))}


# modules that can be the first to be loaded
MODULES = [package.__name__] + sorted(
    found.name
    for found in pkgutil.walk_packages(package.__path__, package.__name__ + ".")
    if not found.name.endswith("__main__")
)

def published():
    """The names the package publishes and the objects they stand for."""
    return sorted((name, id(getattr(package, name))) for name in package.__all__)


def all_settings():
    result = look()
    if hasattr(package, "__all__"):
        result["published names"] = published()
    return result


class Process:
    def __init__(self, scratch):
        self.scratch = scratch
        self.expected = {}

    def setup(self):
        if not self.expected:
            for label in LABELS:
                self.expected[label] = in_child(lambda: perform(label, self.scratch)[0])

    def run(self, case):
        calls = [case[key] for key in ("first call", "call") if case.get(key)]
        return in_child(lambda: self.watch(case["settings"], calls))

    def load(self, case):
        """Load modules in a process of its own."""
        names = [case[key] for key in ("first module", "module") if case.get(key)]
        answer = os.path.join(self.scratch, "c32-load-{}".format(os.getpid()))
        done = subprocess.run(
            [sys.executable, process.__file__, case["settings"], self.scratch, answer] + names,
            env=dict(
                os.environ,
                PYTHONPATH=target.REPO,
                PYTHONPYCACHEPREFIX="/nonexistent-bytecode-cache",
            ),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            check=False,
        )
        if done.stdout or done.returncode:
            raise Violation(
                "loading {} with the settings '{}' ends with {} and prints {!r}".format(
                    names, case["settings"], done.returncode, done.stdout[-2000:]
                )
            )
        with open(answer) as handle:
            found = json.load(handle)
        os.unlink(answer)
        if found:
            raise Violation("with the settings '{}', {}".format(case["settings"], found))
        return (case["settings"], tuple(names))

    def start(self, case):
        """Make some of the calls in an interpreter started in another way."""
        options, variables = INTERPRETERS[case["interpreter"]]
        labels = LABELS[case["block"] :: BLOCKS]
        answer = os.path.join(self.scratch, "c32-start-{}".format(os.getpid()))
        done = subprocess.run(
            [sys.executable] + options + [OUTCOMES, self.scratch, answer] + labels,
            env=dict(os.environ, **variables),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            check=False,
        )
        if done.stdout or done.returncode:
            raise Violation(
                "the interpreter '{}' ends with {} and prints {!r}".format(
                    case["interpreter"], done.returncode, done.stdout[-2000:]
                )
            )
        with open(answer, "rb") as handle:
            found = pickle.load(handle)
        os.unlink(answer)
        count_call(len(labels))
        for label in labels:
            if found[label] != self.expected[label]:
                raise Violation(
                    "'{}' gives {} instead of {} in the interpreter '{}'".format(
                        label,
                        str(found[label])[:600],
                        str(self.expected[label])[:600],
                        case["interpreter"],
                    )
                )
        return (case["interpreter"], hash(tuple(found.values())))

    def watch(self, settings, calls):
        path = os.path.join(self.scratch, "c32-output-{}".format(os.getpid()))
        output = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(output, 1)
        os.dup2(output, 2)
        # settings that differ from those of the explorer, so that changes show
        warnings.filterwarnings("ignore", message="never seen")
        np.seterr(all="warn", under="ignore")
        SETTINGS[settings](self.scratch)
        # let modules load and caches fill that looking at the settings needs
        all_settings()
        before = all_settings()
        for label in calls:
            outcome = self.make(label, settings)
            self.compare("'{}'".format(label), before, output)
            wanted = self.expected[label]
            if settings in PRINTING and label in TEXTUAL:
                if settings == "old printing" or not label.startswith("texts"):
                    continue
                # the readable text, without the code-like one
                outcome, wanted = outcome[1][1], wanted[1][1]
            if settings == "old printing" and "file" in label:
                continue
            if outcome != wanted:
                raise Violation(
                    "'{}' gives {} instead of {} with the settings '{}'".format(
                        label, str(outcome)[:600], str(wanted)[:600], settings
                    )
                )
        os.close(output)
        os.unlink(path)
        return (settings, tuple(calls))

    def compare(self, what, before, output):
        sys.stdout.flush()
        sys.stderr.flush()
        for change in changes(before, all_settings()):
            raise Violation("{} changed {}".format(what, change))
        written = os.pread(output, 2000, 0)
        if written:
            raise Violation("{} printed {!r}".format(what, written))

    def make(self, label, settings):
        if settings != "in a thread":
            return perform(label, self.scratch)[0]
        answers = []

        def work():
            try:
                answers.append(perform(label, self.scratch)[0])
            except Violation as error:
                answers.append(error)

        thread = threading.Thread(target=work)
        thread.start()
        thread.join()
        if isinstance(answers[0], Violation):
            raise answers[0]
        return answers[0]


def families(tier, scratch):
    deep = tier == "thorough"
    calls = Process(scratch)
    result = [
        Family(
            "settings and calls",
            [("settings", list(SETTINGS)), ("call", list(CALLS))],
            calls.run,
            setup=calls.setup,
        ),
        Family(
            "interpreters",
            [("interpreter", list(INTERPRETERS)), ("block", list(range(BLOCKS)))],
            calls.start,
            setup=calls.setup,
        ),
        Family(
            "settings and modules",
            [
                ("settings", list(SETTINGS)),
                ("module", MODULES),
            ],
            calls.load,
        ),
    ]
    if deep:
        result.append(
            Family(
                "settings and two modules",
                [
                    ("settings", SOME),
                    ("first module", MODULES),
                    ("module", MODULES),
                ],
                calls.load,
            )
        )
        result.append(
            Family(
                "settings and two calls",
                [
                    ("settings", SOME),
                    ("first call", list(CALLS)),
                    ("call", LABELS[::3]),
                ],
                calls.run,
                setup=calls.setup,
            )
        )
    return result
