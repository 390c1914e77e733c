"""Failing and rejected exports."""

import os
import pickle
import resource
import shutil
import signal

from .. import files
from ..common import ArgumentsValueError, NAN, PI, expect, np, package
from ..engine import Family, count_call
from ..objects import long_word, make_control, segments_for

LEVEL = "fault_enumeration"
RULE = (
    "an evaluation is one export with one injected fault (write limit at a byte, "
    "full device, missing directory, directory or read-only file as target) or one "
    "rejected export; distinct ones differ in what was exported, the options, the "
    "fault position, the previous content or the outcome"
)
ASSUMPTIONS = [
    "writing is made to fail by the kernel: RLIMIT_FSIZE for a limit at every byte, "
    "a link to /dev/full, missing directories and permissions of an unprivileged user",
    "what remains of the previous content after a failed write is not specified",
]

OPTIONS = [
    {"file_type": file_type, "coordinates": coordinates}
    for file_type in ("CSV", "JSON")
    for coordinates in ("cylindrical", "cartesian")
]


def sequence_of_pulses():
    return package.DynamicDecouplingSequence(
        10.0,
        np.array([2.0, 5.0, 8.0]),
        np.array([PI, 0.0, 1.0]),
        np.array([0.4, 0.0, -1.0]),
        np.array([0.0, -1.0, 0.0]),
        "three pulses",
    )


OBJECTS = {
    "control": lambda: make_control(
        segments_for(["tilted down", "third", "idle"]), "a control"
    ),
    "idle control": lambda: make_control(segments_for(["idle"])),
    "sequence": sequence_of_pulses,
    "echo": lambda: package.new_spin_echo_sequence(10.0, True),
    "long control": lambda: make_control(
        segments_for(long_word(900, ["tilted down", "third", "wound"])), "long"
    ),
    "long sequence": lambda: package.new_cpmg_sequence(500.0, 400),
}


def export(thing, path, options):
    count_call()
    thing.export_to_file(filename=path, **options)


def complete(content, wanted, options):
    """Does the content say the same as a complete file?"""
    if content == wanted:
        return True
    try:
        first = files.parse(content, options["file_type"], options["coordinates"])
        second = files.parse(wanted, options["file_type"], options["coordinates"])
    except Exception:  # pylint: disable=broad-except
        return False
    return first == second


class Faults:
    def __init__(self, scratch):
        self.scratch = scratch
        self.whole = {}

    def directory(self):
        path = os.path.join(self.scratch, "c22-{}".format(os.getpid()))
        os.makedirs(path, exist_ok=True)
        os.chmod(self.scratch, 0o755)
        os.chmod(path, 0o755)
        return path

    def clear(self):
        path = os.path.join(self.scratch, "c22-{}".format(os.getpid()))
        shutil.rmtree(path, ignore_errors=True)
        return self.directory()

    def content(self, label, number):
        key = (label, number)
        if key not in self.whole:
            path = os.path.join(self.clear(), "whole")
            export(OBJECTS[label](), path, OPTIONS[number])
            with open(path, "rb") as handle:
                self.whole[key] = handle.read()
        return self.whole[key]

    def limits(self, case):
        """All byte positions, or a grid of them for long files."""
        size = len(self.content(case["object"], case["options"]))
        if size <= 3000:
            return list(range(size + 3))
        grid = {0, 1, size - 2, size - 1, size, size + 1}
        for block in (512, 4096, 8192, 65536):
            for edge in range(block, size, block):
                if block >= 4096 or edge < 8192:
                    grid |= {edge - 1, edge, edge + 1}
        step = max(1, size // 150)
        grid |= set(range(0, size, step))
        return sorted(value for value in grid if value >= 0)

    def run_limit(self, case):
        options = OPTIONS[case["options"]]
        wanted = self.content(case["object"], case["options"])
        path = os.path.join(self.clear(), "target")
        if case["previous"]:
            with open(path, "wb") as handle:
                handle.write(b"previous content\n" * case["previous"])
        thing = OBJECTS[case["object"]]()
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        error = None
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], hard))
            try:
                export(thing, path, options)
            except Exception as caught:  # pylint: disable=broad-except
                error = caught
            # what a normal return left behind is judged before anything else can
            # happen to it
            found = self.read(path)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            signal.signal(signal.SIGXFSZ, handler)
        if case["limit"] >= len(wanted):
            expect(error is None, "an export that fits failed: {!r}", error)
        if error is None:
            expect(
                found is not None and complete(found, wanted, options),
                "the export returned although only {} of {} bytes could be written",
                None if found is None else len(found),
                len(wanted),
            )
            return (case["object"], case["options"], "complete", case["previous"])
        return (
            case["object"],
            case["options"],
            type(error).__name__,
            None if found is None else len(found),
            case["previous"],
        )

    def read(self, path):
        if not os.path.isfile(path):
            return None
        with open(path, "rb") as handle:
            return handle.read()

    def run_target(self, case):
        """Targets that cannot be written at all."""
        options = OPTIONS[case["options"]]
        wanted = self.content(case["object"], case["options"])
        directory = self.clear()
        thing = OBJECTS[case["object"]]()
        target = case["target"]
        path = os.path.join(directory, "target")
        kept = None
        if target == "full device":
            os.symlink("/dev/full", path)
        elif target == "missing directory":
            path = os.path.join(directory, "missing", "target")
        elif target == "directory":
            os.mkdir(path)
        elif target == "file as directory":
            with open(path, "wb") as handle:
                handle.write(b"kept")
            kept = (path, b"kept")
            path = os.path.join(path, "target")
        elif target == "dangling link":
            os.symlink(os.path.join(directory, "missing", "target"), path)
        elif target == "empty name":
            path = ""
        elif target == "nul in name":
            path = os.path.join(directory, "a\0b")
        elif target == "long name":
            path = os.path.join(directory, "x" * 300)
        error = None
        before = os.getcwd()
        os.chdir(directory)
        try:
            export(thing, path, options)
        except Exception as caught:  # pylint: disable=broad-except
            error = caught
        finally:
            os.chdir(before)
        if error is None:
            # returned normally: then the file has to be there
            expect(
                path
                and "\0" not in path
                and not os.path.islink(path)
                and os.path.isfile(path)
                and complete(self.read(path), wanted, options),
                "the export to a {} returned normally",
                target,
            )
        if kept is not None:
            expect(self.read(kept[0]) == kept[1], "another file was changed")
        return (case["object"], case["options"], target, type(error).__name__)

    def run_read_only(self, case):
        """An unprivileged user exports to files they must not change."""
        options = OPTIONS[case["options"]]
        directory = self.clear()
        path = os.path.join(directory, "target")
        previous = b"previous content\n"
        if case["target"] == "file":
            with open(path, "wb") as handle:
                handle.write(previous)
            os.chmod(path, 0o444)
        thing = OBJECTS[case["object"]]()
        reader, writer = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 3
            try:
                os.close(reader)
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
                answer = None
                try:
                    export(thing, path, options)
                except Exception as caught:  # pylint: disable=broad-except
                    answer = type(caught).__name__
                with os.fdopen(writer, "wb") as pipe:
                    pickle.dump(answer, pipe)
                status = 0
            finally:
                os._exit(status)
        os.close(writer)
        with os.fdopen(reader, "rb") as pipe:
            data = pipe.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            raise RuntimeError("the unprivileged process failed")
        count_call()
        answer = pickle.loads(data)
        expect(answer is not None, "an export without permission returned normally")
        found = self.read(path)
        if case["target"] == "file":
            expect(found == previous, "a read-only file was changed")
        else:
            expect(found is None, "a file was created without permission")
        return (case["object"], case["options"], case["target"], answer)

    def run_rejected(self, case):
        """Rejected exports leave the target alone."""
        directory = self.clear()
        path = os.path.join(directory, "target")
        previous = case["previous"]
        if previous is not None:
            with open(path, "wb") as handle:
                handle.write(previous)
            os.utime(path, ns=(10 ** 18, 10 ** 18))
        thing, options = REJECTED[case["rejected"]]
        arguments = {
            "file_type": case["type"],
            "coordinates": case["coordinates"],
        }
        arguments.update(options)
        error = None
        count_call()
        try:
            thing().export_to_file(filename=path, **arguments)
        except ArgumentsValueError as caught:
            error = caught
        expect(error is not None, "an invalid export was accepted")
        names = sorted(os.listdir(directory))
        if previous is None:
            expect(names == [], "a rejected export created {}", names)
        else:
            expect(names == ["target"], "a rejected export left {}", names)
            expect(self.read(path) == previous, "a rejected export changed the file")
            expect(
                os.stat(path).st_mtime_ns == 10 ** 18,
                "a rejected export touched the file",
            )
        return (case["rejected"], case["type"], case["coordinates"], str(error)[:80])


def crowded():
    return package.new_cpmg_sequence(1.0, 10)


def unsorted():
    return package.DynamicDecouplingSequence(
        10.0, [8.0, 2.0], [1.0, 1.0], [0.0, 0.0], [0.0, 0.0]
    )


def doubled():
    return package.DynamicDecouplingSequence(10.0, [5.0], [1.0], [0.0], [-1.0])


def negative():
    return package.DynamicDecouplingSequence(10.0, [5.0], [-1.0], [0.0], [0.0])


CONTROL, SEQUENCE = OBJECTS["control"], OBJECTS["sequence"]
REJECTED = {
    "control, format": (CONTROL, {"file_format": "other"}),
    "control, no format": (CONTROL, {"file_format": None}),
    "control, type": (CONTROL, {"file_type": "XML"}),
    "control, lower case type": (CONTROL, {"file_type": "json"}),
    "control, coordinates": (CONTROL, {"coordinates": "polar"}),
    "control, no coordinates": (CONTROL, {"coordinates": ""}),
    "idle control, coordinates": (OBJECTS["idle control"], {"coordinates": "x"}),
    "sequence, format": (SEQUENCE, {"file_format": "other"}),
    "sequence, type": (SEQUENCE, {"file_type": "XML"}),
    "sequence, coordinates": (SEQUENCE, {"coordinates": "polar"}),
    "sequence, Rabi rate": (SEQUENCE, {"maximum_rabi_rate": 0}),
    "sequence, negative Rabi rate": (SEQUENCE, {"maximum_rabi_rate": -1.0}),
    "sequence, no Rabi rate": (SEQUENCE, {"maximum_rabi_rate": NAN}),
    "sequence, detuning rate": (SEQUENCE, {"maximum_detuning_rate": 0}),
    "sequence, slow": (SEQUENCE, {"maximum_rabi_rate": 0.1}),
    "sequence, slow detuning": (SEQUENCE, {"maximum_detuning_rate": 0.01}),
    "crowded sequence": (crowded, {}),
    "unsorted sequence": (unsorted, {}),
    "doubled pulse": (doubled, {}),
    "negative pulse": (negative, {}),
    "sequence, everything": (
        negative,
        {"file_format": "x", "file_type": "x", "coordinates": "x"},
    ),
}


def families(tier, scratch):
    deep = tier == "thorough"
    faults = Faults(scratch)
    small = ["control", "idle control", "sequence", "echo"]
    return [
        Family(
            "write limit at every byte",
            [
                ("object", small),
                ("options", range(len(OPTIONS))),
                ("previous", [0, 1, 500]),
                ("limit", faults.limits),
            ],
            faults.run_limit,
        ),
        Family(
            "write limit of long files",
            [
                ("object", ["long control", "long sequence"]),
                ("options", range(len(OPTIONS))),
                ("previous", [0, 20000] if deep else [0]),
                ("limit", faults.limits),
            ],
            faults.run_limit,
        ),
        Family(
            "impossible targets",
            [
                ("object", list(OBJECTS)),
                ("options", range(len(OPTIONS))),
                (
                    "target",
                    [
                        "full device",
                        "missing directory",
                        "directory",
                        "file as directory",
                        "dangling link",
                        "empty name",
                        "nul in name",
                        "long name",
                    ],
                ),
            ],
            faults.run_target,
        ),
        Family(
            "missing permission",
            [
                ("object", small),
                ("options", range(len(OPTIONS))),
                ("target", ["file", "directory"]),
            ],
            faults.run_read_only,
        ),
        Family(
            "rejected exports",
            [
                ("rejected", list(REJECTED)),
                ("type", ["CSV", "JSON"]),
                ("coordinates", ["cylindrical", "cartesian"]),
                ("previous", [None, b"", b"previous content\n" * 40]),
            ],
            faults.run_rejected,
        ),
    ]
