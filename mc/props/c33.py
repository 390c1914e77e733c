"""Data held by the library and its objects after repeated calls."""

import collections
import gc
import os
import sys
import types

from ..common import ArgumentsValueError, np, package
from ..engine import Family, Violation, count_call
from .c20 import (
    CALLS,
    CORE,
    LABELS,
    faint_control,
    in_child,
    perform,
    small_control,
    small_sequence,
)

ASSUMPTIONS = [
    "the data held by the library are what can be reached from its modules, classes, "
    "functions and closures without passing through other modules",
    "the first rounds of calls may fill caches, which hold at most about 300 rounds",
]

PREFIX = package.__name__


def parts(thing):
    """What a value refers to, as far as it belongs to the library's data."""
    if isinstance(thing, types.ModuleType):
        if thing.__name__.split(".")[0] != PREFIX:
            return []
        return [value for name, value in vars(thing).items() if name != "__builtins__"]
    if isinstance(thing, type):
        if str(thing.__module__).split(".")[0] != PREFIX:
            return []
        return list(vars(thing).values())
    if isinstance(thing, types.FunctionType):
        result = [thing.__defaults__, thing.__kwdefaults__, thing.__dict__]
        for cell in thing.__closure__ or ():
            try:
                result.append(cell.cell_contents)
            except ValueError:
                pass
        return result
    if isinstance(thing, (staticmethod, classmethod)):
        return [thing.__func__]
    if isinstance(thing, property):
        return [thing.fget, thing.fset, thing.fdel]
    if isinstance(thing, types.MethodType):
        return [thing.__self__, thing.__func__]
    if isinstance(thing, types.GeneratorType):
        return []
    if isinstance(thing, dict):
        return list(thing.keys()) + list(thing.values())
    if isinstance(thing, (list, tuple, set, frozenset, collections.deque)):
        return list(thing)
    if isinstance(thing, np.ndarray):
        return list(thing) if thing.dtype == object else []
    result = []
    if hasattr(thing, "__dict__"):
        result.append(vars(thing))
    if isinstance(thing, BaseException):
        result.append(thing.args)
    for base in type(thing).__mro__:
        slots = vars(base).get("__slots__", ())
        for name in (slots,) if isinstance(slots, str) else slots:
            if hasattr(thing, name):
                result.append(getattr(thing, name))
    return result


def size(thing):
    if isinstance(thing, (str, bytes, bytearray)):
        return 1 + len(thing)
    if isinstance(thing, np.ndarray):
        return 1 + thing.nbytes
    if isinstance(thing, (dict, list, tuple, set, frozenset, collections.deque)):
        return 1 + len(thing)
    return 1


def held(roots):
    """Total size of everything that can be reached from the roots."""
    seen = set()
    alive = []
    todo = list(roots)
    total = 0
    while todo:
        thing = todo.pop()
        if thing is None or isinstance(thing, (bool, int, float, complex, np.generic)):
            # numbers, which may change but do not grow
            continue
        if id(thing) in seen:
            continue
        seen.add(id(thing))
        alive.append(thing)
        total += size(thing)
        if not isinstance(thing, (str, bytes, bytearray)):
            todo.extend(parts(thing))
    return total


def modules():
    return [
        module
        for name, module in sorted(sys.modules.items())
        if name.split(".")[0] == PREFIX and module is not None
    ]


def settle():
    for _ in range(3):
        gc.collect()


# what can be done again and again with the same object

READS = {
    "numbers": lambda thing, path: [
        getattr(thing, name)
        for name in (
            "number_of_segments",
            "maximum_rabi_rate",
            "maximum_detuning",
            "amplitude_x",
            "amplitude_y",
            "angles",
            "directions",
            "times",
            "maximum_duration",
            "minimum_duration",
            "duration",
        )
        if hasattr(thing, name)
    ],
    "text": lambda thing, path: str(thing),
    "code-like text": lambda thing, path: repr(thing),
    "plot": lambda thing, path: thing.export(),
    "CSV": lambda thing, path: thing.export_to_file(path, file_type="CSV"),
    "JSON": lambda thing, path: thing.export_to_file(
        path, file_type="JSON", coordinates="cartesian"
    ),
    "rejected file": lambda thing, path: thing.export_to_file(path, file_type="XML"),
    "rejected coordinates": lambda thing, path: thing.export_to_file(path, coordinates="polar"),
    "conversion": lambda thing, path: package.convert_dds_to_driven_control(
        thing, 20.0, 30.0
    )
    if isinstance(thing, package.DynamicDecouplingSequence)
    else None,
    "rejected conversion": lambda thing, path: package.convert_dds_to_driven_control(
        thing, 0.01, 30.0
    )
    if isinstance(thing, package.DynamicDecouplingSequence)
    else None,
    "edit": lambda thing, path: thing.azimuthal_angles.__iadd__(0.5),
    "replace": lambda thing, path: setattr(
        thing, "azimuthal_angles", np.array(thing.azimuthal_angles)
    ),
}
THINGS = {
    "control": small_control,
    "faint control": faint_control,
    "sequence": small_sequence,
    "closed sequence": lambda: package.new_cpmg_sequence(10.0, 3, True, "closed"),
    "composite": lambda: package.new_corpse_in_bb1_control(1.0, 2.0),
    "gaussian": lambda: package.new_modulated_gaussian_control(10.0, 0.5, 10.0, 0.3),
    "converted": lambda: package.convert_dds_to_driven_control(small_sequence(), 20.0, 30.0),
}
ROUNDS = [2, 4, 7]
# a cache of bounded size may be growing still, so growth must go on
MANY = [300, 600]


class Memory:
    def __init__(self, scratch):
        self.scratch = scratch

    def run_calls(self, case):
        calls = [case[key] for key in ("call", "second call", "third call") if case.get(key)]
        return in_child(lambda: self.repeat(calls))

    def repeat(self, calls):
        def turn():
            for label in calls:
                perform(label, self.scratch)

        self.follow(turn, {"the library": modules}, calls)
        return tuple(calls)

    def run_object(self, case):
        return in_child(lambda: self.reread(case))

    def reread(self, case):
        reads = [case[key] for key in ("read", "second read") if case.get(key)]
        path = os.path.join(self.scratch, "c33-{}".format(os.getpid()))
        thing = THINGS[case["object"]]()

        def turn():
            for label in reads:
                count_call()
                try:
                    READS[label](thing, path)
                except ArgumentsValueError:
                    pass

        try:
            self.follow(turn, {"the object": lambda: [thing], "the library": modules}, reads)
        finally:
            if os.path.exists(path):
                os.unlink(path)
        return (case["object"],) + tuple(reads)

    def follow(self, turn, roots, calls):
        """Watch the sizes over the rounds, and over many more if they grow."""
        done = 0
        for schedule in (ROUNDS, MANY):
            sizes = {what: [] for what in roots}
            for rounds in schedule:
                while done < rounds:
                    turn()
                    done += 1
                settle()
                for what, find in roots.items():
                    sizes[what].append(held(find()))
            if all(found[-1] <= found[0] for found in sizes.values()):
                return
        for what, found in sizes.items():
            if found[-1] > found[0]:
                raise Violation(
                    "{} holds data of size {} after {} rounds of {}".format(
                        what, found, MANY, calls
                    )
                )


def families(tier, scratch):
    deep = tier == "thorough"
    memory = Memory(scratch)
    result = [
        Family("one call", [("call", list(CALLS))], memory.run_calls),
        Family(
            "two calls",
            [("call", LABELS if deep else CORE), ("second call", CORE if deep else CORE[::2])],
            memory.run_calls,
        ),
        Family(
            "one object",
            [
                ("object", list(THINGS)),
                ("read", list(READS)),
                ("second read", [None] + list(READS)),
            ],
            memory.run_object,
        ),
    ]
    if deep:
        result.append(
            Family(
                "three calls",
                [("call", CORE[::3]), ("second call", CORE[1::3]), ("third call", CORE[2::3])],
                memory.run_calls,
            )
        )
    return result
