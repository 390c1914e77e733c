"""Independence of calls from each other."""

import itertools
import os
import pickle
import signal
import sys
import traceback

from ..common import ArgumentsValueError, NAN, PI, np, package
from ..engine import Counter, Family, Violation, count_call

ASSUMPTIONS = [
    "every history runs in a process forked from one that has imported the library "
    "but never called it; expected results come from single calls in such processes",
    "an array passed to a constructor may be kept by the new object without copying "
    "(numpy.asarray); callers in these histories do not change such arrays",
]

NPY = np.array
NUMBERS = itertools.count()


def sequence(**keywords):
    return lambda: (package.DynamicDecouplingSequence, (), dict(keywords))


def small_sequence():
    return package.DynamicDecouplingSequence(
        10.0, NPY([2.0, 5.0, 8.0]), NPY([PI, 0.0, 1.0]), NPY([0.4, 0.0, -1.0]), NPY([0.0, -1.0, 0.0]), "small"
    )


def faint_sequence():
    """Rotations and times next to zero, with both signs of zero."""
    return package.DynamicDecouplingSequence(
        10.0,
        NPY([1e-12, 2.0, 5.0, 8.0, 10.0 - 1e-9]),
        NPY([0.0, 1e-9, 0.0, 1.0, -0.0]),
        NPY([1e-12, -1e-9, -0.0, 7.0, 1e-9]),
        NPY([0.0, 0.0, -1e-9, -0.0, 2e-9]),
    )


def faint_control():
    return package.DrivenControl(
        NPY([1.0, 1e-9, 0.5]),
        NPY([1e-9, 2.0, 0.0]),
        NPY([1e-9, -0.0, -1e-12]),
        NPY([-0.0, 1e-12, -1e-9]),
    )


def vanishing_control():
    """Numbers whose squares and products underflow or overflow."""
    return package.DrivenControl(
        NPY([1e-250, 1e200, 1e-3, 5.0]),
        NPY([1e-170, 1e-200, 0.0, 1e160]),
        NPY([1.0, -2.0, 0.0, 1e-300]),
        NPY([-1e-180, 1e160, 0.0, 0.0]),
    )


def vanishing_sequence():
    return package.DynamicDecouplingSequence(
        1e250,
        NPY([1e-250, 2e249, 9e249]),
        NPY([1e-300, 0.0, 2e-8]),
        NPY([1e-300, 0.0, 3.0]),
        NPY([0.0, -1e-300, 0.0]),
    )


def pulses(offsets, rabi, detuning):
    return package.DynamicDecouplingSequence(
        10.0, NPY(offsets), NPY(rabi), np.zeros(len(offsets)), NPY(detuning)
    )


def edge_sequence():
    return package.DynamicDecouplingSequence(
        10.0, NPY([0.0, 10.0]), NPY([PI / 2, PI / 2]), NPY([0.0, PI]), NPY([0.0, 0.0])
    )


def small_control():
    return package.DrivenControl(
        NPY([1.0, 0.5]), NPY([PI, 2.0]), NPY([0.4, -1.0]), NPY([0.5, -3.0]), "small"
    )


def named(function, *arguments, **keywords):
    return lambda scratch: (getattr(package, function), arguments, keywords)


def taking(maker, method, *arguments, **keywords):
    """A method of an object; the object counts as an argument of the call."""

    def call(thing, *values, **options):
        return getattr(thing, method)(*values, **options)

    return lambda scratch: (call, (maker(),) + arguments, keywords)


def derived(maker):
    def everything(thing):
        return [
            getattr(thing, name)
            for name in (
                "number_of_segments",
                "maximum_rabi_rate",
                "maximum_detuning",
                "amplitude_x",
                "amplitude_y",
                "angles",
                "directions",
                "times",
                "maximum_duration",
                "minimum_duration",
                "duration",
            )
        ]

    return lambda scratch: (everything, (maker(),), {})


def texts(maker):
    return lambda scratch: (lambda thing: [str(thing), repr(thing)], (maker(),), {})


def to_file(maker, **keywords):
    def build(scratch):
        thing = maker()
        path = os.path.join(scratch, "c20-{}-{}".format(os.getpid(), next(NUMBERS)))

        def export(thing):
            thing.export_to_file(filename=path, **keywords)
            with open(path, "rb") as handle:
                content = handle.read()
            os.unlink(path)
            return content

        return export, (thing,), {}

    return build


def constants(scratch):
    def read():
        from qctrlopencontrols import constants as module

        return [
            np.array(getattr(module, name))
            for name in ("SIGMA_X", "SIGMA_Y", "SIGMA_Z", "SIGMA_M", "SIGMA_P")
        ]

    return read, (), {}


def columns(*values):
    return [NPY(value, dtype=float) for value in values]


CONVERT = "convert_dds_to_driven_control"

# label -> function(scratch) giving (callable, arguments, keywords)
CALLS = {
    "ramsey": named("new_ramsey_sequence", 10.0),
    "ramsey closed": named("new_ramsey_sequence", 10.0, True, "closed"),
    "ramsey other": named("new_ramsey_sequence", duration=3.0, name="other"),
    "echo": named("new_spin_echo_sequence", 10.0),
    "echo closed": named("new_spin_echo_sequence", 10.0, pre_post_rotation=True),
    "echo int": named("new_spin_echo_sequence", 10),
    "carr purcell": named("new_carr_purcell_sequence", 10.0, 4),
    "carr purcell closed": named("new_carr_purcell_sequence", 10.0, 4, True, "cp"),
    "carr purcell 5": named("new_carr_purcell_sequence", 10.0, 5),
    "cpmg": named("new_cpmg_sequence", 10.0, 4),
    "cpmg short": named("new_cpmg_sequence", 1e-6, 4),
    "cpmg closed": named("new_cpmg_sequence", 10.0, 4, True),
    "uhrig": named("new_uhrig_sequence", 10.0, 4),
    "uhrig closed": named("new_uhrig_sequence", 10.0, 4, True),
    "uhrig 7": named("new_uhrig_sequence", 10.0, 7, name="seven"),
    "periodic": named("new_periodic_sequence", 10.0, 4),
    "periodic closed": named("new_periodic_sequence", 10.0, 4, True),
    "walsh": named("new_walsh_sequence", 10.0, 6),
    "walsh closed": named("new_walsh_sequence", 10.0, 6, True),
    "walsh 261": named("new_walsh_sequence", 10.0, 261),
    "walsh float": named("new_walsh_sequence", 10.0, 6.0),
    "quadratic": named("new_quadratic_sequence", 10.0, 2, 3),
    "quadratic swapped": named("new_quadratic_sequence", 10.0, 3, 2),
    "quadratic closed": named("new_quadratic_sequence", 10.0, 2, 3, True),
    "x concatenated": named("new_x_concatenated_sequence", 10.0, 3),
    "x concatenated closed": named("new_x_concatenated_sequence", 10.0, 3, True),
    "x concatenated 4": named("new_x_concatenated_sequence", 10.0, 4),
    "xy concatenated": named("new_xy_concatenated_sequence", 10.0, 2),
    "xy concatenated 1": named("new_xy_concatenated_sequence", 10.0, 1),
    "xy concatenated 3": named("new_xy_concatenated_sequence", 10.0, 3),
    "xy concatenated closed": named("new_xy_concatenated_sequence", 10.0, 2, True),
    "sequence": lambda scratch: (
        package.DynamicDecouplingSequence,
        (10.0,) + tuple(columns([1, 5], [PI, 1.0], [0.0, 0.5], [0.0, 0.0])),
        {"name": "made"},
    ),
    "sequence of lists": named(
        "DynamicDecouplingSequence", 10.0, [1.0, 5.0], [PI, 1.0], [0.0, 0.5], [0.0, 0.0]
    ),
    "empty sequence": named("DynamicDecouplingSequence", 10.0, [], [], [], []),
    "primitive": named("new_primitive_control", PI, 2.0, 0.3),
    "primitive named": named("new_primitive_control", PI, 2.0, 0.3, name="p"),
    "bb1": named("new_bb1_control", PI / 2, 2.0),
    "bb1 turned": named("new_bb1_control", PI / 2, 2.0, azimuthal_angle=1.0),
    "sk1": named("new_sk1_control", PI / 2, 2.0, 0.3),
    "scrofulous": named("new_scrofulous_control", PI / 2, 2.0, 0.3),
    "scrofulous pi": named("new_scrofulous_control", PI, 2.0, 0.3),
    "corpse": named("new_corpse_control", PI / 2, 2.0, 0.3),
    "corpse in bb1": named("new_corpse_in_bb1_control", PI / 2, 2.0, 0.3),
    "corpse in sk1": named("new_corpse_in_sk1_control", PI / 2, 2.0, 0.3),
    "corpse in scrofulous": named("new_corpse_in_scrofulous_control", PI / 2, 2.0, 0.3),
    "wamf1": named("new_wamf1_control", PI / 2, 2.0, 0.3),
    "wamf1 quarter": named("new_wamf1_control", PI / 4, 2.0),
    "gaussian": named("new_modulated_gaussian_control", 10.0, 0.5, 10.0, 0.3),
    "gaussian still": named("new_modulated_gaussian_control", 10.0, 0.5, 10.0, 0),
    "control": lambda scratch: (
        package.DrivenControl,
        tuple(columns([1.0, 2.0], [1.0, 0.0], [0.1, 0.2], [0.0, -1.0])),
        {"name": "made"},
    ),
    "control of durations": named("DrivenControl", [1.0, 2.0]),
    "control of durations again": lambda scratch: (
        package.DrivenControl,
        (),
        {"durations": NPY([1.0, 2.0]), "detunings": [3.0, 4.0]},
    ),
    "convert": lambda scratch: (
        package.convert_dds_to_driven_control,
        (small_sequence(), 20.0, 30.0),
        {"name": "converted"},
    ),
    "convert slowly": lambda scratch: (
        package.convert_dds_to_driven_control,
        (small_sequence(), 5.0, 6.0, 0.1),
        {},
    ),
    "convert edges": lambda scratch: (
        package.convert_dds_to_driven_control,
        (edge_sequence(), 20.0, 30.0),
        {},
    ),
    "convert empty": lambda scratch: (
        package.convert_dds_to_driven_control,
        (package.new_ramsey_sequence(10.0), 20.0, 30.0),
        {},
    ),
    "convert faint": lambda scratch: (
        package.convert_dds_to_driven_control,
        (faint_sequence(), 20.0, 30.0),
        {},
    ),
    "plot faint sequence": taking(faint_sequence, "export"),
    "plot faint control": taking(faint_control, "export"),
    "plot faint control cartesian": taking(faint_control, "export", "cartesian"),
    "numbers of faint control": derived(faint_control),
    "texts of faint control": texts(faint_control),
    "texts of faint sequence": texts(faint_sequence),
    "numbers of vanishing control": derived(vanishing_control),
    "plot vanishing control": taking(vanishing_control, "export", "cartesian", True),
    "texts of vanishing control": texts(vanishing_control),
    "file of vanishing control": to_file(vanishing_control, coordinates="cartesian"),
    "convert vanishing": lambda scratch: (
        package.convert_dds_to_driven_control,
        (vanishing_sequence(), 1e-200, 1e-200),
        {},
    ),
    "texts of vanishing sequence": texts(vanishing_sequence),
    "plot vanishing sequence": taking(vanishing_sequence, "export"),
    "faint control": lambda scratch: (
        package.DrivenControl,
        tuple(
            columns([1.0, 1e-9], [1e-9, 0.0], [-0.0, 1e-12], [1e-12, -0.0])
        ),
        {},
    ),
    "plot sequence": taking(small_sequence, "export"),
    "plot control": taking(small_control, "export"),
    "plot control cartesian": taking(small_control, "export", "cartesian", False),
    "numbers": derived(small_control),
    "texts of control": texts(small_control),
    "texts of sequence": texts(small_sequence),
    "file of control": to_file(small_control),
    "file of control JSON": to_file(small_control, file_type="JSON", coordinates="cartesian"),
    "file of sequence": to_file(small_sequence),
    "file of sequence JSON": to_file(
        small_sequence, file_type="JSON", maximum_rabi_rate=20.0, maximum_detuning_rate=9.0
    ),
    "constants": constants,
    "fail echo": named("new_spin_echo_sequence", -1.0),
    "fail count": named("new_cpmg_sequence", 10.0, 0, True, "failed"),
    "fail walsh": named("new_walsh_sequence", 10.0, 2001),
    "fail quadratic": named("new_quadratic_sequence", 10.0, 2, 0),
    "fail rotation": named("new_bb1_control", 13.0, 2.0),
    "fail rate": named("new_corpse_control", PI, -2.0),
    "fail scrofulous": named("new_scrofulous_control", 1.0, 2.0),
    "fail gaussian": named("new_modulated_gaussian_control", 0.1, 0.5, 10.0, 0.3),
    "fail control": lambda scratch: (
        package.DrivenControl,
        tuple(columns([1.0, 2.0], [1.0, -1.0])),
        {"name": "failed"},
    ),
    "fail lengths": lambda scratch: (
        package.DrivenControl,
        tuple(columns([1.0, 2.0], [1.0])),
        {},
    ),
    "fail sequence": lambda scratch: (
        package.DynamicDecouplingSequence,
        (10.0,) + tuple(columns([1, 11], [PI, 1.0], [0.0, 0.5], [0.0, 0.0])),
        {"name": "failed"},
    ),
    "fail convert": lambda scratch: (
        package.convert_dds_to_driven_control,
        (small_sequence(), 0.1, 30.0),
        {"name": "failed"},
    ),
    "fail convert limit": lambda scratch: (
        package.convert_dds_to_driven_control,
        (small_sequence(), NAN, 30.0),
        {},
    ),
    "fail convert detuning limit": lambda scratch: (
        package.convert_dds_to_driven_control,
        (small_sequence(), 20.0, -1.0),
        {},
    ),
    "fail convert minimum": lambda scratch: (
        package.convert_dds_to_driven_control,
        (small_sequence(), 20.0, 30.0, -0.1),
        {},
    ),
    "fail convert gap": lambda scratch: (
        package.convert_dds_to_driven_control,
        (small_sequence(), 20.0, 30.0, 2.9),
        {},
    ),
    "fail convert negative": lambda scratch: (
        package.convert_dds_to_driven_control,
        (pulses([2.0, 5.0], [-PI, 1.0], [0.0, 0.0]), 20.0, 30.0),
        {},
    ),
    "fail convert mixed": lambda scratch: (
        package.convert_dds_to_driven_control,
        (pulses([2.0, 5.0], [PI, 1.0], [0.0, -1.0]), 20.0, 30.0),
        {},
    ),
    "fail convert unsorted": lambda scratch: (
        package.convert_dds_to_driven_control,
        (pulses([5.0, 2.0], [PI, 1.0], [0.0, 0.0]), 20.0, 30.0),
        {},
    ),
    "fail sequence duration": named("DynamicDecouplingSequence", 0.0, [], [], [], []),
    "fail sequence Rabi": named("DynamicDecouplingSequence", 1.0, [0.5], [], [0.0], [0.0]),
    "fail sequence azimuth": named("DynamicDecouplingSequence", 1.0, [0.5], [1.0], [], [0.0]),
    "fail sequence detuning": named("DynamicDecouplingSequence", 1.0, [0.5], [1.0], [0.0], []),
    "fail durations": named("DrivenControl", [1.0, 0.0]),
    "fail ramsey": named("new_ramsey_sequence", 0.0, True),
    "fail carr purcell": named("new_carr_purcell_sequence", 10.0, -1),
    "fail uhrig": named("new_uhrig_sequence", -10.0, 4),
    "fail periodic": named("new_periodic_sequence", 10.0, 0),
    "fail x concatenated": named("new_x_concatenated_sequence", 10.0, 0),
    "fail xy concatenated": named("new_xy_concatenated_sequence", 0.0, 2),
    "fail wamf1": named("new_wamf1_control", 1.0, 2.0),
    "fail corpse in scrofulous": named("new_corpse_in_scrofulous_control", 1.0, 2.0),
    "fail gaussian duration": named("new_modulated_gaussian_control", 10.0, 0.5, -10.0, 0.3),
    "fail gaussian minimum": named("new_modulated_gaussian_control", 10.0, 0.0, 10.0, 0.3),
    "fail gaussian segments": named("new_modulated_gaussian_control", 10.0, 20.0, 10.0, 0.3),
    "fail file format": to_file(small_control, file_format="other"),
    "fail file coordinates": to_file(small_control, coordinates="polar"),
    "fail plot": taking(small_control, "export", "polar"),
    "fail file": to_file(small_control, file_type="XML"),
    "fail file of sequence": to_file(small_sequence, maximum_rabi_rate=0.01),
}
LABELS = list(CALLS)


# canonical forms


def public_data(value):
    """The documented attributes of a control or sequence."""
    names = (
        ("durations", "rabi_rates", "azimuthal_angles", "detunings", "name")
        if isinstance(value, package.DrivenControl)
        else (
            "duration",
            "offsets",
            "rabi_rotations",
            "azimuthal_angles",
            "detuning_rotations",
            "name",
        )
    )
    return [getattr(value, name) for name in names]


def canonical(value, depth=0):
    """Exact, order preserving description of a result or an argument."""
    if isinstance(value, (package.DrivenControl, package.DynamicDecouplingSequence)):
        result = [type(value).__name__]
        result += [canonical(item, depth + 1) for item in public_data(value)]
        return tuple(result)
    if isinstance(value, np.ndarray):
        return ("array", value.shape, value.dtype.str, value.tobytes())
    if isinstance(value, np.generic):
        return canonical(value.item(), 1)
    if isinstance(value, dict):
        return ("dict",) + tuple(
            sorted((str(key), canonical(item, 1)) for key, item in value.items())
        )
    if isinstance(value, (list, tuple)):
        return ("list",) + tuple(canonical(item, 1) for item in value)
    if isinstance(value, (float, int, complex)):
        return repr(complex(value))
    return repr(value)


def perform(label, scratch):
    """
    Makes one call. Returns (canonical outcome, result object). Raises Violation
    if the call changed its arguments.
    """
    function, arguments, keywords = CALLS[label](scratch)
    before = canonical([list(arguments), dict(keywords)])
    count_call()
    try:
        result = function(*arguments, **keywords)
        outcome = ("result", canonical(result))
    except ArgumentsValueError as error:
        result = None
        outcome = ("error", str(error))
    except Exception as error:  # pylint: disable=broad-except
        # whether a single call may end like this is the business of other properties
        result = None
        outcome = ("unexpected", type(error).__name__, str(error))
    if canonical([list(arguments), dict(keywords)]) != before:
        raise Violation("the call '{}' changed its arguments".format(label))
    return outcome, result


def arrays_in(value, found=None, depth=0):
    if found is None:
        found = []
    if isinstance(value, np.ndarray):
        found.append(value)
    elif isinstance(value, dict):
        for item in value.values():
            arrays_in(item, found, depth + 1)
    elif isinstance(value, (list, tuple)):
        for item in value:
            arrays_in(item, found, depth + 1)
    elif isinstance(value, (package.DrivenControl, package.DynamicDecouplingSequence)):
        for item in public_data(value):
            arrays_in(item, found, depth + 1)
        if isinstance(value, package.DrivenControl):
            for name in ("amplitude_x", "amplitude_y", "angles", "directions", "times"):
                found.append(getattr(value, name))
    return found


def containers_in(value, found=None):
    """Mutable dictionaries and lists in a result."""
    if found is None:
        found = []
    if isinstance(value, dict):
        found.append(value)
        for item in value.values():
            containers_in(item, found)
    elif isinstance(value, list):
        found.append(value)
        for item in value:
            containers_in(item, found)
    return found


def scribble(value):
    """What a careless caller may do to a result."""
    for array in arrays_in(value):
        try:
            array[...] = 123.25
        except ValueError:
            pass
    for container in containers_in(value):
        if isinstance(container, dict):
            for key in list(container):
                container[key] = "scribbled"
        else:
            container.append("scribbled")
            container.reverse()
    if isinstance(value, (package.DrivenControl, package.DynamicDecouplingSequence)):
        for item in public_data(value):
            if isinstance(item, (list, set, dict)):
                item.clear()
        value.name = "scribbled"


def span(array):
    low, high = np.byte_bounds(array)
    return int(low), int(high)


def check_sharing(results):
    """No memory is shared between results of different calls."""
    spans = []
    alive = [arrays_in(result) for _, result in results]
    for position, (label, result) in enumerate(results):
        for array in alive[position]:
            if array.size:
                low, high = span(array)
                spans.append((low, high, position, label))
    spans.sort()
    highest = None
    for item in spans:
        if highest is not None and item[0] < highest[1] and item[2] != highest[2]:
            raise Violation(
                "results of '{}' and '{}' share memory".format(highest[3], item[3])
            )
        if highest is None or item[1] > highest[1]:
            highest = item
    seen = {}
    for position, (label, result) in enumerate(results):
        things = containers_in(result)
        if isinstance(
            result, (package.DrivenControl, package.DynamicDecouplingSequence)
        ):
            things = [result] + [
                item for item in public_data(result) if isinstance(item, (list, dict, set))
            ]
        for thing in things:
            other = seen.setdefault(id(thing), (position, label))
            if other[0] != position:
                raise Violation(
                    "results of '{}' and '{}' share data".format(other[1], label)
                )


# processes


def in_child(function):
    """Runs the function in a forked process and returns what it returns."""
    reader, writer = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        status = 3
        try:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
            os.close(reader)
            Counter.calls = 0
            try:
                answer = ("ok", function())
            except Violation as error:
                answer = ("violation", str(error))
            except BaseException:  # pylint: disable=broad-except
                answer = ("violation", "unexpected error: " + traceback.format_exc()[-1500:])
            with os.fdopen(writer, "wb") as pipe:
                pickle.dump((answer, Counter.calls), pipe, protocol=4)
            status = 0
        finally:
            os._exit(status)
    os.close(writer)
    with os.fdopen(reader, "rb") as pipe:
        data = pipe.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        raise Violation("the process of the history ended abnormally ({})".format(status))
    (kind, value), calls = pickle.loads(data)
    count_call(calls)
    if kind == "violation":
        raise Violation(value)
    return value


class Histories:
    def __init__(self, scratch):
        self.scratch = scratch
        self.expected = {}

    def setup(self):
        if self.expected:
            return
        for label in LABELS:
            self.expected[label] = in_child(lambda: perform(label, self.scratch)[0])

    def run(self, case):
        events = [case["event {}".format(i + 1)] for i in range(case["depth"])]
        start = case["first probe"]
        return in_child(lambda: self.history(events, case["scribble"], start))

    def history(self, events, careless, start):
        results = []
        reached = []
        for position, label in enumerate(events):
            outcome, result = perform(label, self.scratch)
            self.compare(label, outcome, events[:position], careless)
            results.append((label, result))
            reached.append(hash(outcome))
            if careless:
                for _, earlier in results:
                    scribble(earlier)
        outcomes = []
        probes = LABELS if len(events) < 2 else PROBES
        for shift in range(len(probes)):
            label = probes[(start + shift) % len(probes)]
            outcome, result = perform(label, self.scratch)
            self.compare(label, outcome, events + ["probes"], careless)
            results.append((label, result))
            outcomes.append(outcome)
        check_sharing(results)
        # what was returned first must not have changed in the meantime
        if not careless:
            for label, result in results:
                wanted = self.expected[label]
                if wanted[0] == "result" and canonical(result) != wanted[1]:
                    raise Violation(
                        "the result of '{}' changed after it was returned".format(label)
                    )
        return (tuple(reached), careless, hash(frozenset(outcomes)))

    def compare(self, label, outcome, events, careless):
        if outcome != self.expected[label]:
            raise Violation(
                "'{}' after {}{} gives {} instead of {}".format(
                    label,
                    events,
                    " (with results overwritten)" if careless else "",
                    str(outcome)[:700],
                    str(self.expected[label])[:700],
                )
            )


# events of longer histories: at least one of each kind
CORE = [
    "ramsey closed",
    "echo",
    "carr purcell closed",
    "cpmg",
    "cpmg closed",
    "uhrig closed",
    "periodic",
    "walsh",
    "walsh closed",
    "quadratic",
    "x concatenated",
    "xy concatenated",
    "xy concatenated 1",
    "sequence",
    "empty sequence",
    "primitive named",
    "bb1",
    "sk1",
    "scrofulous",
    "corpse",
    "corpse in bb1",
    "corpse in sk1",
    "corpse in scrofulous",
    "wamf1",
    "gaussian",
    "gaussian still",
    "control",
    "control of durations",
    "convert",
    "convert empty",
    "plot control",
    "numbers",
    "texts of sequence",
    "file of control JSON",
    "file of sequence",
    "fail count",
    "fail control",
    "fail convert",
    "fail file",
]
SMALL = CORE[3:16:4] + CORE[16::4]
# probes after longer histories: everything but repeated variants
PROBES = [
    label
    for label in LABELS
    if label in CORE
    or label
    in (
        "ramsey",
        "walsh 261",
        "quadratic swapped",
        "control of durations again",
        "convert slowly",
        "convert edges",
        "plot sequence",
        "texts of control",
        "file of control",
        "constants",
        "fail convert limit",
    )
]


def families(tier, scratch):
    deep = tier == "thorough"
    histories = Histories(scratch)

    def first_probe(case):
        number = sum(
            LABELS.index(case["event {}".format(i + 1)]) * (7 if i else 1)
            for i in range(case["depth"])
        )
        return [number % len(LABELS)]

    def dims(depth, labels):
        return (
            [("depth", [depth])]
            + [("event {}".format(i + 1), labels) for i in range(depth)]
            + [("scribble", [False, True]), ("first probe", first_probe)]
        )

    result = [
        Family("single calls", dims(1, LABELS), histories.run, setup=histories.setup),
        Family(
            "pairs of calls",
            dims(2, LABELS if deep else CORE),
            histories.run,
            setup=histories.setup,
        ),
    ]
    if deep:
        result.append(
            Family("triples of calls", dims(3, SMALL), histories.run, setup=histories.setup)
        )
    return result
