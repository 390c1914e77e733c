"""
Exhaustive explorer of bounded choice trees.

A family is a list of choices, each with a finite domain that may depend on the
choices made before, and a function that runs the implementation on one complete
sequence of choices and compares the outcome with the reference model. The
explorer visits every leaf of the tree, split over several processes.
"""

import collections
import json
import os
import pickle
import signal
import sys
import time
import traceback

WORKERS = max(1, min(8, os.cpu_count() or 1))
CASE_TIMEOUT = 240
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The implementation departs from the reference model."""


class Timeout(BaseException):
    pass


class Family:
    """
    name    unique within the property
    dims    [(label, domain)], domain a list or a function of the choices so far;
            with `deviations`, the first value of each domain is the default
    run     function(case) -> observation (any value with a stable repr)
    """

    def __init__(self, name, dims, run, deviations=None, setup=None, keep=None):
        self.name = name
        self.dims = dims
        self.run = run
        self.deviations = deviations
        self.setup = setup
        self.keep = keep

    def cases(self):
        """All complete choice sequences, simplest first, as (indices, case)."""
        dims = self.dims
        depth = len(dims)
        limit = self.deviations if self.deviations is not None else depth + 1
        keep = self.keep

        def walk(level, indices, case, used):
            if level == depth:
                if keep is None or keep(case):
                    yield indices, dict(case)
                return
            label, domain = dims[level]
            values = domain(case) if callable(domain) else domain
            for position, value in enumerate(values):
                cost = used + (1 if position else 0)
                if self.deviations is not None and cost > limit:
                    break
                case[label] = value
                for item in walk(level + 1, indices + (position,), case, cost):
                    yield item
            case.pop(label, None)

        return walk(0, (), {}, 0)

    def case_at(self, indices):
        case = {}
        for (label, domain), position in zip(self.dims, indices):
            values = domain(case) if callable(domain) else domain
            case[label] = values[position]
        return case


class Counter:
    calls = 0


def count_call(number=1):
    Counter.calls += number


def _alarm(signum, frame):
    raise Timeout()


def run_case(family, case):
    """Runs one case; any exception other than the expected ones is a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return family.run(case)
    except Violation:
        raise
    except Timeout:
        raise Violation("did not finish within {} seconds".format(CASE_TIMEOUT))
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        raise
    except Exception as error:  # pylint: disable=broad-except
        raise Violation(
            "unexpected {}: {}\n{}".format(
                type(error).__name__, str(error)[:500], traceback.format_exc()[-1500:]
            )
        )
    finally:
        signal.alarm(0)


def prepare(family):
    """Runs the setup of a family; whatever it raises counts as a violation."""
    if family.setup is None:
        return
    try:
        family.setup()
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as error:  # pylint: disable=broad-except
        raise Violation(
            "unexpected {} while preparing: {}\n{}".format(
                type(error).__name__, str(error)[:500], traceback.format_exc()[-1500:]
            )
        )


def _worker(families, worker, workers, channel, seed, stop_file):
    results = []
    for family in families:
        Counter.calls = 0
        traces = 0
        states = set()
        samples = []
        violation = None
        rerun = []
        try:
            prepare(family)
            cases = family.cases()
        except Violation as error:
            violation = (0, (), {}, str(error))
            cases = ()
        for number, (indices, case) in enumerate(cases):
            if number % workers != worker:
                continue
            try:
                observation = run_case(family, case)
            except Violation as error:
                violation = (number, indices, case, str(error))
                break
            traces += 1
            states.add(hash(repr(observation)))
            if len(rerun) < 5:
                rerun.append((number, indices, case, repr(observation)))
            if (number * 2654435761 + seed) % 1009 == 0 and len(samples) < 2:
                samples.append((number, case, observation))
            if traces % 64 == 0 and os.path.exists(stop_file):
                break
        if violation is None:
            # the first cases again: the same result must come out after all others
            for number, indices, case, expected in rerun:
                try:
                    observation = repr(run_case(family, case))
                except Violation as error:
                    observation = "violation: {}".format(error)
                if observation != expected:
                    violation = (
                        number,
                        indices,
                        case,
                        "a repeated run gave another result: {} instead of {}".format(
                            observation[:400], expected[:400]
                        ),
                    )
                    break
        if not samples and rerun:
            samples = [(rerun[0][0], rerun[0][2], rerun[0][3])]
        results.append((family.name, traces, Counter.calls, states, samples, violation))
        if violation is not None:
            with open(stop_file, "w"):
                pass
            break
        if os.path.exists(stop_file):
            break
    with os.fdopen(channel, "wb") as pipe:
        pickle.dump(results, pipe, protocol=4)


def plain(value):
    """JSON friendly form of a case or observation."""
    if isinstance(value, dict):
        return {str(key): plain(item) for key, item in value.items()}
    if isinstance(value, (list, tuple, set, frozenset)):
        return [plain(item) for item in value]
    if isinstance(value, float):
        if value != value or value in (float("inf"), float("-inf")):
            return repr(value)
        return value
    if isinstance(value, (int, str, bool)) or value is None:
        return value
    return repr(value)


def shorten(value, limit=900):
    text = json.dumps(plain(value))
    return text if len(text) <= limit else text[:limit] + " ..."


class Outcome:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.families = []
        self.samples = []
        self.violation = None


def explore(families, scratch, seed=0, workers=WORKERS):
    """Runs all families on all cores and merges the results."""
    outcome = Outcome()
    stop_file = os.path.join(scratch, "stop")
    pipes = []
    sys.stdout.flush()
    sys.stderr.flush()
    for worker in range(workers):
        reader, writer = os.pipe()
        pid = os.fork()
        if pid == 0:
            status = 3
            try:
                os.close(reader)
                for other, _ in pipes:
                    os.close(other)
                _worker(families, worker, workers, writer, seed, stop_file)
                status = 0
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(status)
        os.close(writer)
        pipes.append((reader, pid))
    collected = []
    failed = False
    for reader, pid in pipes:
        with os.fdopen(reader, "rb") as pipe:
            data = pipe.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            failed = True
            continue
        collected.append(pickle.loads(data))
    if failed:
        raise RuntimeError("a worker process ended abnormally")
    for position, family in enumerate(families):
        traces = transitions = 0
        states = set()
        samples = []
        violations = []
        for results in collected:
            if position >= len(results):
                continue
            _, part_traces, part_calls, part_states, part_samples, violation = results[
                position
            ]
            traces += part_traces
            transitions += part_calls
            states |= part_states
            samples.extend(part_samples)
            if violation is not None:
                violations.append(violation)
        outcome.traces += traces
        outcome.transitions += transitions
        outcome.states += len(states)
        outcome.families.append(
            {
                "family": family.name,
                "choices": [label for label, _ in family.dims],
                "bound": "at most {} choices away from the default".format(
                    family.deviations
                )
                if family.deviations is not None
                else "full product",
                "traces": traces,
                "transitions": transitions,
                "states": len(states),
            }
        )
        samples.sort(key=lambda item: item[0])
        if samples:
            number, case, observation = samples[seed % len(samples)]
            outcome.samples.append(
                {
                    "family": family.name,
                    "trace": number,
                    "case": shorten(case),
                    "observed": shorten(observation),
                }
            )
        if violations and outcome.violation is None:
            number, indices, case, message = min(violations)
            outcome.violation = {
                "family": family.name,
                "number": number,
                "workers": workers,
                "indices": list(indices),
                "case": plain(case),
                "message": message,
            }
    return outcome
