"""Command line: decide one property, or repeat a recorded violation."""

import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import engine, findings

HERE = engine.HERE


def load_property(identifier):
    return importlib.import_module("mc.props." + identifier.lower())


def replay_case(identifier, tier, record, scratch):
    """Runs one recorded case; returns the message of the violation or None."""
    module = load_property(identifier)
    families = module.families(tier, scratch)
    for family in families:
        if family.name != record["family"]:
            continue
        try:
            engine.prepare(family)
        except engine.Violation as error:
            return str(error)
        if not record["indices"]:
            # only the preparation failed
            return None
        for with_history in (False, True):
            if with_history:
                cases = family.cases()
                for number, (_, case) in enumerate(cases):
                    if number > record["number"]:
                        break
                    if number % record["workers"] != record["number"] % record["workers"]:
                        continue
                    try:
                        engine.run_case(family, case)
                    except engine.Violation as error:
                        return "(after the preceding cases) " + str(error)
            else:
                try:
                    engine.run_case(family, family.case_at(record["indices"]))
                except engine.Violation as error:
                    return str(error)
    return None


def decide(identifier, tier):
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    module = load_property(identifier)
    started = time.time()
    scratch = tempfile.mkdtemp(prefix="mc-{}-".format(identifier.lower()))
    try:
        if hasattr(module, "explore"):
            outcome = module.explore(tier, scratch, seed)
        else:
            outcome = engine.explore(module.families(tier, scratch), scratch, seed)
        wall = time.time() - started
        violation = outcome.violation
        known = findings.match(identifier, violation)
        level = getattr(module, "LEVEL", "model_checking")
        coverage = {
            "exhaustive": violation is None,
            "samples": outcome.samples,
            "families": outcome.families,
        }
        if level == "model_checking":
            coverage["states"] = outcome.states
            coverage["transitions"] = outcome.transitions
            coverage["traces_validated_against_impl"] = outcome.traces
        else:
            coverage["evaluations"] = outcome.traces
            coverage["distinct_nontrivial"] = outcome.states
            coverage["rule"] = module.RULE
        evidence = {
            "property": identifier,
            "tier": tier,
            "seed": seed,
            "level": level,
            "coverage": coverage,
            "assumptions": module.ASSUMPTIONS,
            "violations": 1 if violation else 0,
            "wall_s": round(wall, 3),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", identifier + ".json")
        with open(path + ".tmp", "w") as handle:
            json.dump(evidence, handle, indent=1)
        os.replace(path + ".tmp", path)
        print(
            "{} {}: {} traces, {} transitions, {} states, {:.1f} s".format(
                identifier,
                tier,
                outcome.traces,
                outcome.transitions,
                outcome.states,
                wall,
            )
        )
        if violation is None:
            return 0
        if known is not None:
            print("KNOWN-FINDING: property={} {}".format(identifier, known))
            return 0
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        target = os.path.join(
            HERE, "replays", "{}-{}.json".format(identifier, os.getpid())
        )
        with open(target, "w") as handle:
            json.dump(
                {"property": identifier, "tier": tier, "violation": violation},
                handle,
                indent=1,
            )
        print(violation["message"])
        print("case: " + engine.shorten(violation["case"], 3000))
        print("VIOLATION property={} replay={}".format(identifier, target))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    with open(path) as handle:
        record = json.load(handle)
    identifier = record["property"]
    scratch = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        module = load_property(identifier)
        again = getattr(module, "replay_case", None)
        if again is not None:
            message = again(record["tier"], record["violation"], scratch)
        else:
            message = replay_case(
                identifier, record["tier"], record["violation"], scratch
            )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if message is None:
        print("not reproduced")
        return 0
    print(message)
    print("VIOLATION property={} replay={}".format(identifier, path))
    return 1


def main():
    arguments = sys.argv[1:]
    try:
        if arguments[0] == "replay":
            return replay(arguments[1])
        tier = (
            arguments[1]
            if len(arguments) > 1
            else os.environ.get("VERIF_TIER", "quick") or "quick"
        )
        return decide(arguments[0], tier)
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
