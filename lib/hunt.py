"""Runs bounded hunts: seeded generation, counting, shrinking, replay files."""
import json
import os
import random
import time
import traceback

from lib import specs


class Hunt:
    def __init__(self, name, cases, check, shrink=None, share=1.0, nontrivial=None, maximum=None, rule=""):
        self.name, self.cases, self.check, self.shrink = name, cases, check, shrink
        self.share, self.nontrivial, self.maximum, self.rule = share, nontrivial, maximum, rule


def run_hunt(hunt, seed, seconds, verbose=False):
    rng = random.Random(f"{seed}-{hunt.name}")
    end = time.time() + seconds
    stats = {"hunt": hunt.name, "evaluations": 0, "distinct_nontrivial": 0, "rule": hunt.rule, "samples": []}
    seen = set()
    for case in hunt.cases(rng):
        message = evaluate(hunt, case)
        stats["evaluations"] += 1
        key = repr(case)
        if key not in seen:
            seen.add(key)
            if hunt.nontrivial is None or hunt.nontrivial(case):
                stats["distinct_nontrivial"] += 1
                if len(stats["samples"]) < 3 and len(key) < 1500:
                    stats["samples"].append(key)
        if message is not None:
            small = case
            if hunt.shrink is not None:
                try:
                    small = hunt.shrink(case)
                except Exception:
                    traceback.print_exc()
            final = evaluate(hunt, small)
            if final is None:
                small, final = case, message
            return stats, (small, final)
        if time.time() > end or (hunt.maximum and stats["evaluations"] >= hunt.maximum):
            break
    return stats, None


def evaluate(hunt, case):
    """None if the property holds for the case, else what fails. An exception of the code under test is a failure."""
    try:
        return hunt.check(case)
    except AssertionError:
        return "assertion\n" + traceback.format_exc()
    except Exception:
        text = traceback.format_exc()
        if "lazy_type_hint/" in text:
            return "the code under test raised\n" + text
        raise


def to_json(case):
    return json.loads(json.dumps(case, default=lambda o: {"__repr__": repr(o)}))


def from_json(case):
    return specs.totuple(case)
