"""Runs the bounded hunts of one property in this process. Output: one JSON line.

usage: run_hunts.py PID SEED SECONDS [--live]    |   run_hunts.py PID --replay FILE
"""
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from lib import guard, target  # noqa: E402


def main(argv):
    pid = argv[0]
    live = "--live" in argv
    argv = [a for a in argv if a != "--live"]
    base = os.path.realpath(target.scratch_dir())
    if live:
        copy = target.scratch_copy()
        os.environ["VERIF_SCRATCH"] = "1"
        os.environ["VERIF_REPO"] = target.REPO = os.path.realpath(copy)
    real_scratch_dir = target.scratch_dir

    def scratch_dir():
        path = real_scratch_dir()
        if os.path.realpath(path) not in guard.allowed:
            guard.allowed.append(os.path.realpath(path))
        return path

    target.use_repo()
    target.scratch_dir = scratch_dir
    guard.install(base, *([os.environ["VERIF_REPO"]] if live else []))
    from hunts import registry
    from lib import hunt as H

    hunts = registry.hunts(pid)
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            replay = json.load(f)
        for hunt in hunts:
            if hunt.name == replay["hunt"]:
                message = H.evaluate(hunt, H.from_json(replay["case"]))
                print(json.dumps({"message": message}))
                return 0
        return 3
    seed, seconds = argv[1], float(argv[2])
    results = []
    for hunt in hunts:
        stats, violation = H.run_hunt(hunt, seed, seconds / len(hunts))
        results.append({"stats": stats, "violation": violation})
        if violation:
            break
    known = []
    if pid == "C03" and not live:
        from hunts import trees

        if hasattr(trees, "c03_known"):
            known = trees.c03_known() or []
    print("RESULT " + json.dumps({"results": results, "known": known}, default=repr))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
