"""Decides one property for the current tree of /repo.

usage: check.py PID            quick or thorough by VERIF_TIER, seeded by VERIF_SEED
       check.py PID --replay FILE

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: error of the check.
"""
import json
import os
import signal
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

LIVE = ("C09", "C10", "C11", "C12")
LIVE_ONLY = ("C11", "C12")
# Seconds of hunting per process, number of processes
BUDGET = {"quick": (22.0, 6), "thorough": (540.0, 7)}


def environment():
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", MPLCONFIGDIR="/tmp")
    env.setdefault("PYTHONHASHSEED", "0")
    return env


def start(args):
    return subprocess.Popen([PYTHON, "-W", "ignore", *args], cwd=HERE, env=environment(), stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, start_new_session=True)


def finish(process, timeout):
    """The result that a process printed (None if it printed none) and its last words."""
    try:
        out, err = process.communicate(timeout=max(timeout, 1))
    except subprocess.TimeoutExpired:
        os.killpg(process.pid, signal.SIGKILL)
        out, err = process.communicate()
        err += "\n(timed out)"
    for line in out.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:]), err
    return None, (out + err)[-3000:]


def hunt(pid, seed, seconds, workers):
    processes = []
    for i in range(workers):
        live = pid in LIVE_ONLY or (pid in LIVE and i % 3 == 2)
        args = ["run_hunts.py", pid, f"{seed}.{i}", str(seconds)] + (["--live"] if live else [])
        processes.append((start(args), live))
    return processes


def main():
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        return replay(pid, sys.argv[sys.argv.index("--replay") + 1])
    began = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    seconds, workers = BUDGET[tier]
    deadline = began + (840 if tier == "quick" else 3000)

    from pyvc import plan

    proving = start(["-m", "pyvc.run", pid, tier]) if plan.has_proofs(pid) else None
    processes = hunt(pid, seed, seconds, workers - (1 if proving else 0))
    results, errors = [], []
    for process, live in processes:
        result, text = finish(process, seconds * 4 + 120)
        if result is None:
            errors.append(text)
        else:
            results.append((result, live))
    proof = None
    if proving:
        proof, text = finish(proving, deadline - time.time())
        if proof is None:
            errors.append(text)
        elif not proof["obligations"]:
            errors.append("the contracts of the property generated no obligation")
    stats, violation, known = {}, None, []
    for result, live in results:
        known += [k if isinstance(k, str) else str(k) for k in (
            [result["known"]] if isinstance(result["known"], str) else result["known"])]
        for part in result["results"]:
            s = stats.setdefault(part["stats"]["hunt"], dict(part["stats"], evaluations=0, distinct_nontrivial=0))
            s["evaluations"] += part["stats"]["evaluations"]
            s["distinct_nontrivial"] += part["stats"]["distinct_nontrivial"]
            if part["violation"] and violation is None:
                violation = dict(property=pid, hunt=part["stats"]["hunt"], live=live, case=part["violation"][0],
                                 message=part["violation"][1])
    undischarged = [o for o in proof["obligations"] if o["status"] != "discharged"] if proof else []
    unproved = sorted({o["contract"] for o in undischarged if o["status"] == "unproved"})
    if violation is None and undischarged:
        # Contracts fail: look harder for a failing input, and give the solvers more time
        again = start(["-m", "pyvc.run", pid, tier, "--again", *unproved]) if unproved else None
        for process, live in hunt(pid, seed + 7919, min(60.0, max(1.0, (deadline - time.time()) / 8)), 5):
            result, _ = finish(process, 300)
            for part in (result or {"results": []})["results"]:
                if part["violation"] and violation is None:
                    violation = dict(property=pid, hunt=part["stats"]["hunt"], live=live, case=part["violation"][0],
                                     message=part["violation"][1])
        if again:
            second, _ = finish(again, max(5, deadline - time.time()))
            if second is not None:
                proof["obligations"] = [o for o in proof["obligations"] if o["contract"] not in unproved] + second[
                    "obligations"]
                proof["discharged"] = sum(o["status"] == "discharged" for o in proof["obligations"])
                undischarged = [o for o in proof["obligations"] if o["status"] != "discharged"]
    failed = [o for o in undischarged if o["status"] in ("refuted", "unproved")]
    no_input = ""
    if violation is None and failed:
        violation = dict(property=pid, obligations=failed, message="\n\n".join(
            f"failed obligation: {o['name']}: {o['status']}\n{o.get('detail', '')}" for o in failed))
        no_input = " no-failing-input-found"
    elif violation is not None and undischarged:
        violation["obligations"] = undischarged
    if violation is None and errors:
        print("\n".join(errors), file=sys.stderr)
        return 3
    evidence(pid, tier, seed, stats, proof, violation, time.time() - began)
    if violation is not None:
        path = os.path.join(HERE, "replays", f"{pid}-{seed}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, default=repr)
        print(violation["message"][:4000])
        print(f"VIOLATION property={pid} replay={path}{no_input}")
        return 1
    for text in sorted(set(known)):
        print(f"KNOWN-FINDING: property={pid} {text}")
    for o in undischarged:
        print(f"undecided: {o['name']} ({o.get('detail', '')[:200]}); the bounded hunts stand in for it")
    total = sum(s["evaluations"] for s in stats.values())
    proved = f", {proof['discharged']} of {len(proof['obligations'])} obligations discharged" if proof else ""
    print(f"{pid} held: {total} cases{proved}")
    return 0


def evidence(pid, tier, seed, stats, proof, violation, wall):
    from pyvc import plan

    total = sum(s["evaluations"] for s in stats.values())
    distinct = sum(s["distinct_nontrivial"] for s in stats.values())
    samples = [x for s in stats.values() for x in s["samples"]][:5]
    coverage = {
        "evaluations": total,
        "distinct_nontrivial": distinct,
        "rule": plan.HUNT_RULE.get(pid, "random cases made by the generators in hunts/; distinct ones are counted"),
        "samples": samples,
        "hunts": {k: v["evaluations"] for k, v in stats.items()},
    }
    level = "exploration"
    if proof:
        level = plan.level(pid)
        coverage.update(
            obligations=len(proof["obligations"]),
            discharged=proof["discharged"],
            checker_cmd=f"{PYTHON} -m pyvc.run {pid} {tier}",
            trusted_base=plan.TRUSTED + proof.get("assumed", []),
            functions_under_contract=proof.get("functions", []),
            back_ends=proof.get("back_ends", {}),
            solver_s=proof.get("solver_s"),
            undischarged=[o["name"] for o in proof["obligations"] if o["status"] != "discharged"],
            bounded_stand_ins=plan.BOUNDED.get(pid, ""),
        )
    out = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
           "assumptions": plan.ASSUMPTIONS.get(pid, []), "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(out, f, indent=1, default=repr)


def replay(pid, path):
    with open(path) as f:
        data = json.load(f)
    if "case" not in data:
        print(data["message"])
        return 1
    args = ["run_hunts.py", pid, "--replay", path] + (["--live"] if data.get("live") else [])
    out = subprocess.run([PYTHON, "-W", "ignore", *args], cwd=HERE, env=environment(), capture_output=True, text=True)
    print(out.stdout, out.stderr)
    return 1 if '"message": null' not in out.stdout else 0


if __name__ == "__main__":
    sys.exit(main())
