"""usage: python -m pyvc.run PID TIER: decides the obligations of one property and prints a RESULT line.

Also: python -m pyvc.run --list, python -m pyvc.run --only TEXT (contracts whose name contains TEXT).
"""
import json
import multiprocessing
import os
import sys
import time

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

WORKERS = int(os.environ.get("VC_WORKERS", "4"))
TOTAL = {"quick": 330, "thorough": 1500}
EACH = {"quick": 150, "thorough": 600}


def work(c, each, pipe):
    from pyvc import verify

    try:
        r = verify.decide(c, time.time() + each)
    except BaseException as error:  # noqa: BLE001
        import traceback
        r = {"contract": c.name, "obligations": [{"name": f"{c.name}: (all)", "status": "undecided", "vcs": 0,
                                                  "detail": f"verifier failed: {error!r}", "back_ends": {}}],
             "paths": 0, "functions": [], "assumed": [], "summaries": [], "solver_s": 0, "wall_s": 0, "covered": {},
             "problem": traceback.format_exc()}
    pipe.send(r)
    pipe.close()


def run_all(contracts, tier, show=False):
    """Every contract in a process of its own, so that none can hold up or spoil another."""
    ctx = multiprocessing.get_context("fork")
    began, each = time.time(), EACH[tier]
    pending, running, results = list(contracts), [], []
    while pending or running:
        while pending and len(running) < WORKERS:
            c = pending.pop(0)
            here, there = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(c, each, there))
            p.start()
            there.close()
            running.append((c, p, here, time.time()))
        for item in list(running):
            c, p, here, start = item
            r = None
            late = time.time() - start > each + 60 or time.time() - began > TOTAL[tier]
            if here.poll(0):
                try:
                    r = here.recv()
                except EOFError:
                    r = lost(c, "the verifier ended without an answer")
            elif late:
                p.kill()
                r = lost(c, "out of time")
            if r is not None:
                p.join()
                running.remove(item)
                results.append(r)
                if show:
                    report(r)
        time.sleep(0.02)
    return results


RECORD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "discharged.json")


def settle(results):
    """What was discharged once for the very same functions only lacks time: no reason to report it."""
    try:
        with open(RECORD) as f:
            record = json.load(f)
    except FileNotFoundError:
        record = {}
    for r in results:
        same = record.get(r["contract"]) == r.get("digest", "")
        for o in r["obligations"]:
            if o["status"] == "unproved" and same:
                o["status"], o["detail"] = "undecided", "out of time; discharged before for the very same functions"


def lost(c, why):
    return {"contract": c.name, "obligations": [{"name": f"{c.name}: {n}", "status": "undecided", "detail": why,
                                                 "vcs": 0, "back_ends": {}} for n in c.obligations or ["(all)"]],
            "paths": 0, "functions": [], "assumed": [], "summaries": [], "solver_s": 0, "wall_s": 0, "covered": {},
            "problem": why}


def report(r):
    bad = [o for o in r["obligations"] if o["status"] != "discharged"]
    print(f"{'ok ' if not bad else 'BAD'} {r['contract']}: {len(r['obligations'])} obligations, {r['paths']} paths, "
          f"{r['wall_s']} s" + (f" [{r['problem']}]" if r["problem"] else ""), flush=True)
    for o in bad:
        print(f"      {o['status']}: {o['name']}: {o['detail'][:700]}", flush=True)
    for k, v in r["covered"].items():
        if v not in ("yes", "ground"):
            print(f"      cover {k}: {v}", flush=True)


def main():
    from pyvc import interp, verify

    if sys.argv[1] == "--list":
        for c in verify.load():
            print(" ".join(c.pids), c.name)
        return
    if sys.argv[1] == "--only":
        chosen = [c for c in verify.load() if any(t in c.name for t in sys.argv[2:])]
        if os.environ.get("VC_TRACE"):
            for c in chosen:
                report(verify.decide(c))
            return
        run_all(chosen, "thorough", show=True)
        return
    if sys.argv[1] == "--record":
        interp.REG.loop_shapes.clear()
        results = run_all(verify.load(), "thorough")
        bad = [o for r in results for o in r["obligations"] if o["status"] != "discharged"]
        for o in bad:
            print(o["status"], o["name"], o["detail"][:200])
        with open(RECORD, "w") as f:
            json.dump({r["contract"]: r["digest"] for r in sorted(results, key=lambda r: r["contract"])
                       if all(o["status"] == "discharged" for o in r["obligations"])}, f, indent=1)
        shapes = {k: v for r in results for k, v in r.get("loop_shapes", {}).items()}
        with open(verify.SHAPES, "w") as f:
            json.dump(dict(sorted(shapes.items())), f, indent=1)
        print(sum(len(r["obligations"]) for r in results), "obligations,", len(bad), "not discharged")
        return
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    chosen, slower = verify.load(pid), 1
    if "--again" in sys.argv:
        # Those whose obligations no solver could discharge, with more time
        names, slower = sys.argv[sys.argv.index("--again") + 1:], 3
        chosen = [c for c in chosen if c.name in names]
        for c in chosen:
            c.prove_ms *= slower
    results = run_all(chosen, tier)
    settle(results)
    obligations = [o for r in results for o in r["obligations"]]
    back_ends = {}
    for o in obligations:
        for k, n in o["back_ends"].items():
            back_ends[k] = back_ends.get(k, 0) + n
    out = {
        "obligations": [dict({k: o[k] for k in ("name", "status", "detail")}, contract=r["contract"])
                        for r in results for o in r["obligations"]],
        "discharged": sum(o["status"] == "discharged" for o in obligations),
        "conditions": sum(o["vcs"] for o in obligations),
        "functions": sorted({f for r in results for f in r["functions"]}),
        "back_ends": back_ends,
        "solver_s": round(sum(r["solver_s"] for r in results), 2),
        "assumed": sorted({a for r in results for a in r["assumed"]}),
        "contracts_used": sorted({s for r in results for s in r["summaries"]}),
        "contracts": len(results),
    }
    print("RESULT " + json.dumps(out))


if __name__ == "__main__":
    main()
