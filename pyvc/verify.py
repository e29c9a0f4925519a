"""Contracts: what is assumed of the arguments of a real function, and what is shown of its results."""
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (REPO, HERE):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)

from pyvc import core, interp, models  # noqa: E402,F401
from pyvc.core import Engine, PathEnd, Raised, Restart, Unsupported, z3  # noqa: E402
from pyvc.interp import REG, Interp  # noqa: E402

CONTRACTS = []


class Contract:
    def __init__(self, pids, name, body, covers, obligations, prove_ms):
        self.pids, self.name, self.body, self.covers, self.obligations, self.prove_ms = (
            pids, name, body, covers, obligations, prove_ms)


def contract(pids, name, covers=("reached",), obligations=(), prove_ms=10000):
    """`covers`: points that have to be reachable. `obligations`: those that must have been generated."""
    pids = pids.split() if isinstance(pids, str) else list(pids)

    def register(body):
        CONTRACTS.append(Contract(pids, name, body, tuple(covers), tuple(obligations), prove_ms))
        return body

    return register


class Verifier:
    """What the body of a contract works with."""

    def __init__(self, eng, c):
        self.eng, self.i, self.c = eng, Interp(eng), c

    # values
    def int(self, name="n"):
        return core.SInt(self.eng.new(name, core.Int))

    def str(self, name="s"):
        return core.SStr(self.eng.new(name, core.Str))

    def bool(self, name="b"):
        return core.SBool(self.eng.new(name, core.Bool))

    def any(self, name="x", cls=None):
        return core.SVal(self.eng.new(name, core.Val), cls)

    def fresh(self, kind, name="v"):
        return self.eng.fresh(kind, name)

    def list(self, kind, name="xs"):
        return self.eng.fresh(core.ListK(kind), name)

    def tuple(self, kind, name="xs"):
        return self.eng.fresh(core.ListK(kind, "tuple"), name)

    def set(self, kind, name="set"):
        return self.eng.fresh(core.SetK(kind), name)

    def dict(self, kk, vk, name="dict"):
        cell = self.eng.dict_cell()
        cell.state = self.i.fresh_dict(kk, vk, name)
        return cell

    def obj(self, cls, **attrs):
        return self.eng.inst(cls, attrs, cls.__name__)

    # what happens
    def run(self, fn, *args, **kwargs):
        """The result of the real body, or the Raised that left it."""
        fn = getattr(fn, "__func__", fn)
        if isinstance(fn, property):
            fn = fn.fget
        try:
            return self.i.run(fn, args, kwargs)
        except Raised as error:
            return error

    def call(self, fn, *args, **kwargs):
        try:
            return self.i.call(fn, args, kwargs)
        except Raised as error:
            return error

    def call_star(self, fn, view):
        try:
            return self.i.call_star(fn, view)
        except Raised as error:
            return error

    def assume(self, term):
        self.eng.assume(term)

    def branch(self, term):
        return self.eng.branch(term)

    def prove(self, label, goal):
        return self.eng.prove(f"{self.c.name}: {label}", goal)

    def lemma(self, label, hyps, goal, over=(), patterns=(), using=()):
        """Proved from these hypotheses alone (and from `using`: some of what is known), then known for all `over`."""
        for u in using:
            if not any(u.eq(t) for t in self.eng.pc):
                self.prove(f"{label} (used)", u)
        self.eng.prove_alone(f"{self.c.name}: {label}", [*using, *hyps], goal)
        fact = z3.Implies(z3.And(*hyps), goal) if hyps else goal
        fact = z3.ForAll(list(over), fact, patterns=list(patterns)) if over else fact
        self.eng.assume(fact)
        return fact

    def induction(self, label, P, start, hyps=lambda j: [], upto=None, using=(), patterns=()):
        """P(j) for every j from start on (below upto, at most upto), if `hyps(j)` carries it from j to j + 1.

        `hyps(j)` has to follow from `using`, of what is known.
        """
        j = z3.Int("j!induction")
        inside = [j >= start] if upto is None else [j >= start, j < upto]
        for u in using:
            if not any(u.eq(t) for t in self.eng.pc):
                self.prove(f"{label} (used)", u)
        name = f"{self.c.name}: {label}"
        self.prove(f"{label} (base)", P(start))
        for h in hyps(j):
            self.eng.prove_alone(f"{name} (premises)", [*using, *inside], h)
        self.eng.prove_alone(f"{name} (step)", [*inside, *hyps(j), P(j)], P(j + 1))
        fact = z3.ForAll([j], z3.Implies(z3.And(j >= start, *([j <= upto] if upto is not None else [])), P(j)),
                         patterns=[p(j) for p in patterns])
        self.eng.assume(fact)
        return fact

    def no_exception(self, r, label="raises nothing"):
        """Ends the path if the function raised."""
        self.prove(label, not isinstance(r, Raised))
        if isinstance(r, Raised):
            if os.environ.get("VC_TRACE"):
                print("raised", r.cls, r.exc_args)
            raise PathEnd

    def cover(self, what="reached"):
        self.eng.cover(f"{self.c.name}: {what}")

    def end(self):
        raise PathEnd


SHAPES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "loops.json")


def load(pid=None):
    if not CONTRACTS:
        import contracts
        for m in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda m: m.name):
            importlib.import_module(f"contracts.{m.name}")
        try:
            with open(SHAPES) as f:
                REG.loop_shapes.update(json.load(f))
        except FileNotFoundError:
            pass
    return [c for c in CONTRACTS if pid is None or pid in c.pids]


def decide(c, deadline=None):
    """Generates and discharges the obligations of a contract: a dictionary for the report."""
    eng = Engine(prove_ms=c.prove_ms, deadline=deadline)
    base = (dict(REG.summaries), dict(REG.fields), dict(REG.setters), dict(REG.iters), dict(REG.loops),
            dict(REG.methods), dict(REG.models))
    began = time.time()
    problem = None

    def once():
        REG.summaries, REG.fields, REG.setters, REG.iters, REG.loops = (dict(b) for b in base[:5])
        REG.methods, REG.models = dict(base[5]), dict(base[6])
        c.body(Verifier(eng, c))

    paths = 0
    try:
        paths = eng.explore(once)
    except Unsupported as error:
        problem = f"outside the verifier's reach: {error}"
    except (Raised, interp.Break, interp.Continue, interp.Return) as error:
        problem = f"unexpected in the contract: {type(error).__name__} {error}"
    except (z3.Z3Exception, RecursionError, AttributeError, TypeError, KeyError, ValueError, AssertionError,
            NotImplementedError, IndexError) as error:
        problem = f"verifier failed: {type(error).__name__} {error}"
        if os.environ.get("VC_TRACE"):
            print('\n'.join(traceback.format_exc().splitlines()[-9:]))
    finally:
        (REG.summaries, REG.fields, REG.setters, REG.iters, REG.loops, REG.methods, REG.models) = base
    if os.environ.get("VC_TRACE") and problem:
        print(problem)
    obligations = []
    for o in eng.outcomes.values():
        if o.failed:
            status, detail = o.failed[0][:2]
        elif problem:
            status, detail = "undecided", problem
        else:
            status, detail = "discharged", ""
        obligations.append({"name": o.name, "status": status, "detail": detail, "vcs": o.vcs, "back_ends": o.backends})
    names = {o["name"] for o in obligations}
    missing = [n for n in c.obligations if f"{c.name}: {n}" not in names]
    if problem and not obligations or missing:
        for n in missing or ["(all)"]:
            obligations.append({"name": f"{c.name}: {n}", "status": "undecided",
                                "detail": problem or "not generated", "vcs": 0, "back_ends": {}})
    vacuous = [] if problem else [n for n in c.covers if eng.covered.get(f"{c.name}: {n}", "no") == "no"]
    for n in vacuous:
        obligations.append({"name": f"{c.name}: {n} is possible", "status": "undecided",
                            "detail": "no path reaches it: the contract says nothing", "vcs": 0, "back_ends": {}})
    return {"contract": c.name, "obligations": obligations, "paths": paths, "functions": sorted(eng.functions),
            "assumed": sorted(eng.assumed), "summaries": sorted(".".join(map(str, k)) for k in eng.summaries_used),
            "solver_s": round(eng.solver_s, 2), "wall_s": round(time.time() - began, 2),
            "loop_shapes": dict(eng.loop_shapes), "covered": dict(eng.covered), "problem": problem, "digest": interp.digest(eng.sources)}
