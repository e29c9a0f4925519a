"""Does the interpreter of pyvc admit what CPython does?

    python tools/crosscheck.py [rounds] [seed]

Every snippet runs on the same values twice: in CPython, and in the verifier on unknown arguments that are assumed to be equal
to these values. At least one path of the verifier has to admit CPython's outcome (result and final state of the arguments, or
class of the exception). "exact" counts the runs in which it admits nothing else.
"""
import copy
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import core, verify  # noqa: E402
from pyvc.core import INT, STR, Raised, z3  # noqa: E402
from pyvc.interp import as_term  # noqa: E402

SNIPPETS = []


def snippet(*kinds):
    def register(fn):
        SNIPPETS.append((fn, kinds))
        return fn
    return register


@snippet("s", "s")
def starts(a, b):
    return a.startswith(b), a.endswith(b), b in a, a + b, len(a)


@snippet("s")
def strips(a):
    return a.strip(), a.lstrip(), a.rstrip(), a.strip("-"), a.lower()


@snippet("s", "s")
def finds(a, b):
    return a.find(b), a.rfind(b)


@snippet("s", "s", "n")
def finds_from(a, b, i):
    return a.find(b, i), a.count(b), a.strip(b), a.rstrip(b), a.replace(b, "x"), a.replace("b", b)


@snippet("s", "s")
def index_of(a, b):
    return a.index(b)


@snippet("s", "n", "n")
def slices(a, i, j):
    return a[i:j], a[i:], a[:j]


@snippet("s", "n")
def at(a, i):
    return a[i]


@snippet("s")
def replaces(a):
    return a.replace("a", "bb"), a.replace("a ", "", 1)


@snippet("s")
def splits(a):
    return a.split()


@snippet("s")
def split_by(a):
    return a.split(" ")


@snippet("s")
def lines_of(a):
    return a.splitlines()


@snippet("s")
def parts(a):
    return a.partition(" ")


@snippet("s")
def tests(a):
    return bool(a), a.isidentifier(), a == "ab", a != "ab", a < "b"


@snippet("s", "n")
def formats(a, i):
    return f"{a}-{i}", f"<{a}>"


@snippet("ls", "s")
def joins(xs, a):
    return a.join(xs), "\n".join(f"    {x}" for x in xs)


@snippet("ls")
def comprehension(xs):
    return [x + "!" for x in xs if x != "a"]


@snippet("ls")
def distinct(xs):
    return sorted(set(xs)), len(set(xs))


@snippet("cs")
def counts(xs):
    seen = {}
    for x in xs:
        seen[x] = seen.get(x, 0) + 1
    return seen


@snippet("li")
def numbers(xs):
    return len(xs), any(x > 2 for x in xs), all(x > 0 for x in xs), xs[1:], xs[:-1], 1 in xs


@snippet("li")
def extremes(xs):
    return max(xs), min(xs)


@snippet("li")
def changes(xs):
    xs.append(7)
    xs.insert(0, 5)
    return xs.pop()


@snippet("li", "n")
def inserts(xs, i):
    xs.insert(i, 9)


@snippet("li", "n")
def pops(xs, i):
    return xs.pop(i)


@snippet("li", "n")
def deletes(xs, i):
    del xs[i]


@snippet("li", "n")
def stores(xs, i):
    xs[i] = 11


@snippet("li", "n")
def reads(xs, i):
    return xs[i]


@snippet("li", "li")
def joined(xs, ys):
    return xs + ys, xs == ys, [*xs, *ys]


@snippet("li")
def extended(xs):
    xs.extend([1, 2])
    xs += [3]
    return xs.copy()


@snippet("li", "li")
def pairs(xs, ys):
    return list(zip(xs, ys)), list(enumerate(xs, start=1)), list(reversed(xs))


@snippet("li", "n")
def removes(xs, x):
    xs.remove(x)


@snippet("li", "n")
def position(xs, x):
    return xs.index(x)


@snippet("n", "n")
def arithmetic(a, b):
    return a + b, a - b, a * b, -a, a < b, a == b, min(a, b), max(a, b), abs(a - b)


@snippet("n", "n")
def division(a, b):
    return a // b, a % b


@snippet("ds", "s")
def reading(d, k):
    return d.get(k), d.get(k, "-"), k in d, len(d), list(d), list(d.values()), list(d.items())


@snippet("ds", "s")
def lookup(d, k):
    return d[k]


@snippet("ds", "s")
def writing(d, k):
    d[k] = "new"
    d.update({"a": "other"})
    return d.setdefault(k, "x"), dict(d)


@snippet("ds", "s")
def taking(d, k):
    return d.pop(k)


@snippet("ds", "s")
def dropping(d, k):
    del d[k]


@snippet("ds")
def copies(d):
    e = dict(d)
    e["z"] = "1"
    return e, d, {k: v + "!" for k, v in d.items()}, {**d, "b": "2"}


@snippet("zs", "zs", "s")
def sets(a, b, x):
    return a | b, a & b, a - b, a <= b, a == b, x in a, len(a), sorted(a), a.union(b), a.issubset(b), bool(a)


@snippet("zs", "s")
def changing_sets(a, x):
    a.add(x)
    a.update({"q"})
    a.discard("a")
    return len(a)


@snippet("ci")
def loop_break(xs):
    found = None
    for x in xs:
        if x == 2:
            found = x
            break
    else:
        found = -1
    return found


@snippet("n")
def loop_while(a):
    n, steps = a % 4, 0
    while n > 0:
        n -= 1
        steps += 1
        if steps == 2:
            continue
    return n, steps


@snippet("n", "s")
def trying(a, s):
    done = []
    try:
        done.append("try")
        if a > 3:
            raise ValueError(s)
        if a > 1:
            return done
    except ValueError as error:
        done.append("caught")
        return done, isinstance(error, Exception)
    else:
        done.append("else")
    finally:
        done.append("finally")
    return done


@snippet("n", "n")
def boolean(a, b):
    return a and b, a or b, not a, a if b else 0, 0 < a <= b, (a, b) == (b, a)


@snippet("n", "n")
def unpacking(a, b):
    x, *rest = [a, b, 3]
    (p, q), r = (b, a), x
    return rest, p, q, r


@snippet("n")
def closures(a):
    def inner(b, c=2, *args, **kwargs):
        return a + b + c + len(args) + len(kwargs)
    return inner(1), inner(1, 3, 4), inner(b=1, z=3), (lambda x: x + a)(1)


@snippet("li", "ds")
def sequence_of_changes(xs, d):
    ys = xs
    ys.append(1)
    zs = list(xs)
    zs.append(2)
    d["k"] = "v"
    e = d
    e["a"] = "w"
    return len(xs), len(zs), list(d.items()), ys is xs, sorted(xs), tuple(zs)


@snippet("ls", "ls")
def nested(xs, ys):
    return [[x, y] for x, y in zip(xs, ys)], {x: y for x, y in zip(xs, ys)}, {x for x in xs}, [i for i, x in enumerate(xs) if x]


@snippet("ls")
def mapped(xs):
    return list(map(len, xs)), list(filter(None, xs)), any(xs), all(xs), next(iter(xs), None), next((x for x in xs if x > "a"), 0)


@snippet("n", "s")
def kinds(a, s):
    return isinstance(a, int), isinstance(s, (int, str)), type(a) is int, callable(a), str(a), hasattr(s, "split")


@snippet("cs")
def deduplicate(xs):
    out, seen = [], set()
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


ALPHABET = ["a", "b", " ", "\n", "-", "#", '"', "é", "ab", "  "]


def sample(kind, rnd):
    if kind == "s":
        return "".join(rnd.choice(ALPHABET) for _ in range(rnd.randint(0, 4)))
    if kind == "n":
        return rnd.randint(-3, 5)
    if kind in ("li", "ci"):
        return [rnd.randint(0, 3) for _ in range(rnd.randint(0, 4))]
    if kind in ("ls", "cs"):
        return [sample("s", rnd) if rnd.random() < 0.5 else rnd.choice("abc") for _ in range(rnd.randint(0, 4))]
    if kind == "ds":
        return {rnd.choice("abcd"): sample("s", rnd) for _ in range(rnd.randint(0, 3))}
    if kind == "zs":
        return {rnd.choice("abcd") for _ in range(rnd.randint(0, 3))}
    raise ValueError(kind)


def same(V, r, want):
    """The term of `r == want`."""
    if isinstance(want, (list, tuple)):
        if isinstance(r, (list, tuple)):
            if type(r) is not type(want) or len(r) != len(want):
                return z3.BoolVal(False)
            return z3.And(z3.BoolVal(True), *(same(V, a, b) for a, b in zip(r, want)))
        view = V.eng.view(r)
        return z3.And(view.n == len(want), *(same(V, view.get(z3.IntVal(j)), w) for j, w in enumerate(want)))
    if isinstance(want, dict):
        keys = V.call(list, r)
        if any(V.branch(z3.Not(as_term(V.i.contains(r, k)))) for k in want):
            return z3.BoolVal(False)
        return z3.And(same(V, keys, list(want)), *(same(V, V.i.getitem(r, k), v) for k, v in want.items()))
    if isinstance(want, (set, frozenset)):
        return z3.And(same(V, V.call(len, r), len(want)), *(as_term(V.i.contains(r, x)) for x in want))
    return as_term(V.i.equal(r, want))


def argument(V, kind, value):
    if kind == "s":
        a = V.str("s")
        V.assume(a.t == z3.StringVal(value))
    elif kind == "n":
        a = V.int("n")
        V.assume(a.t == value)
    elif kind in ("ci", "cs"):
        return [argument(V, "n" if kind == "ci" else "s", v) for v in value]
    elif kind in ("li", "ls"):
        a = V.list(INT if kind == "li" else STR, "xs")
        V.assume(same(V, a, value))
    elif kind == "ds":
        a = V.dict(STR, STR, "d")
        V.assume(same(V, a, value))
    elif kind == "zs":
        a = V.set(STR, "z")
        x = z3.Const("x!z", core.Str)
        V.assume(z3.ForAll([x], as_term(V.i.contains(a, core.SStr(x))) == z3.Or(
            z3.BoolVal(False), *(x == z3.StringVal(v) for v in value))))
        V.assume(same(V, V.call(len, a), len(value)))
    return a


def compare(fn, kinds, values):
    """"exact", "admitted", "undecided" (why), or "WRONG" (what)."""
    real = copy.deepcopy(values)
    try:
        want, error = fn(*real), None
    except Exception as e:
        want, error = None, type(e)
    seen = []

    def body(V):
        args = [argument(V, k, v) for k, v in zip(kinds, values)]
        r = V.run(fn, *args)
        if isinstance(r, Raised):
            agree = z3.BoolVal(error is not None and r.cls is error)
        elif error is not None:
            agree = z3.BoolVal(False)
        else:
            agree = same(V, r, want)
        after = [same(V, a, v) for k, a, v in zip(kinds, args, real) if k in ("li", "ls", "ds")]
        agree = z3.And(agree, *after)
        seen.append((sat(V, agree), sat(V, z3.Not(agree))))

    def sat(V, t):
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*V.eng.pc, t)
        return s.check()

    c = verify.Contract([], fn.__name__, body, (), (), 3000)
    report = verify.decide(c)
    if report["problem"]:
        return "undecided", report["problem"]
    if any(a != z3.unsat for a, b in seen):
        return ("exact" if all(b == z3.unsat for a, b in seen) else "admitted"), ""
    return "WRONG", f"CPython: {error.__name__ if error else repr(want)}"



def main():
    rounds, seed = (int(a) for a in (sys.argv[1:] + ["20", "1"][len(sys.argv) - 1:])[:2])
    rnd, wrong, totals = random.Random(seed), 0, {}
    for fn, kinds in [x for x in SNIPPETS if os.environ.get("ONLY", "") in x[0].__name__]:
        tally = {}
        for _ in range(rounds):
            values = [sample(k, rnd) for k in kinds]
            verdict, why = compare(fn, kinds, values)
            tally[verdict] = tally.get(verdict, 0) + 1
            totals[verdict] = totals.get(verdict, 0) + 1
            if verdict == "WRONG":
                wrong += 1
                print(f"WRONG {fn.__name__}{tuple(values)!r} {why}", flush=True)
            elif verdict == "undecided" and os.environ.get("WHY") and tally[verdict] == 1:
                print(f"undecided {fn.__name__}{tuple(values)!r} {why}", flush=True)
        print(fn.__name__, tally, flush=True)
    print("all", totals)
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(main())
