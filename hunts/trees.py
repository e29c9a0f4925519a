"""Bounded contract hunts over data structures (C01-C08, C16, C19, C20): real code, API level."""
import itertools
import json
import os
import random
import subprocess
import sys

from lib import common, parse, pool, specs
from lib.specs import expected, Gen

ORDERED = ["list", "tuple", "dict", "dict", "dict", "series", "mylist", "mdict", "mytuple", "point", "proxy", "iter", "gen"]
ALL = ["list", "tuple", "set", "frozenset", "iter", "gen", "dict", "dict", "dict", "proxy", "series", "mylist", "mdict",
       "mytuple", "myset", "point"]
PLAIN = ["int", "float", "str", "bool", "none", "foo", "bytes", "type_int", "arr_i", "arr_f", "f_full", "lam1"]


def parsed(spec, st, name="Root"):
    return parse.Module(common.hint_text(spec, st, name))


def shrinker(check):
    def run(case):
        spec, st = case[0], case[1]

        def fails(s):
            return specs.valid(s) and not common.has_ambiguous_set(s, st) and check((s, st, *case[2:])) is not None

        spec = common.shrink(spec, fails)
        for key, value in specs.DEFAULTS.items():
            if st[key] != value:
                st2 = dict(st, **{key: value})
                if not common.has_ambiguous_set(spec, st2) and check((spec, st2, *case[2:])) is not None:
                    st = st2
        return (spec, st, *case[2:])

    return run


def nontrivial(case):
    spec = case[0]
    return spec[0] != "leaf" and len(spec[1]) > 0


def tree_cases(rng, *, kinds=ALL, leaves=None, roots=None, st_fixed=None, **kw):
    while True:
        g = Gen(rng, kinds=kinds, leaves=leaves, **kw)
        st = specs.strategies(rng, **(st_fixed or {}))
        spec = g.container(rng.choice(roots or kinds))
        if common.has_ambiguous_set(spec, st) or not specs.valid(spec):
            continue
        yield (spec, st)


# --------------------------------------------------------------------------------------------------- C01
def admits(t, spec, st):
    """Whether the hint covers every inspected element of the data."""
    kind = spec[0]
    if kind == "leaf":
        own = specs.leaf_type(spec[1])
        return t == own or (own == ("name", "int") and t == ("name", "float"))
    if kind in specs.SEQ:
        items = specs.limit(spec[1], st)
        if t[0] == "Tuple":
            return len(t[1]) == len(items) and all(admits(a, i, st) for a, i in zip(t[1], items))
        if t[0] == "TupleAny":
            return not items
        if t[0] not in ("List", "Sequence", "Set", "FrozenSet", "Iterator", "Series", "TupleAnySize"):
            return False
        return all(any(admits(a, i, st) for a in t[1]) for i in items)
    if kind in specs.MAP:
        if t[0] == "TypedDict":
            fields = {f[0]: f[3] for f in t[1]}
            return all(specs.key_of(k) in fields and admits(fields[specs.key_of(k)], v, st) for k, v in spec[1])
        if t[0] not in ("Dict", "Mapping", "MappingProxyType"):
            return False
        full = kind != "proxy" and st["dict_strategy"] == "TypedDict"
        items = spec[1] if full else specs.limit(spec[1], st)
        for k, v in items:
            name = specs.key_type_name(k)
            if name not in t[1] and not (name == "int" and "float" in t[1]):
                return False
            if not any(admits(a, v, st) for a in t[2]):
                return False
        return True
    return True


def c01_check(case):
    spec, st = case
    try:
        module = parsed(spec, st)
    except parse.Bad as error:
        return f"the hint cannot be read: {error}"
    t = module.defs.get("Root")
    if t is None or not admits(t, spec, st):
        return f"an inspected element is not covered by the hint {t}\n{module.text}"
    return None


# --------------------------------------------------------------------------------------------------- C02
def same_kind(t, spec, st):
    kind = spec[0]
    if kind == "leaf":
        return t == specs.leaf_type(spec[1])
    names = {"list": ("List", "Sequence"), "mylist": ("List", "Sequence"), "set": ("Set",), "myset": ("Set",),
             "frozenset": ("FrozenSet",), "iter": ("Iterator",), "gen": ("Iterator",), "series": ("Series",),
             "tuple": ("Tuple", "TupleAny", "TupleAnySize"), "mytuple": ("Tuple", "TupleAny", "TupleAnySize"),
             "point": ("Tuple", "TupleAny", "TupleAnySize"), "dict": ("TypedDict", "Dict", "Mapping"),
             "mdict": ("TypedDict", "Dict", "Mapping"), "proxy": ("MappingProxyType",), "df": ("DF", "DFplain")}
    return t[0] in names[kind] and admits(t, spec, st)


def witnessed(t, cands, st):
    """Every alternative within t stems from some of the candidate data."""
    cands = [c for c in cands if same_kind(t, c, st)]
    if not cands:
        return f"{t} stems from no element"
    kind = t[0]
    if kind == "TypedDict":
        for key, _, _, sub in t[1]:
            values = [v for c in cands for k, v in c[1] if specs.key_of(k) == key]
            error = witnessed(sub, values, st)
            if error:
                return error
    elif kind in ("Dict", "Mapping", "MappingProxyType"):
        full = kind != "MappingProxyType" and st["dict_strategy"] == "TypedDict"
        items = [kv for c in cands for kv in (c[1] if full else specs.limit(c[1], st))]
        if (not t[2] or not t[1]) and not any(not c[1] for c in cands):
            return "Any for a container that is not empty"
        names = {specs.key_type_name(k) for k, _ in items}
        if not set(t[1]) <= names:
            return f"key types {set(t[1]) - names} stem from no key"
        for sub in t[2]:
            error = witnessed(sub, [v for _, v in items], st)
            if error:
                return error
    elif kind == "Tuple":
        for idx, sub in enumerate(t[1]):
            items = [specs.limit(c[1], st) for c in cands]
            # a merged dictionary stands for all dictionaries next to it
            values = [i[idx] for i in items if len(i) > idx] if sub[0] != "TypedDict" else [x for i in items for x in i]
            error = witnessed(sub, values, st)
            if error:
                return error
    elif kind in ("List", "Sequence", "Set", "FrozenSet", "Iterator", "Series", "TupleAnySize"):
        if not t[1] and not any(not c[1] for c in cands):
            return "Any for a container that is not empty"
        for sub in t[1]:
            error = witnessed(sub, [i for c in cands for i in specs.limit(c[1], st)], st)
            if error:
                return error
    return None


def c02_check(case):
    spec, st = case
    try:
        module = parsed(spec, st)
    except parse.Bad as error:
        return f"the hint cannot be read: {error}"
    error = witnessed(module.defs["Root"], [spec], st)
    if error:
        return f"{error}\n{module.text}"
    for where, texts in module.unions:
        if texts != sorted(set(texts)):
            return f"alternatives of {where} are not listed once and in order: {texts}"
    return None


# --------------------------------------------------------------------------------------------------- C03
class _Series(type):
    pass


def run_text(text):
    """Execute the generated module. `pd.Series[...]` outside annotations is a known finding (see known_findings)."""
    import pandas as pd

    namespace = {"__name__": "generated"}
    missing = object()
    previous = pd.Series.__dict__.get("__class_getitem__", missing)
    pd.Series.__class_getitem__ = classmethod(lambda cls, item: cls)
    try:
        exec(compile(text, "<generated>", "exec"), namespace)
    finally:
        if previous is missing:
            del pd.Series.__class_getitem__
        else:
            pd.Series.__class_getitem__ = previous
    return namespace


def c03_check(case):
    spec, st, name = case
    text = common.hint_text(spec, st, name)
    try:
        namespace = run_text(text)
    except Exception as error:
        return f"the generated module does not run: {error!r}\n{text}"
    if name not in namespace:
        return f"{name} is not defined\n{text}"
    try:
        module = parse.Module(text)
    except parse.Bad as error:
        return f"{error}\n{text}"
    if module.root != name:
        return f"the last definition is {module.root}\n{text}"
    return None


def c03_cases(rng):
    names = ["Root", "my_class", "A1", "_x", "Ñandu", "a", "RootDict", "RootList"]
    kinds = ALL + ["df", "dict", "dict"]
    for spec, st in tree_cases(rng, kinds=kinds, odd_keys=0.4):
        yield (spec, st, rng.choice(names))


def c03_known():
    """The known finding: an alias to pd.Series[...] cannot be executed."""
    import pandas as pd

    text = common.text_of(pd.Series([1, 2]), specs.DEFAULTS)
    try:
        exec(compile(text, "<generated>", "exec"), {"__name__": "generated"})
    except TypeError as error:
        if "Series" in str(error) and "subscriptable" in str(error):
            return "an alias to pd.Series[...] is executed at import time and pandas classes cannot be subscripted"
    return None


# --------------------------------------------------------------------------------------------------- C04
def c04_check(case):
    from lazy_type_hint import ParsingStrategies
    from lazy_type_hint.data_type_tree import data_type_tree_factory

    a, st, b = case
    parser = ParsingStrategies(**st)

    def tree(spec):
        return data_type_tree_factory(specs.build(spec), name="Root", strategies=parser)

    ta, tb, ta2 = tree(a), tree(b), tree(a)
    for x, y in ((ta, ta), (ta, ta2)):
        if not x == y or hash(x) != hash(y):
            return "equality is not reflexive, or hashes differ for the same data"
    if (ta == tb) != (tb == ta):
        return "equality is not symmetric"
    if ta == tb and hash(ta) != hash(tb):
        return "equal trees with different hashes"
    try:
        same = parsed(a, st).defs["Root"] == parsed(b, st).defs["Root"]
    except parse.Bad as error:
        return str(error)
    if (ta == tb) != same:
        return f"hints are {'the same' if same else 'different'} but the trees are " + (
            "equal" if ta == tb else "different") + f"\n{common.hint_text(a, st)}\n----\n{common.hint_text(b, st)}"
    # Both as siblings, each in a structure of its own so that they are not merged
    for wrap in (lambda x: x, lambda x: ("list", (x,)), lambda x: ("tuple", (x, ("leaf", "int")))):
        if wrap(a)[0] in ("dict", "mdict"):
            continue
        pair = ("list", (wrap(a), wrap(b)))
        if common.has_ambiguous_set(pair, st) or (st["check_max_n_elements_within_container"] or 9) < 2:
            continue
        try:
            module = parsed(pair, st)
        except parse.Bad as error:
            return f"{error}\n{common.hint_text(pair, st)}"
        t = module.defs["Root"]
        leaves = {("name", "int"), ("name", "float")}
        wa, wb = expected(wrap(a), st), expected(wrap(b), st)
        if {wa, wb} == leaves:
            continue
        if (len(t[1]) == 1) != (parsed(wrap(a), st).defs["Root"] == parsed(wrap(b), st).defs["Root"]):
            return f"siblings conflated or repeated\n{module.text}"
    return None


def c04_cases(rng):
    for spec, st in tree_cases(rng, kinds=ALL + ["df", "df"], roots=ALL + ["df", "df"], leaves=None):
        g = Gen(rng, kinds=ALL + ["df"])
        if rng.random() < 0.25:
            spec = g.leaf()
        if rng.random() < 0.7:
            other = g.vary(spec, 0)
            if rng.random() < 0.3:
                other = g.vary(other, 0)
            if other[0] in specs.SEQ and other[0] != "point" and rng.random() < 0.3:
                other = (rng.choice(["list", "tuple", "iter", "series"]), other[1])
        elif rng.random() < 0.5:
            other = g.container(spec[0]) if spec[0] != "leaf" else g.leaf()
        else:
            other = g.spec()
        if common.has_ambiguous_set(other, st) or not specs.valid(other):
            continue
        yield (spec, st, other)


# --------------------------------------------------------------------------------------------------- C05
def c05_cases(rng):
    while True:
        st = specs.strategies(rng, dict_strategy="TypedDict", check_max_n_elements_within_container=500,
                              min_height_to_define_type_alias=rng.choice([0, 1]))
        leaves = rng.choice([["int"], ["int", "float"], ["int", "float", "str", "none", "bool"], PLAIN])
        g = Gen(rng, leaves=leaves, kinds=["list", "dict", "tuple", "dict", "iter"], max_depth=rng.choice([2, 3]),
                max_len=5, odd_keys=0.1, dup=0.8)
        n = rng.choice([1, 2, 2, 2, 3, 3, 4])
        keys = rng.sample(specs.KEYS + ["k%d" % i for i in range(6)], rng.randint(1, 8))
        first = {k: g.spec(2) for k in keys}
        dicts = []
        for _ in range(n):
            keep = {k: v for k, v in first.items() if rng.random() < rng.choice([0.5, 0.8, 1.0])}
            for k in list(keep):
                if rng.random() < 0.15:
                    keep[k] = g.vary(keep[k], 2) if rng.random() < 0.7 else g.spec(2)
            items = [(g.documented(("s", k), 0.1), v) for k, v in keep.items()]
            if rng.random() < 0.5:
                rng.shuffle(items)
            dicts.append(("dict", tuple(items)))
        others = [g.leaf() for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        elements = dicts + others
        rng.shuffle(elements)
        spec = (rng.choice(["list", "list", "tuple", "iter", "series", "gen", "mylist"]), tuple(elements))
        if rng.random() < 0.25:
            spec = ("dict", ((("s", "x"), spec),))
        yield (spec, st)


def typed_dicts(t):
    if t[0] == "TypedDict":
        out = [t]
        for f in t[1]:
            out += typed_dicts(f[3])
        return out
    if t[0] in ("Tuple",) or t[0] in ("List", "Sequence", "Set", "FrozenSet", "Iterator", "Series", "TupleAnySize"):
        return [x for s in t[1] for x in typed_dicts(s)]
    if t[0] in ("Dict", "Mapping", "MappingProxyType"):
        return [x for s in t[2] for x in typed_dicts(s)]
    if t[0] == "DF":
        return [x for _, s in t[1] for x in typed_dicts(s)]
    return []


def c05_check(case):
    spec, st = case
    try:
        module = parsed(spec, st)
    except parse.Bad as error:
        return f"the hint cannot be read: {error}"
    got, want = module.defs["Root"], expected(spec, st)
    if sorted(map(repr, map(norm, typed_dicts(got)))) != sorted(map(repr, map(norm, typed_dicts(want)))):
        return f"expected the TypedDicts {sorted(map(repr, map(norm, typed_dicts(want))))}\n{module.text}"
    return None


def norm(t):
    """Sorted, printable form."""
    if isinstance(t, frozenset):
        return ("set", sorted((norm(x) for x in t), key=repr))
    if isinstance(t, tuple):
        return tuple(norm(x) for x in t)
    return t


# --------------------------------------------------------------------------------------------------- C06
def skeleton(t):
    kind = t[0]
    if kind == "TypedDict":
        return ("TypedDict", frozenset((k, ro, skeleton(s)) for k, _, ro, s in t[1]))
    if kind == "Tuple":
        return ("Tuple", tuple(skeleton(s) for s in t[1]))
    if kind in ("List", "Sequence", "Set", "FrozenSet", "Iterator", "Series", "TupleAnySize"):
        return (kind, frozenset(skeleton(s) for s in t[1]))
    if kind in ("Dict", "Mapping", "MappingProxyType"):
        return (kind, frozenset(skeleton(s) for s in t[2]))
    if kind in ("DF", "DFplain", "TupleAny"):
        return (kind,)
    return t if kind != "name" else ("leaf",)


def c06_check(case):
    spec, st = case
    try:
        module = parsed(spec, st)
    except parse.Bad as error:
        return f"the hint cannot be read: {error}"
    got, want = skeleton(module.defs["Root"]), skeleton(expected(spec, st))
    if got != want:
        return f"expected the form {norm(want)}, got {norm(got)}\n{module.text}"
    if specs.is_typed(spec, st):  # The fields as Python sees them
        try:
            namespace = run_text(module.text)
        except Exception as error:
            return f"the generated module does not run: {error!r}\n{module.text}"
        fields = set(namespace["Root"].__annotations__)
        if fields != {specs.key_of(k) for k, _ in spec[1]}:
            return f"the fields are {sorted(fields)}\n{module.text}"
    return None


# --------------------------------------------------------------------------------------------------- C07
def truncate(spec, st, n):
    kind = spec[0]
    if kind in ("leaf", "df"):
        return spec
    if kind in specs.SEQ:
        return ("tuple" if kind == "point" else kind, tuple(truncate(s, st, n) for s in spec[1][:n]))
    full = kind != "proxy" and st["dict_strategy"] == "TypedDict"
    items = spec[1] if full else spec[1][:n]
    return (kind, tuple((k, truncate(v, st, n)) for k, v in items))


def c07_check(case):
    spec, st = case
    n = st["check_max_n_elements_within_container"]
    free = dict(st, check_max_n_elements_within_container=None)
    if spec[0] in ("set", "frozenset", "myset"):  # Order known only from the object
        data = specs.build(spec)
        text = common.text_of(data, st)
        kept = type(data)(list(itertools.islice(data, n))) if n else data
        want = common.text_of(kept, free)
    else:
        text = common.hint_text(spec, st)
        want = common.hint_text(truncate(spec, st, n) if n else spec, free)
    try:
        got, ref = parse.Module(text).defs["Root"], parse.Module(want).defs["Root"]
    except parse.Bad as error:
        return f"the hint cannot be read: {error}"
    if got != ref:
        return f"limit {n}: not the hint of the first elements\n{text}\n---- expected\n{want}"
    return None


def c07_cases(rng):
    kinds = ["list", "tuple", "iter", "gen", "dict", "dict", "proxy", "series", "mylist", "mdict", "mytuple"]
    yield (("list", (("leaf", "int"),) * 500 + (("leaf", "str"),)), dict(specs.DEFAULTS))
    yield (("list", (("leaf", "int"),) * 499 + (("leaf", "str"),)), dict(specs.DEFAULTS))
    yield (("list", (("leaf", "int"),) * 700 + (("leaf", "str"),)),
           dict(specs.DEFAULTS, check_max_n_elements_within_container=None))
    while True:
        st = specs.strategies(rng, check_max_n_elements_within_container=rng.choice([1, 1, 2, 2, 3, 4, 5, 7, None]))
        if rng.random() < 0.15:
            items = tuple(("leaf", x) for x in rng.sample(["int", "str", "float", "none", "bytes"], rng.randint(1, 5)))
            spec = (rng.choice(["set", "frozenset", "myset"]), items)
        else:
            g = Gen(rng, kinds=kinds, leaves=PLAIN, max_len=8, dup=0.3)
            spec = g.container(rng.choice(kinds))
            if rng.random() < 0.5:
                items = tuple(g.spec(1) for _ in range(rng.randint(1, 9)))
                spec = (rng.choice(["list", "tuple", "iter", "gen", "series"]), items)
        if not specs.valid(spec):
            continue
        yield (spec, st)


# --------------------------------------------------------------------------------------------------- C08
def c08_check(case):
    spec, st = case
    try:
        module = parsed(spec, st)
    except parse.Bad as error:
        return f"the hint cannot be read: {error}\n{common.hint_text(spec, st)}"
    if module.root != "Root":
        return f"the last definition is {module.root}"
    minimum = st["min_height_to_define_type_alias"]
    for where, t, named in module.sites:
        if t == module.defs[where] and not named and any(True for _ in ()):
            continue
        if (where, t) in seen_roots(module) and not named:
            continue
        if named != parse.must_be_named(t, minimum):
            return f"{t} is {'named' if named else 'inline'} within {where} (minimum height {minimum})\n{module.text}"
    used = {r for refs in module.refs.values() for r in refs}
    for name in module.order:
        if name != "Root" and name not in used:
            return f"{name} is defined but never used\n{module.text}"
    return None


def seen_roots(module):
    """The right-hand side of a definition is written out: not a reference."""
    out = set()
    for name, t in module.defs.items():
        out.add((name, t))
    return out


# --------------------------------------------------------------------------------------------------- C16
def c16_cases(rng):
    yield from c16_all()
    while True:
        yield ("signature", random_signature(rng))


def c16_all():
    for leaf in pool.LEAVES:
        for context in ("root", "list", "dict", "tuple", "nested"):
            yield ("leaf", leaf, context)


def random_signature(rng):
    names = rng.sample(["a", "b", "c", "data", "key", "x1", "n"], rng.randint(0, 5))
    anns = ["", "int", "str", "List[int]", "Dict[str, Any]", "Optional[int]", "Tuple[int, ...]", "Union[int, str]",
            "Sequence[str]", "Callable", "'Foo'", "bool", "Mapping[str, List[int]]", "Set[int]", "Iterator[int]"]
    defaults = ["", "", "1", "'x=->'", "None", "(1, 2)", "object()", "Foo", "[1, 'a']", "-1.5", "{'a': 1}", "len"]
    parts, star, need_default = [], False, False
    n_pos = rng.choice([0, 0, 1]) if names else 0
    for i, name in enumerate(names):
        if not star and rng.random() < 0.2:
            parts.append(rng.choice(["*", "*args", "*args: int"]))
            star = True
        ann = rng.choice(anns)
        default = rng.choice(defaults)
        if not star and need_default and not default:
            default = "None"
        need_default = need_default or (bool(default) and not star)
        text = name + (f": {ann}" if ann else "") + (f" = {default}" if default else "")
        parts.append(text)
        if n_pos and i == 0 and not star:
            parts.append("/")
    if parts and parts[-1] == "*":
        parts.pop()
    if rng.random() < 0.2:
        parts.append(rng.choice(["**kwargs", "**kwargs: Any"]))
    ret = rng.choice(["", "", " -> int", " -> None", " -> List[int]", " -> 'Foo'", " -> Dict[str, Tuple[int, ...]]"])
    body = rng.choice(["...", "return 1", "pass", "if 1:\n        return 2", "yield 1", "x = 3", "raise ValueError(1)"])
    return [", ".join(parts), ret, body]


_files = []


def make_function(signature, ret, body):
    import importlib.util
    import tempfile

    from lib import target

    if not _files:
        _files.append(target.scratch_dir())
    path = os.path.join(_files[0], f"mod{len(_files)}.py")
    _files.append(path)
    with open(path, "w") as f:
        f.write("from typing import *\n\nclass Foo: ...\n\ndef func(" + signature + ")" + ret + ":\n    " + body + "\n")
    spec = importlib.util.spec_from_file_location(f"mod{len(_files)}", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module.func


def c16_check(case):
    if case[0] == "leaf":
        return c16_leaf(case[1], case[2])
    import ast
    import inspect

    signature, ret, body = case[1]
    func = make_function(signature, ret, body)
    text = common.text_of(func, specs.DEFAULTS)
    try:
        module = parse.Module(text)
        run_text(text)
    except Exception as error:
        return f"{error!r}\n{text}"
    t = module.defs["Root"]
    real = inspect.signature(func)
    want = ast.parse(f"def _({signature}): ...").body[0].args
    if t[0] != "proto":
        return f"hinted as {t}"
    got = ast.parse(f"def _{t[1]}: ...").body[0]

    def shape(args):
        return [
            [(a.arg, ast.unparse(a.annotation) if a.annotation else None) for a in group or []]
            for group in (args.posonlyargs, args.args, args.kwonlyargs, [args.vararg] if args.vararg else [],
                          [args.kwarg] if args.kwarg else [])
        ] + [len(args.defaults), [d is not None for d in args.kw_defaults]]

    if shape(got.args) != shape(want):
        return f"the parameters are not those of ({signature})\n{text}"
    returned = ast.unparse(got.returns) if got.returns else None
    if ret:
        wanted = {ast.unparse(ast.parse(ret.split("->")[1].strip()).body[0])}
    elif "return" in body:
        wanted = {"Any"}
    elif "yield" in body:
        wanted = {"Any", "None"}
    else:
        wanted = {"None", "Any"} if False else {"None"}
    if returned not in wanted:
        return f"the function returns {wanted}, hinted as {returned}\n{text}"
    return None


def c16_leaf(leaf, context):
    want = specs.leaf_type(leaf)
    if leaf in ("classobj",):
        want_all = {("callable",)}
    else:
        want_all = {want}
    inner = ("leaf", leaf)
    spec = {"root": inner, "list": ("list", (inner,)), "dict": ("dict", ((("s", "k"), inner),)),
            "tuple": ("tuple", (("leaf", "slice"), inner)), "nested": ("list", (("list", (inner,)),))}[context]
    for st in (specs.DEFAULTS, dict(specs.DEFAULTS, min_height_to_define_type_alias=0)):
        text = common.hint_text(spec, st)
        try:
            t = parse.Module(text).defs["Root"]
            run_text(text)
        except Exception as error:
            return f"{error!r}\n{text}"
        if context == "root":
            got = {t}
        elif context == "list":
            got = set(t[1])
        elif context == "dict":
            got = {f[3] for f in t[1]}
        elif context == "tuple":
            got = {t[1][1]}
        else:
            got = set(next(iter(t[1]))[1])
        if got != want_all:
            return f"{leaf} is hinted as {got}, expected {want_all}\n{text}"
    return None


# --------------------------------------------------------------------------------------------------- C19
def postorder(spec, st, out):
    """Structures in the order in which they are first met, each after those within it."""
    kind = spec[0]
    if kind == "leaf":
        return
    if kind == "df":
        return
    if kind in specs.SEQ:
        items = specs.limit(spec[1], st)
        types = [expected(s, st) for s in items]
        do, new = specs.merge_info(items, types, st)
        done = []
        for s, t in zip(items, types):
            if do and t[0] == "TypedDict":
                if new in done:
                    continue
                done.append(new)
                group = [x for x, y in zip(items, types) if y[0] == "TypedDict"]
                keys = {}
                for d in group:
                    for k, v in d[1]:
                        if specs.key_of(k) not in keys or expected(v, st) == ("name", "float"):
                            keys[specs.key_of(k)] = v
                for v in keys.values():
                    visit(v, st, out)
                out.append(new)
            else:
                if t in done and not (kind in ("tuple", "mytuple", "point") and st["tuple_size_strategy"] == "fixed"):
                    continue
                done.append(t)
                visit(s, st, out)
        return
    full = kind != "proxy" and st["dict_strategy"] == "TypedDict"
    for _, v in spec[1] if full else specs.limit(spec[1], st):
        visit(v, st, out)


def visit(spec, st, out):
    postorder(spec, st, out)
    t = expected(spec, st)
    if parse.must_be_named(t, st["min_height_to_define_type_alias"]):
        out.append(t)


def first_met(types):
    out = []
    for t in types:
        if t not in out:
            out.append(t)
    return out


def c19_order_check(case):
    spec, st = case
    try:
        module = parsed(spec, st)
    except parse.Bad as error:
        return f"the hint cannot be read: {error}"
    want = []
    postorder(spec, st, want)
    got = first_met([module.defs[n] for n in module.order[:-1]])
    if got != first_met(want):
        return f"definitions are not in the order in which structures are met\n{module.text}"
    return None


def c19_cases(rng):
    kinds = ["list", "tuple", "dict", "dict", "dict", "series", "mylist", "mdict", "mytuple", "point", "proxy", "iter"]
    yield from tree_cases(rng, kinds=kinds, st_fixed=dict(check_max_n_elements_within_container=None),
                          max_len=6, max_depth=4, odd_keys=0.1)


def texts_in_process(cases, seed):
    """Texts of all cases in a process of its own, under the given hash seed."""
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
    out = subprocess.run([sys.executable, "-W", "ignore", "-c",
                          "import sys; sys.path.insert(0, %r); from hunts import trees; trees.dump()" % os.path.dirname(
                              os.path.dirname(os.path.abspath(__file__)))],
                         input=json.dumps(cases), capture_output=True, text=True, env=env)
    if out.returncode:
        raise RuntimeError(out.stderr[-2000:])
    return json.loads(out.stdout)


def dump():
    cases = specs.totuple(json.load(sys.stdin)) if False else json.load(sys.stdin)
    result = []
    for spec, st in cases:
        try:
            result.append(common.hint_text(specs.totuple(spec), st))
        except Exception as error:
            result.append(f"raised {error!r}")
    json.dump(result, sys.stdout)


def c19_seeds(case):
    """case: a batch of (spec, strategies). Reports the first that differs between hash seeds."""
    batch = [(s, st) for s, st in case]
    seeds = [0, 1, 7, 42]
    results = [texts_in_process(batch, seed) for seed in seeds]
    for idx, texts in enumerate(zip(*results)):
        if len(set(texts)) > 1:
            a, b = sorted(set(texts))[:2]
            return f"the text depends on the hash seed for {json.dumps(batch[idx])}\n{a}\n----\n{b}"
    return None


def c19_batches(rng):
    kinds = ["list", "tuple", "dict", "dict", "dict", "series", "mylist", "mdict", "mytuple", "point", "proxy", "df",
             "iter"]
    cases = tree_cases(rng, kinds=kinds, max_len=6, max_depth=4, odd_keys=0.1)
    merging = c05_cases(rng)
    while True:
        yield [next(cases) for _ in range(90)] + [next(merging) for _ in range(60)]


# --------------------------------------------------------------------------------------------------- C20
def c20_cases(rng):
    while True:
        st = specs.strategies(rng)
        g = Gen(rng)
        spec = g.frame()
        if rng.random() < 0.2:
            spec = (rng.choice(["list", "tuple"]), (spec, g.frame()))
        yield (spec, st)


def c20_check(case):
    spec, st = case
    try:
        module = parsed(spec, st)
    except parse.Bad as error:
        return f"the hint cannot be read: {error}"
    want = expected(spec, st)
    if module.defs["Root"] != want:
        return f"expected {want}\n{module.text}"
    for name, allowed in getattr(module, "frames", {}).items():
        literals = [literal for literal, _ in module.defs[name][1]]
        if st["pandas_strategies"] == "Full type hint":
            if allowed != literals:
                return f"accepted keys {allowed}, accessors {literals}\n{module.text}"
        elif allowed != ["str"]:
            return f"accepted keys {allowed}\n{module.text}"
    return None
