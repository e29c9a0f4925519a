"""Bounded contract hunts: configuration (C09), untouched input (C10), written files (C18)."""
import collections
import itertools
import keyword
import os
import random
from pathlib import Path

from lib import common, guard, specs, target
from hunts import texts

from lazy_type_hint import LazyTypeHint, ParsingStrategies

from hunts.trees import tree_cases

DOMAINS = {
    "list_strategy": (["list", "Sequence"], ["List", "", "sequence", "TypedDict", None, 1, "list "]),
    "tuple_size_strategy": (["fixed", "any size"], ["Fixed", "any", "", None, 3, "any  size"]),
    "dict_strategy": (["TypedDict", "Mapping", "dict"], ["Dict", "mapping", "", None, 0, "list"]),
    "pandas_strategies": (["Full type hint", "Type hint only for autocomplete", "Do not type hint columns"],
                          ["Full", "full type hint", "", None, "Do not type hint"]),
    "min_height_to_define_type_alias": ([0, 1, 2, 3, 10, 1000], [-1, -2, -100]),
    "key_used_as_doc": (["", "doc", "a b", "None"], []),
    "merge_different_typed_dicts_if_similarity_above": ([1, 2, 50, 51, 99, 100], [0, -1, -50, 101, 102, 1000]),
    "typed_dict_read_only_values": ([True, False], []),
    "check_max_n_elements_within_container": ([None, 1, 2, 500, 10**9], [0, -1, -500]),
}


# --------------------------------------------------------------------------------------------------- C09
def c09_cases(rng):
    for field, (good, bad) in DOMAINS.items():
        for value in good + bad:
            yield ("strategies", ((field, value),))
    for value in range(-3, 110):
        yield ("strategies", (("merge_different_typed_dicts_if_similarity_above", value),))
        yield ("strategies", (("min_height_to_define_type_alias", value),))
        yield ("strategies", (("check_max_n_elements_within_container", value),))
    names = list(keyword.kwlist) + ["match", "case", "type", "_", "A", "a1", "1a", "", " ", "A ", " A", "a b", "a-b", "a.b",
                                    "ñ", "Ünï", "a\n", "a/b", "../a", "/tmp/a", "A;", "A#", "é", "none", "true", "self",
                                    "__x__", "a\u200b", "²", "x²", "€", "a,b", "if_", "9", "-", "a\\b", "A[0]", "print",
                                    "int", "str", "Any", "\u2118", "·a", "a·"]
    for name in names:
        yield ("name", name, "plain")
        yield ("name", name, "yaml")
    alphabet = ["a", "B", "_", "1", " ", "-", ".", "é", "²", "·", "\n", "'", '"', "/", "ª", "文", "\u0301", "for", "is"]
    while True:
        if rng.random() < 0.5:
            fields = rng.sample(list(DOMAINS), rng.randint(1, 5))
            chosen = []
            for field in fields:
                good, bad = DOMAINS[field]
                pool = bad if bad and rng.random() < 0.25 else good
                chosen.append((field, rng.choice(pool)))
            yield ("strategies", tuple(chosen))
        else:
            yield ("name", "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 4))), rng.choice(["plain", "yaml"]))


def listing(folder):
    out = {}
    for base, dirs, files in os.walk(folder):
        for name in files:
            path = os.path.join(base, name)
            with open(path, "rb") as f:
                out[path] = f.read()
        for name in dirs:
            out[os.path.join(base, name)] = None
    return out


def c09_check(case):
    if case[0] == "strategies":
        allowed = all(value in DOMAINS[field][0] or not bad_value(field, value) for field, value in case[1])
        try:
            made = ParsingStrategies(**dict(case[1]))
        except ValueError as error:
            return f"valid strategies {dict(case[1])} are rejected: {error}" if allowed else None
        if not allowed:
            return f"invalid strategies {dict(case[1])} are accepted"
        for field, value in case[1]:
            if getattr(made, field) != value:
                return f"strategy {field} is {getattr(made, field)!r} instead of {value!r}"
        return None
    _, name, how = case
    allowed = name.isidentifier() and not keyword.iskeyword(name)
    folder = texts.folder()
    path = Path(folder) / "names.yaml"
    path.write_text("a: 1  # comment\n")
    before = listing(folder)
    start = len(guard.log)
    try:
        if how == "plain":
            LazyTypeHint().from_data({"a": [1]}, class_name=name)
        else:
            LazyTypeHint().from_yaml_file(texts.load_yaml, path, class_name=name)
        error = None
    except Exception as e:
        error = e
    if allowed and error is not None:
        return f"valid class name {name!r} is rejected: {error!r}"
    if not allowed and error is None:
        return f"invalid class name {name!r} is accepted"
    if how == "plain" and guard.log[start:]:
        return f"files were touched: {guard.log[start:]}"
    if not allowed and listing(folder) != before:
        return f"files were left after rejecting {name!r}"
    return None


def bad_value(field, value):
    if value in DOMAINS[field][1]:
        return True
    if field == "min_height_to_define_type_alias":
        return value < 0
    if field == "merge_different_typed_dicts_if_similarity_above":
        return not 1 <= value <= 100
    if field == "check_max_n_elements_within_container":
        return value < 1
    return False


# --------------------------------------------------------------------------------------------------- C10
def shallow(value):
    """Identity of everything that a value holds, in order."""
    if isinstance(value, dict):
        return [(id(k), id(v)) for k, v in value.items()]
    if isinstance(value, (list, tuple, set, frozenset)):
        return [id(x) for x in value]
    kind = type(value).__module__
    if kind.startswith("pandas"):
        frame = value
        out = [repr(list(frame.index)), repr(getattr(frame, "columns", None)), str(getattr(frame, "dtypes", None))]
        if hasattr(frame, "columns"):
            return out + [repr(frame.values.tolist()), repr(frame.attrs), list(map(repr, frame.columns.names))]
        return out + [[id(x) if frame.dtype == object else repr(x) for x in frame.values], repr(frame.name)]
    if kind.startswith("numpy"):
        return [repr(value), getattr(value, "shape", None), str(getattr(value, "dtype", None))]
    if type(value).__name__ == "mappingproxy":
        return [(id(k), id(v)) for k, v in value.items()]
    if hasattr(value, "__dict__") and not isinstance(value, type) and not callable(value) and kind != "builtins":
        try:
            return sorted((k, id(v)) for k, v in vars(value).items())
        except Exception:
            return None
    return None


def recorded(spec, rng):
    """Builds the spec. Also returns everything it is made of, what iterators yield included."""
    built = []
    original = specs.build

    def build(s):
        value = original(s)
        if type(value) is dict and rng.random() < 0.3:
            value = rng.choice([collections.OrderedDict, lambda d: collections.defaultdict(list, d)])(value)
        built.append(value)
        return value

    specs.build = build
    try:
        value = build(spec)
    finally:
        specs.build = original
    return value, built


def c10_cases(rng):
    trees = tree_cases(rng, kinds=["list", "tuple", "set", "frozenset", "iter", "gen", "dict", "dict", "dict", "proxy",
                                   "series", "mylist", "mdict", "mytuple", "point", "df", "myset"], odd_keys=0.1)
    for i, case in enumerate(trees):
        spec, st = case[0], case[1]
        st = dict(st)
        if rng.random() < 0.2:
            st["key_used_as_doc"] = rng.choice(["a", "name", "doc"])
        yield (spec, st, rng.randrange(10**6))


def c10_check(case):
    spec, st, seed = case
    data, built = recorded(spec, random.Random(seed))
    before = [(type(x), shallow(x)) for x in built]
    tree = LazyTypeHint(ParsingStrategies(**st)).from_data(data, class_name="Root")
    tree.to_string()
    tree.to_string(include_imports=False)
    for x, (kind, content) in zip(built, before):
        if type(x) is not kind or shallow(x) != content:
            return f"{x!r} was modified: {content} before, {shallow(x)} after"
    return None


# --------------------------------------------------------------------------------------------------- C18
def c18_cases(rng):
    trees = tree_cases(rng, kinds=["list", "tuple", "iter", "dict", "dict", "proxy", "series", "mytuple", "df"],
                       odd_keys=0.2)
    for case in trees:
        other = next(trees)
        spec, st = case[0], dict(case[1])
        st["key_used_as_doc"] = rng.choice(["", "", "a", "key"])
        ops = tuple(rng.choice(["imports", "bare", "inner", "other", "file", "deep", "refuse", "again", "relative"])
                    for _ in range(rng.randint(1, 7)))
        yield (spec, st, other[0], dict(other[1]), ops)


def c18_check(case):
    import shutil

    spec, st, other, other_st, ops = case
    if common.has_ambiguous_set(spec, st):
        return None

    def tree(spec=spec, st=st, name="Root"):
        return LazyTypeHint(ParsingStrategies(**st)).from_data(specs.build(spec), class_name=name)

    def inner(t, **kwargs):
        return t._tree.get_str_all_nodes(**kwargs) if hasattr(t, "_tree") else None

    fresh = tree().to_string(include_imports=True)
    fresh_bare = tree().to_string(include_imports=False)
    fresh_inner = inner(tree(), make_parent_class_inherit_from_original_type=False)
    folder = os.path.join(texts.folder(), "files")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    t, cousin = tree(), tree(other, other_st, "Other")
    for step, op in enumerate(ops):
        if op in ("imports", "again"):
            if t.to_string() != fresh or t.to_string(include_imports=True) != fresh:
                return f"to_string after {ops[:step]} differs from a fresh one\n{t.to_string()}\n---- expected\n{fresh}"
        elif op == "bare":
            if t.to_string(include_imports=False) != fresh_bare:
                return f"to_string without imports after {ops[:step]} differs\n{t.to_string(include_imports=False)}" \
                       f"\n---- expected\n{fresh_bare}"
        elif op == "inner":
            if inner(t, make_parent_class_inherit_from_original_type=False) != fresh_inner:
                return f"text for the live tool after {ops[:step]} differs"
        elif op == "other":
            cousin.to_string()
            tree(other, other_st).to_string(include_imports=False)
        elif op == "file":
            path = os.path.join(folder, "existing.py")
            if len(spec[1]) % 2:
                with open(path, "w") as f:
                    f.write("# Something longer\n" * (len(fresh) // 8))
            for kwargs in ({}, {"create_non_existing_dir": True}, {"create_non_existing_dir": False}):
                t.to_file(path if step % 2 else Path(path), **kwargs)
                if stored(path) != fresh.encode():
                    return f"the file does not hold the text\n{stored(path)!r}\n---- expected\n{fresh}"
        elif op == "relative":
            here = os.getcwd()
            os.chdir(folder)
            try:
                t.to_file("relative.py")
            finally:
                os.chdir(here)
            if stored(os.path.join(folder, "relative.py")) != fresh.encode():
                return "the file does not hold the text"
        elif op == "refuse":
            before = listing(folder)
            try:
                t.to_file(os.path.join(folder, f"missing{step}", "sub", "f.py"))
            except ValueError:
                pass
            else:
                return "writing to a missing directory was not refused"
            if listing(folder) != before:
                return "refusing to write left something behind"
        elif op == "deep":
            path = Path(folder) / f"made{step}" / "sub" / "f.py"
            before = listing(folder)
            t.to_file(path, create_non_existing_dir=True)
            if stored(path) != fresh.encode():
                return "the file in a created directory does not hold the text"
            extra = set(listing(folder)) - set(before)
            if extra != {str(path), str(path.parent), str(path.parent.parent)}:
                return f"more was created: {extra}"
    return None


def stored(path):
    with open(path, "rb") as f:
        return f.read()
