"""Bounded contract hunts over histories of the live tool (C11, C12; C09, C10 and C13 for it).

Runs on a scratch copy of the package only (VERIF_SCRATCH=1): the tool writes next to its own sources.
"""
import ast
import os
import random
import re
from pathlib import Path

from lib import common, guard, specs, target
from hunts import misc, texts

assert os.environ.get("VERIF_SCRATCH") == "1", "the live tool is only exercised on a scratch copy"
HOME = os.path.realpath(target.REPO)
assert not HOME.startswith("/repo"), HOME

import lazy_type_hint  # noqa: E402
from lazy_type_hint import ParsingStrategies  # noqa: E402
from lazy_type_hint.data_type_tree import data_type_tree_factory  # noqa: E402
from lazy_type_hint.generators import lazy_type_hint_live as live_module  # noqa: E402
from lazy_type_hint.generators.lazy_type_hint_live import LazyTypeHintLive  # noqa: E402

PACKAGE = os.path.realpath(os.path.dirname(lazy_type_hint.__file__))
assert PACKAGE.startswith(HOME)
PYI = os.path.join(PACKAGE, "generators", "lazy_type_hint_live.pyi")
BUILD = os.path.join(PACKAGE, "generators", "build")
NAMES = ["A", "B", "AB", "Config", "from_data", "classes_created", "overload", "LazyTypeHintLive", "X1", "_P", "Literal",
         "self", "Any", "Ñu", "build", "class_name", "data", "from_yaml_file"]
BAD_NAMES = ["", "1a", "a b", "class", "../x", "a-b", "None", "A\n", 'A"', "A.B"]


def wipe():
    with guard.off():
        import shutil

        shutil.rmtree(BUILD, ignore_errors=True)
        if os.path.exists(PYI):
            os.remove(PYI)


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return f.read()


def rest():
    """Everything in the scratch copy that is not generated."""
    out = {}
    for base, dirs, files in os.walk(HOME):
        dirs[:] = [d for d in dirs if os.path.join(base, d) != BUILD and d not in ("__pycache__", "tmp")]
        for name in files:
            path = os.path.join(base, name)
            if path != PYI and not path.endswith(".pyc"):
                out[path] = os.stat(path).st_size, os.stat(path).st_mtime_ns
    return out


def generated():
    out = {}
    if os.path.isdir(BUILD):
        for base, dirs, files in os.walk(BUILD):
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            for name in files:
                path = os.path.join(base, name)
                out[os.path.relpath(path, BUILD)] = read(path)
    return out


def spoil(rng, spec):
    g = specs.Gen(rng, kinds=["list", "dict", "tuple"], leaves=list(specs.pool.SIMPLE), max_depth=2)
    return g.vary(spec, 0)


def cases(rng):
    while True:
        g = specs.Gen(rng, kinds=["list", "dict", "dict", "tuple"], leaves=list(specs.pool.SIMPLE), max_depth=3, max_len=3,
                      odd_keys=0.05)
        names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
        base = g.container(rng.choice(["list", "dict", "dict"]))
        datas = [base, spoil(rng, base), g.container(rng.choice(["list", "dict", "tuple"])), ("leaf", "int"),
                 ("dict", ((("s", "doc"), ("leaf", "str")), (("s", "b"), ("leaf", "int"))))]
        ops = [("new", rng.choice(["overwrite", "validate"]), {})]
        for _ in range(rng.randint(1, 9)):
            x = rng.random()
            if x < 0.68:
                ops.append(("call", rng.randrange(9), rng.choice(names), rng.randrange(len(datas)),
                            rng.choice(["", "", "", "words", "other words"])))
            elif x < 0.80:
                st = {}
                if rng.random() < 0.3:
                    st = rng.choice([{"list_strategy": "Sequence"}, {"dict_strategy": "dict"},
                                     {"min_height_to_define_type_alias": 0}, {"typed_dict_read_only_values": True}])
                ops.append(("new", rng.choice(["overwrite", "validate", "validate"]), st))
            elif x < 0.88:
                ops.append(("reset", rng.randrange(9)))
            elif x < 0.94:
                ops.append(("yaml", rng.randrange(9), rng.choice(names), rng.randrange(3), rng.choice(
                    ["side", "above", "below", None])))
            else:
                ops.append(("bad", rng.randrange(9), rng.choice(BAD_NAMES)))
        yield (tuple(datas), tuple(ops))


YAMLS = ["# top\na: 1  # one\nb:\n  - 2  # two\n", "a: 1 # changed\n# above\nb:\n  - 2\n", "a: x  # one\nc:\n  d: [1, 2]\n"]
_initial = []


def build_data(spec, doc):
    data = specs.build(spec)
    if doc and isinstance(data, dict):
        data = {"doc": doc, **{k: v for k, v in data.items() if k != "doc"}}
    return data


def want_text(data, name, strategies):
    return data_type_tree_factory(data, name=name, strategies=strategies).get_str_all_nodes(
        make_parent_class_inherit_from_original_type=False)


def check(case, pid):
    """Runs a history. Reports what violates the given property only."""
    datas, ops = case
    wipe()
    before = rest()
    tools, stored = [], {}
    registered = None  # None: no interface file
    for step, op in enumerate(ops):
        where = f"step {step} {op} of {ops}"
        if op[0] == "new":
            st = ParsingStrategies(**dict(dict(op[2]), key_used_as_doc="doc"))
            tools.append((LazyTypeHintLive(st, if_type_hint_exists=op[1]), st, op[1]))
        elif op[0] == "reset":
            tools[op[1] % len(tools)][0].reset()
            stored, registered = {}, None
            if pid == "C11" and (os.path.exists(BUILD) or os.path.exists(PYI)):
                return f"generated files are left after a reset: {where}"
        elif op[0] == "bad":
            tool, st, mode = tools[op[1] % len(tools)]
            files = generated(), read(PYI)
            try:
                tool.from_data({"a": 1}, class_name=op[2])
            except Exception:
                pass
            else:
                if pid == "C09":
                    return f"class name {op[2]!r} is accepted: {where}"
            if pid in ("C09", "C11") and (generated(), read(PYI)) != files:
                return f"files were written for the class name {op[2]!r}: {where}"
        else:
            tool, st, mode = tools[op[1] % len(tools)]
            name = op[2]
            if op[0] == "call":
                data = build_data(datas[op[3]], op[4])
                shape = misc.shallow(data)
                text = want_text(data, name, st)
                call = lambda: tool.from_data(data, class_name=name)  # noqa: E731
                same = lambda out: out is data and misc.shallow(data) == shape  # noqa: E731
            else:
                path = Path(texts.folder()) / "live.yaml"
                path.write_text(YAMLS[op[3]])
                text = want_text(texts.load_yaml(path), name, st)
                call = lambda: tool.from_yaml_file(  # noqa: E731
                    texts.load_yaml, path, class_name=name, comments_are=op[4])
                same = lambda out: repr(out) == repr(texts.load_yaml(path)) and (  # noqa: E731
                    path.read_text() == YAMLS[op[3]])
            files = generated(), read(PYI)
            differs = name in stored and texts.undocumented(stored[name]) != texts.undocumented(text)
            reject = mode == "validate" and differs
            try:
                out, error = call(), None
            except live_module.LazyTypeHintLiveError as e:
                error = e
            if pid == "C12":
                if error is not None and not reject:
                    return f"the call was rejected ({error}): {where}"
                if error is None and reject:
                    return f"the call was accepted: {where}"
                if error is not None and (generated(), read(PYI)) != files:
                    return f"a rejected call changed files: {where}"
            elif (error is not None) != reject:
                return None  # reported by C12
            if error is None:
                if pid in ("C10",) and not same(out):
                    return f"the data was not handed back untouched: {where}"
                now = generated().get(f"{name}.py")
                if now is None:
                    return f"no source file for {name}: {where}" if pid in ("C11", "C12") else None
                if pid == "C12":
                    exact = op[0] == "call" or op[4] is None
                    if (now.decode() != text) if exact else (
                            texts.undocumented(now.decode()) != texts.undocumented(text)):
                        return f"the stored source of {name} is not the hints of the data: {where}\n{now.decode()}" \
                               f"\n---- expected\n{text}"
                    others = {k: v for k, v in files[0].items() if k != f"{name}.py"}
                    if {k: v for k, v in generated().items() if k != f"{name}.py"} != others:
                        return f"other stored sources changed: {where}"
                    if name in stored and read(PYI) != files[1]:
                        return f"the interface changed for a class that was listed already: {where}"
                stored[name] = now.decode()
                registered = list(dict.fromkeys((registered or []) + [name]))
        if pid == "C11":
            message = interface(registered)
            if message:
                return f"{message}: {where}"
            if rest() != before:
                changed = [k for k in set(before) | set(rest()) if before.get(k) != rest().get(k)]
                return f"other files changed ({changed}): {where}"
    return None


def interface(registered):
    """Whether exactly these classes are listed."""
    names = registered or []
    if set(generated()) != {f"{n}.py" for n in names}:
        return f"generated files {sorted(generated())} for classes {names}"
    if not os.path.exists(PYI):
        return f"no interface although {names} were generated" if names else None
    text = read(PYI).decode()
    try:
        tree = ast.parse(text)
    except SyntaxError as error:
        return f"the interface is not valid Python ({error})\n{text}"
    imports, kept = [], []
    for node in tree.body:
        if isinstance(node, ast.ImportFrom) and (node.module or "").startswith("lazy_type_hint.generators.build"):
            if len(node.names) != 1 or node.names[0].asname or node.module != (
                    f"lazy_type_hint.generators.build.{node.names[0].name}"):
                return f"odd import {ast.unparse(node)}"
            imports.append(node.names[0].name)
        else:
            kept.append(node)
    if sorted(imports) != sorted(names):
        return f"imports of {imports} for classes {names}"
    tree.body = kept
    cls = next((n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == "LazyTypeHintLive"), None)
    if cls is None:
        return "the class is not in the interface"
    overloads, kept = {"from_data": [], "from_yaml_file": []}, []
    for node in cls.body:
        if isinstance(node, ast.FunctionDef) and node.name in overloads:
            args = node.args
            hint = next((a.annotation for a in args.posonlyargs + args.args + args.kwonlyargs if a.arg == "class_name"),
                        None)
            decorators = [ast.unparse(d) for d in node.decorator_list]
            if isinstance(hint, ast.Subscript) and ast.unparse(hint.value) == "Literal":
                label = ast.literal_eval(hint.slice)
                if not isinstance(node.returns, ast.Name) or node.returns.id != label:
                    return f"{node.name} for {label} returns {ast.unparse(node.returns)}"
                if decorators.count("overload") != 1:
                    return f"{node.name} for {label} is decorated with {decorators}"
                overloads[node.name].append(label)
                continue
            node.decorator_list = [d for d in node.decorator_list if ast.unparse(d) != "overload"]
            if names and decorators.count("overload") != 1:
                return f"the general {node.name} is decorated with {decorators}"
        kept.append(node)
    cls.body = kept
    for method, labels in overloads.items():
        if sorted(labels) != sorted(names):
            return f"overloads of {method} for {labels}, classes {names}"
    listed = None
    for node in cls.body:
        if isinstance(node, (ast.AnnAssign, ast.Assign)):
            target_name = ast.unparse(node.target if isinstance(node, ast.AnnAssign) else node.targets[0])
            if target_name == "classes_created":
                if listed is not None:
                    return "classes_created is assigned twice"
                value = ast.unparse(node.value)
                match = re.fullmatch(r"Union\[Literal\[(.*)\], Any\]", value)
                listed = [] if value == "Any" else (
                    [ast.literal_eval(x) for x in match.group(1).split(", ")] if match else [value])
                node.value = ast.Constant(value=0)
    if sorted(listed or []) != sorted(names):
        return f"classes_created lists {listed}, classes {names}"
    # Apart from all of that it is the interface of the module, always the same
    shape = ast.dump(tree)
    if not _initial:
        _initial.append(shape)
    if shape != _initial[0]:
        return f"another part of the interface changed\n{text}"
    return None


def checker(pid):
    return lambda case: check(case, pid)


def shrink(pid):
    def run(case):
        datas, ops = case
        changed = True
        while changed:
            changed = False
            for i in range(len(ops) - 1, 0, -1):
                cand = ops[:i] + ops[i + 1:]
                if check((datas, cand), pid) is not None:
                    ops, changed = cand, True
                    break
        return (datas, ops)

    return run
