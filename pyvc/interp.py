"""Interpreter of the functions of /repo over symbolic values.

The functions are the real ones: their source is parsed again from the file they were loaded from, names are looked
up in their real globals, closures and classes.
"""
import ast
import builtins
import contextlib
import copy
import dataclasses
import hashlib
import inspect
import os
import pathlib
import sys
import types

from pyvc import core
from pyvc.core import (
    BOOL, EMPTY, INT, STR, VAL, Bool, Cell, ConstK, DictCell, DictState, Engine, Inst, Int, ListCell, ListK, NodeK, Opt,
    OptK, PathEnd, PureLevel, Raised, Restart, SBool, SeqView, SetCell, SetK, SInt, SStr, Str, SVal, Sym, TupK,
    Unsupported, VNone, VStr, Val, join_kinds, ranged, z3,
)

PACKAGE = "lazy_type_hint"
MISSING = object()


class Registry:
    """What is known about functions without looking at their bodies."""

    def __init__(self):
        self.summaries = {}  # (class or module, name) -> function(interp, args, kwargs)
        self.fields = {}  # (class, attribute) -> function(interp, value): attributes of opaque objects
        self.setters = {}
        self.iters = {}  # class -> function(interp, value): sequence of what an object yields
        self.loops = {}  # (function, number of the loop) -> LoopSpec
        self.loop_shapes = {}  # function and number of the loop -> what it changed when its invariant was written
        self.models = {}  # id of a function or class -> function(interp, args, kwargs)
        self.methods = {}  # (kind, name) -> function(interp, receiver, args, kwargs)
        self.construct = {}

    def model(self, *things):
        def register(fn):
            for t in things:
                self.models[id(t)] = (t, fn)
            return fn
        return register

    def method(self, kind, *names):
        def register(fn):
            for n in names:
                self.methods[kind, n] = fn
            return fn
        return register


REG = Registry()


class LoopSpec:
    """inv(L) -> [(label, term)]; ghosts: name -> (kind, initial value, step(L) -> value)."""

    def __init__(self, inv=None, ghosts=None, kinds=None, exact=False, after=None):
        self.inv, self.ghosts, self.kinds, self.after = inv, ghosts or {}, kinds or {}, after


class LoopState:
    def __init__(self, interp, frame, entry, i, n, seq, ghosts, serials):
        self.interp, self.eng, self.frame, self.entry, self.i, self.n, self.seq = (
            interp, interp.eng, frame, entry, i, n, seq)
        self.ghost, self.start = ghosts, serials

    def __getitem__(self, name):
        v = self.frame.lookup(name)
        if isinstance(v, (Late, Undefined)):
            raise SpecMismatch(name)
        return v

    def at(self, i):
        return self.seq.get(i)


class SpecMismatch(Unsupported):
    """An invariant speaks about something that the code does not have (any more)."""


class Undefined:
    pass


UNDEFINED = Undefined()


class Late:
    """A local that a loop defines if it runs at least once."""

    def __init__(self, cond, value):
        self.cond, self.value = cond, value


class Frame:
    def __init__(self, fn_name, code_globals, locals_, closure=None, cls=None, node=None):
        self.name, self.globals, self.locals, self.closure, self.cls, self.node = (
            fn_name, code_globals, locals_, {} if closure is None else closure, cls, node)
        self.loop_ids = {}

    def lookup(self, name):
        if name in self.locals:
            return self.locals[name]
        if name in self.closure:
            c = self.closure[name]
            if isinstance(c, Frame):
                return c.lookup(name)
            return c
        if name in self.globals:
            return self.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise SpecMismatch(f"name {name}")


class Func:
    """A function defined within interpreted code."""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name


class Bound:
    def __init__(self, receiver, fn, cls=None, name=None):
        self.receiver, self.fn, self.cls, self.name = receiver, fn, cls, name


class Iteration:
    """Class of the iterators made by iter()."""


class NoEffects:
    """While it lasts, real functions must not touch the world."""

    active = False
    EVENTS = ("os.", "shutil.", "subprocess.", "socket.", "tempfile.", "pty.", "signal.", "urllib.")
    HARMLESS = ("os.listdir", "os.scandir", "os.walk", "os.fwalk")

    def __enter__(self):
        NoEffects.active = True

    def __exit__(self, *_):
        NoEffects.active = False

    @staticmethod
    def hook(event, args, state=lambda: NoEffects):
        if state is None or state() is None or not state().active:
            return
        if event == "open":
            mode, flags = args[1], args[2]
            if isinstance(mode, str) and any(c in mode for c in "wax+") or isinstance(flags, int) and flags & (
                    os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                raise core.Unsupported(f"a real function opens a file for writing: {args[0]!r}")
        elif event.startswith(state().EVENTS) and event not in state().HARMLESS:
            raise core.Unsupported(f"a real function has effects: {event}")


sys.addaudithook(NoEffects.hook)


class SummaryOf:
    def __init__(self, fn, receiver=MISSING):
        self.fn, self.receiver = fn, receiver


class BuiltinMethod:
    def __init__(self, receiver, name):
        self.receiver, self.name = receiver, name


class SuperProxy:
    def __init__(self, receiver, cls):
        self.receiver, self.cls = receiver, cls


class ExcVal:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


METHOD_CELLS = {set: (set, SetCell), list: (list, ListCell), dict: (dict, DictCell), str: (str, SStr)}


class DictView:
    def __init__(self, cell, what):
        self.cell, self.what = cell, what


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, value):
        self.value = value


# ------------------------------------------------------------------------------------------------ source
_trees = {}


def module_tree(filename):
    if filename not in _trees:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        _trees[filename] = tree
    return _trees[filename]


def node_of(fn):
    """The definition of a real function, parsed from its file."""
    code = fn.__code__
    found = []
    for node in ast.walk(module_tree(code.co_filename)):
        if isinstance(node, ast.FunctionDef) and node.name == code.co_name:
            first = min([node.lineno, *(d.lineno for d in node.decorator_list)])
            if first == code.co_firstlineno:
                found.append(node)
        elif isinstance(node, ast.Lambda) and code.co_name == "<lambda>" and node.lineno == code.co_firstlineno:
            if [a.arg for a in node.args.args] == list(code.co_varnames[: code.co_argcount]):
                found.append(node)
    if len(found) != 1:
        raise Unsupported(f"source of {fn.__qualname__} not found")
    return found[0]


def digest(sources):
    """Of the functions that were read, and of what their modules hold besides functions. Comments do not count."""
    parts = set()
    for filename, node in sources.values():
        parts.add(ast.dump(undocumented(node)))
        parts.add(ast.dump(undocumented(module_tree(filename), keep=False)))
    return hashlib.sha256("\n".join(sorted(parts)).encode()).hexdigest()[:20]


def undocumented(node, keep=True):
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        body = getattr(n, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            del body[0]
        if not keep and isinstance(n, ast.FunctionDef):
            n.body = []
    return node


def descendants(c):
    for sub in c.__subclasses__():
        yield sub
        yield from descendants(sub)


def is_ours(obj):
    return getattr(obj, "__module__", None) is not None and str(obj.__module__).split(".")[0] == PACKAGE


def contains_sym(v, depth=0):
    if isinstance(v, (Sym, Cell, Inst, SeqView, Opt, Func, Bound, DictView, SummaryOf, ExcVal, BuiltinMethod)):
        return True
    if depth < 4 and type(v) in (tuple, list, set, frozenset):
        return any(contains_sym(x, depth + 1) for x in v)
    if depth < 4 and type(v) is dict:
        return any(contains_sym(x, depth + 1) for x in v.values()) or any(contains_sym(x, depth + 1) for x in v)
    return False


class Interp:
    def __init__(self, eng: Engine):
        self.eng = eng
        self.depth = 0

    # ---------------------------------------------------------------------------------------- calls
    def run(self, fn, args, kwargs=None):
        """Interprets the body of a real function, whatever is registered for it."""
        node = node_of(fn)
        closure = {}
        for name, cell in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                closure[name] = cell.cell_contents
            except ValueError:
                pass
        self.reads(fn, node)
        frame = Frame(fn.__qualname__, fn.__globals__, {}, closure, closure.get("__class__"), node)
        defaults = list(fn.__defaults__ or ())
        kwdefaults = dict(fn.__kwdefaults__ or {})
        return self.invoke(node, frame, args, kwargs or {}, defaults, kwdefaults)

    def reads(self, fn, node):
        name = f"{fn.__module__}.{fn.__qualname__}"
        self.eng.functions.add(name)
        self.eng.sources[name, node.lineno] = (fn.__code__.co_filename, node)

    def invoke(self, node, frame, args, kwargs, defaults, kwdefaults):
        self.bind(node.args, frame, list(args), dict(kwargs), defaults, kwdefaults)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion without a contract")
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, frame)
            if is_generator(node):
                raise Unsupported(f"generator function {node.name}")
            try:
                self.block(node.body, frame)
            except Return as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind(self, a, frame, args, kwargs, defaults, kwdefaults):
        params = [x.arg for x in (*a.posonlyargs, *a.args)]
        loc = frame.locals
        if len(args) > len(params) and not a.vararg:
            raise Raised(TypeError, ("too many arguments",))
        for name, value in zip(params, args):
            loc[name] = value
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(params):])
        extra = {}
        for name, value in kwargs.items():
            if name in params or name in [k.arg for k in a.kwonlyargs]:
                if name in loc:
                    raise Raised(TypeError, (f"multiple values for {name}",))
                loc[name] = value
            elif a.kwarg:
                extra[name] = value
            else:
                raise Raised(TypeError, (f"unexpected argument {name}",))
        if a.kwarg:
            loc[a.kwarg.arg] = extra
        for name, value in zip(params[len(params) - len(defaults):], defaults):
            loc.setdefault(name, value)
        for k in a.kwonlyargs:
            if k.arg not in loc:
                if k.arg in kwdefaults:
                    loc[k.arg] = kwdefaults[k.arg]
                else:
                    raise Raised(TypeError, (f"missing argument {k.arg}",))
        for name in params:
            if name not in loc:
                raise Raised(TypeError, (f"missing argument {name}",))

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        f = self.force(f)
        if isinstance(f, SummaryOf):
            return f.fn(self, args if f.receiver is MISSING else (f.receiver, *args), kwargs)
        if isinstance(f, Bound):
            return self.call_function(f.fn, (f.receiver, *args), kwargs, f.cls, f.name)
        if isinstance(f, Func):
            frame = Frame(f"{f.frame.name}.{f.name}", f.frame.globals, {}, {"__outer__": f.frame}, f.frame.cls, f.node)
            frame.closure = _Outer(f.frame)
            return self.invoke(f.node, frame, args, kwargs, f.defaults, f.kwdefaults)
        if isinstance(f, BuiltinMethod):
            return self.call_method(f.receiver, f.name, args, kwargs)
        if isinstance(f, Inst):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, SVal):
            obj = self.eng.concrete_of(f.t)
            if obj is not None:
                return self.call(obj, args, kwargs)
            hook = REG.summaries.get(("object", "__call__"))
            if hook is None:
                raise Unsupported("call of an unknown object")
            return hook(self, (f, *args), kwargs)
        if isinstance(f, (Sym, Cell)):
            raise Raised(TypeError, ("not callable",))
        if isinstance(f, types.MethodType) and is_ours(f.__func__):
            return self.call_function(f.__func__, (f.__self__, *args), kwargs)
        return self.call_function(f, args, kwargs)

    def call_function(self, f, args, kwargs, cls=None, name=None):
        try:
            model = REG.models.get(id(f))
        except TypeError:
            model = None
        if model is not None:
            return model[1](self, args, kwargs)
        if isinstance(f, types.FunctionType):
            key = (f.__module__.split(".")[-1], f.__qualname__)
            if "." in f.__qualname__ and "<locals>" not in f.__qualname__:
                key = tuple(f.__qualname__.rsplit(".", 1))
            if key in REG.summaries:
                self.eng.summaries_used.add(key)
                return REG.summaries[key](self, args, kwargs)
            if is_ours(f):
                return self.run(f, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        key = (getattr(f, "__module__", None), getattr(f, "__name__", type(f).__name__))
        if (isinstance(f, types.BuiltinFunctionType) or key == ("shutil", "_RmtreeType")) and key in REG.summaries:
            self.eng.summaries_used.add(key)
            return REG.summaries[key](self, args, kwargs)
        if not contains_sym(args) and not contains_sym(kwargs):
            return self.real_call(f, args, kwargs)
        reals = [self.to_real(a) for a in args]
        rkw = {k: self.to_real(v) for k, v in kwargs.items()}
        if MISSING not in reals and MISSING not in rkw.values():
            return self.real_call(f, reals, rkw)
        if isinstance(f, types.BuiltinMethodType) and type(f.__self__) in (str, int, tuple, list, dict, set, frozenset):
            return self.call_method(f.__self__, f.__name__, args, kwargs)
        if isinstance(f, types.MethodDescriptorType) and args and f.__objclass__ in METHOD_CELLS and isinstance(
                self.force(args[0]), METHOD_CELLS[f.__objclass__]):
            return self.call_method(self.force(args[0]), f.__name__, args[1:], kwargs)
        raise Unsupported(f"call of {getattr(f, '__qualname__', f)!r}")

    def real_call(self, f, args, kwargs):
        try:
            with NoEffects():
                return self.from_real(f(*args, **kwargs))
        except (core.Unsupported, core.PathEnd, core.Restart):
            raise
        except Exception as error:  # noqa: BLE001
            raise Raised(type(error), error.args) from None

    def to_real(self, v):
        if isinstance(v, ListCell) and v.items is not None:
            out = [self.to_real(x) for x in v.items]
            return MISSING if any(x is MISSING for x in out) else out
        if isinstance(v, SetCell) and v.items is not None:
            return frozenset(v.items) if v.frozen else set(v.items)
        if isinstance(v, DictCell) and v.items is not None:
            out = {k: self.to_real(x) for k, x in v.items}
            return MISSING if any(x is MISSING for x in out.values()) else out
        if type(v) is tuple:
            out = tuple(self.to_real(x) for x in v)
            return MISSING if any(x is MISSING for x in out) else out
        if isinstance(v, SStr) and z3.is_string_value(z3.simplify(v.t)):
            return string_value(z3.simplify(v.t))
        if isinstance(v, SInt) and z3.is_int_value(z3.simplify(v.t)):
            return z3.simplify(v.t).as_long()
        if contains_sym(v):
            return MISSING
        return v

    def from_real(self, v):
        if type(v) is list:
            return self.eng.list_cell([self.from_real(x) for x in v])
        if type(v) is set:
            return self.eng.set_cell(list(v))
        if type(v) is dict:
            return self.eng.dict_cell([[k, self.from_real(x)] for k, x in v.items()])
        return v

    def construct(self, cls, args, kwargs):
        key = (cls.__name__, "__new__")
        if key in REG.summaries:
            self.eng.summaries_used.add(key)
            return REG.summaries[key](self, (cls, *args), kwargs)
        if issubclass(cls, BaseException):
            return ExcVal(cls, args)
        if is_ours(cls):
            if dataclasses.is_dataclass(cls) and "__init__" not in self.own_init(cls):
                return self.construct_dataclass(cls, args, kwargs)
            inst = self.eng.inst(cls, {}, cls.__name__)
            init = self.class_attr(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call_function(init, (inst, *args), kwargs)
            return inst
        reals = [self.to_real(a) for a in args]
        rkw = {k: self.to_real(v) for k, v in kwargs.items()}
        if MISSING not in reals and MISSING not in rkw.values():
            return self.real_call(cls, reals, rkw)
        raise Unsupported(f"instance of {cls.__name__}")

    @staticmethod
    def own_init(cls):
        tree = module_tree(inspect.getsourcefile(cls))
        for node in ast.walk(tree):
            if isinstance(node, ast.ClassDef) and node.name == cls.__name__:
                return {n.name for n in node.body if isinstance(n, ast.FunctionDef)}
        return set()

    def construct_dataclass(self, cls, args, kwargs):
        attrs, args = {}, list(args)
        for field in dataclasses.fields(cls):
            if field.init and args:
                attrs[field.name] = args.pop(0)
            elif field.init and field.name in kwargs:
                attrs[field.name] = kwargs[field.name]
            elif field.default is not dataclasses.MISSING:
                attrs[field.name] = field.default
            elif field.default_factory is not dataclasses.MISSING:
                attrs[field.name] = self.call(field.default_factory)
            else:
                raise Raised(TypeError, (f"missing {field.name}",))
        if args or set(kwargs) - set(attrs):
            raise Raised(TypeError, ("unexpected arguments",))
        inst = self.eng.inst(cls, attrs, cls.__name__)
        post = self.class_attr(cls, "__post_init__")
        if post is not MISSING:
            self.call_function(post, (inst,), {})
        return inst

    @staticmethod
    def class_attr(cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    # ---------------------------------------------------------------------------------------- attributes
    def getattr(self, v, name):
        v = self.force(v)
        if isinstance(v, Inst):
            if name in v.attrs:
                return v.attrs[name]
            if name == "__class__":
                return v.cls
            return self.lookup_class(v, v.cls, v.cls.__mro__, name)
        if isinstance(v, SuperProxy):
            mro = type_of_receiver(v.receiver).__mro__
            return self.lookup_class(v.receiver, None, mro[mro.index(v.cls) + 1:], name)
        if isinstance(v, SVal):
            return self.sval_attr(v, name)
        if isinstance(v, ExcVal):
            if name == "args":
                return v.args
            raise Unsupported(f"attribute {name} of an exception")
        if isinstance(v, (SStr, SInt, SBool, Cell, SeqView, DictView)):
            return BuiltinMethod(v, name)
        if isinstance(v, type) and is_ours(v):
            for c in v.__mro__:
                if ("type:" + c.__name__, name) in REG.fields:
                    return REG.fields["type:" + c.__name__, name](self, v)
                if name in c.__dict__:
                    raw = c.__dict__[name]
                    if isinstance(raw, staticmethod):
                        return raw.__func__
                    if isinstance(raw, classmethod):
                        return Bound(v, raw.__func__)
                    break
        if isinstance(v, (str, tuple, list, dict, set, frozenset)) and not isinstance(v, type):
            if hasattr(type(v), name):
                return BuiltinMethod(v, name)
        if isinstance(v, pathlib.PurePath):
            for c in type(v).__mro__:
                if (c.__name__, name) in REG.fields:
                    return REG.fields[c.__name__, name](self, v)
                if (c.__name__, name) in REG.summaries:
                    self.eng.summaries_used.add((c.__name__, name))
                    return SummaryOf(REG.summaries[c.__name__, name], v)
        if isinstance(v, (Func, Bound)):
            if name == "__name__":
                return v.name
            raise Unsupported(f"attribute {name} of a function")
        try:
            return getattr(v, name)
        except AttributeError as error:
            raise Raised(AttributeError, error.args) from None

    def lookup_class(self, v, cls, mro, name):
        for c in mro:
            if name not in c.__dict__:
                continue
            raw = c.__dict__[name]
            key = (c.__name__, name)
            if isinstance(raw, property):
                if key in REG.summaries:
                    self.eng.summaries_used.add(key)
                    return REG.summaries[key](self, (v,), {})
                return self.call_function(raw.fget, (v,), {})
            if isinstance(raw, staticmethod):
                if key in REG.summaries:
                    self.eng.summaries_used.add(key)
                    return SummaryOf(REG.summaries[key])
                return raw.__func__
            if isinstance(raw, classmethod):
                receiver = cls or type_of_receiver(v)
                if key in REG.summaries:
                    self.eng.summaries_used.add(key)
                    return SummaryOf(REG.summaries[key], receiver)
                return Bound(receiver, raw.__func__)
            if isinstance(raw, types.FunctionType):
                if key in REG.summaries:
                    self.eng.summaries_used.add(key)
                    return SummaryOf(REG.summaries[key], v)
                return Bound(v, raw, c, name)
            if c is object:
                break
            return raw
        if (("object", name)) in REG.summaries:
            return SummaryOf(REG.summaries["object", name], v)
        raise Raised(AttributeError, (name,))

    def sval_attr(self, v, name):
        eng = self.eng
        if v.cls is not None:
            classes = list(v.cls.__mro__)
            for c in classes:
                if (c.__name__, name) in REG.fields:
                    return REG.fields[c.__name__, name](self, v)
                if (c.__name__, name) in REG.summaries:
                    eng.summaries_used.add((c.__name__, name))
                    raw = c.__dict__.get(name)
                    if isinstance(raw, property):
                        return REG.summaries[c.__name__, name](self, (v,), {})
                    return SummaryOf(REG.summaries[c.__name__, name], v)
            # Attributes of a subclass it turned out to be an instance of
            for (cname, attr), get in REG.fields.items():
                if attr == name and isinstance(cname, str):
                    return get(self, v)
        obj = eng.concrete_of(v.t)
        if obj is not None:
            return self.getattr(obj, name)
        if ("object", name) in REG.fields:
            return REG.fields["object", name](self, v)
        if hasattr(str, name) and eng.branch(core.is_str(v.t)):
            return BuiltinMethod(SStr(Val.s(v.t)), name)
        if v.cls is None and any(hasattr(t, name) for t in (str,)):
            raise Raised(AttributeError, (name,))
        if v.cls is not None and is_ours(v.cls):
            # What no class of the tool below it defines anew is the same for all of them
            if not any(name in c.__dict__ for c in descendants(v.cls)) and any(name in c.__dict__ for c in v.cls.__mro__[:-1]):
                return self.lookup_class(v, v.cls, v.cls.__mro__, name)
        raise Unsupported(f"attribute {name} of {v!r} {v.cls}")

    def setattr(self, v, name, value):
        v = self.force(v)
        if isinstance(v, Inst):
            if dataclasses.is_dataclass(v.cls) and v.cls.__dataclass_params__.frozen:
                raise Raised(dataclasses.FrozenInstanceError, (name,))
            self.touch_attr(v, name, value)
            v.attrs[name] = value
            return
        if isinstance(v, SVal):
            for c in (v.cls.__mro__ if v.cls else (object,)):
                if (c.__name__, name) in REG.setters:
                    REG.setters[c.__name__, name](self, v, value)
                    return
        raise Unsupported(f"attribute {name} of {v!r} set")

    # ---------------------------------------------------------------------------------------- changes
    def touch(self, cell):
        """A cell is about to be changed."""
        eng = self.eng
        if cell.detached:
            raise Unsupported("change of a container held by another structure")
        for level in eng.loops:
            if isinstance(level, PureLevel):
                if cell.serial <= level.serial:
                    raise Impure()
                continue
            if cell.serial <= level.start and cell.serial not in level.mods["cells"]:
                level.mods["cells"][cell.serial] = None
                raise Restart(level.key)

    def learn(self, cell, kinds):
        """The elements of a cell changed within a loop are of another kind than thought."""
        for level in self.eng.loops:
            if isinstance(level, PureLevel):
                continue
            if cell.serial <= level.start:
                level.mods["cells"][cell.serial] = kinds
                raise Restart(level.key)

    def touch_attr(self, inst, name, value):
        for level in self.eng.loops:
            if isinstance(level, PureLevel):
                if inst.serial <= level.serial:
                    raise Impure()
                continue
            if inst.serial <= level.start:
                kind = self.eng.kind_of(value) if not isinstance(value, (DictCell, Inst)) else None
                if (inst.serial, name) not in level.mods["attrs"]:
                    level.mods["attrs"][inst.serial, name] = kind
                    raise Restart(level.key)
                old = level.mods["attrs"][inst.serial, name]
                if kind is not None and old is not None and join_kinds(old, kind) != old:
                    level.mods["attrs"][inst.serial, name] = join_kinds(old, kind)
                    raise Restart(level.key)

    def touch_heap(self, field):
        for level in self.eng.loops:
            if isinstance(level, PureLevel):
                raise Impure()
            if field not in level.mods["heap"]:
                level.mods["heap"].add(field)
                raise Restart(level.key)

    def heap(self, field, sort):
        if field not in self.eng.heap:
            self.eng.heap[field] = z3.Const(f"heap.{field}", sort)
        return self.eng.heap[field]

    # ---------------------------------------------------------------------------------------- statements
    def block(self, statements, frame):
        for s in statements:
            self.statement(s, frame)

    def statement(self, s, frame):
        getattr(self, "st_" + type(s).__name__, self.unsupported)(s, frame)

    def unsupported(self, s, frame):
        raise Unsupported(f"{type(s).__name__} in {frame.name}, line {getattr(s, 'lineno', '?')}")

    def st_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, frame)

    def st_Pass(self, s, frame):
        pass

    def st_Import(self, s, frame):
        for a in s.names:
            module = __import__(a.name)
            frame.locals[a.asname or a.name.split(".")[0]] = module

    def st_ImportFrom(self, s, frame):
        import importlib
        module = importlib.import_module(s.module)
        for a in s.names:
            frame.locals[a.asname or a.name] = getattr(module, a.name)

    def st_Assign(self, s, frame):
        value = self.ev(s.value, frame)
        for target in s.targets:
            self.assign(target, value, frame)

    def st_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, frame), frame)

    def st_AugAssign(self, s, frame):
        if isinstance(s.target, ast.Name):
            old = self.ev(ast.Name(s.target.id, ast.Load()), frame)
            self.assign(s.target, self.inplace(s.op, old, self.ev(s.value, frame)), frame)
        elif isinstance(s.target, ast.Attribute):
            obj = self.ev(s.target.value, frame)
            old = self.getattr(obj, s.target.attr)
            self.setattr(obj, s.target.attr, self.inplace(s.op, self.force(old), self.ev(s.value, frame)))
        elif isinstance(s.target, ast.Subscript):
            obj, key = self.ev(s.target.value, frame), self.ev(s.target.slice, frame)
            old = self.getitem(obj, key)
            self.setitem(obj, key, self.inplace(s.op, self.force(old), self.ev(s.value, frame)))
        else:
            self.unsupported(s, frame)

    def inplace(self, op, old, value):
        if isinstance(op, ast.Add) and isinstance(old, ListCell):
            self.call_method(old, "extend", (value,), {})
            return old
        if isinstance(op, ast.BitOr) and isinstance(old, SetCell):
            self.call_method(old, "update", (value,), {})
            return old
        return self.binop(op, old, value)

    def st_If(self, s, frame):
        if self.truth(self.ev(s.test, frame)):
            self.block(s.body, frame)
        else:
            self.block(s.orelse, frame)

    def st_Return(self, s, frame):
        raise Return(self.ev(s.value, frame) if s.value is not None else None)

    def st_Raise(self, s, frame):
        if s.exc is None:
            raise frame.locals["__handled__"]
        exc = self.ev(s.exc, frame)
        if isinstance(exc, type):
            exc = ExcVal(exc, ())
        if isinstance(exc, ExcVal):
            raise Raised(exc.cls, exc.args)
        if isinstance(exc, BaseException):
            raise Raised(type(exc), exc.args)
        raise Unsupported("raise of an unknown object")

    def st_Assert(self, s, frame):
        if not self.truth(self.ev(s.test, frame)):
            raise Raised(AssertionError)

    def st_Break(self, s, frame):
        raise Break

    def st_Continue(self, s, frame):
        raise Continue

    def st_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                frame.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.call_method(self.ev(t.value, frame), "__delitem__", (self.ev(t.slice, frame),), {})
            else:
                self.unsupported(s, frame)

    def st_FunctionDef(self, s, frame):
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        frame.locals[s.name] = self.make_func(s, frame, s.name)

    def make_func(self, node, frame, name):
        a = node.args
        defaults = [self.ev(d, frame) for d in a.defaults]
        kwdefaults = {k.arg: self.ev(d, frame) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(node, frame, defaults, kwdefaults, name)

    def st_Try(self, s, frame):
        try:
            try:
                self.block(s.body, frame)
            except Raised as error:
                for h in s.handlers:
                    if h.type is None or self.matches(error, self.ev(h.type, frame)):
                        if h.name:
                            frame.locals[h.name] = ExcVal(error.cls, error.exc_args)
                        old = frame.locals.get("__handled__")
                        frame.locals["__handled__"] = error
                        try:
                            self.block(h.body, frame)
                        finally:
                            frame.locals["__handled__"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, frame)
        except (Raised, Return, Break, Continue):
            self.block(s.finalbody, frame)
            raise
        self.block(s.finalbody, frame)

    @staticmethod
    def matches(error, types_):
        return issubclass(error.cls, types_ if isinstance(types_, tuple) else (types_,))

    def st_With(self, s, frame):
        self.with_items(list(s.items), s.body, frame)

    def with_items(self, items, body, frame):
        if not items:
            return self.block(body, frame)
        item = items.pop(0)
        cm = self.ev(item.context_expr, frame)
        if isinstance(cm, contextlib.suppress):
            try:
                return self.with_items(items, body, frame)
            except Raised as error:
                if not issubclass(error.cls, tuple(cm._exceptions)):
                    raise
                return None
        value = self.call(self.getattr(cm, "__enter__"))
        if item.optional_vars is not None:
            self.assign(item.optional_vars, value, frame)
        try:
            self.with_items(items, body, frame)
        except (Raised, Return, Break, Continue) as end:
            handled = self.call(self.getattr(cm, "__exit__"), (None, None, None))
            if isinstance(end, Raised) and handled is not None and self.truth(handled):
                return None
            raise
        self.call(self.getattr(cm, "__exit__"), (None, None, None))
        return None

    def assign(self, target, value, frame):
        if isinstance(target, ast.Name):
            frame.locals[target.id] = value
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value, frame), target.attr, value)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.ev(target.value, frame), self.ev(target.slice, frame), value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            value = self.force(value)
            values = self.concrete_list(value)
            if values is None:
                view = self.eng.view(value)
                if any(isinstance(t, ast.Starred) for t in target.elts):
                    raise Unsupported("starred target")
                if not self.eng.branch(view.n == len(target.elts)):
                    raise Raised(ValueError, ("unpacking",))
                values = [view.get(z3.IntVal(k)) for k in range(len(target.elts))]
            star = [k for k, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            if star:
                k = star[0]
                after = len(target.elts) - k - 1
                if len(values) < len(target.elts) - 1:
                    raise Raised(ValueError, ("unpacking",))
                middle = self.eng.list_cell(values[k:len(values) - after])
                values = [*values[:k], middle, *values[len(values) - after:]]
                targets = [t.value if isinstance(t, ast.Starred) else t for t in target.elts]
            else:
                targets = target.elts
            if len(values) != len(targets):
                raise Raised(ValueError, ("unpacking",))
            for t, v in zip(targets, values):
                self.assign(t, v, frame)
        else:
            raise Unsupported("assignment target")

    def concrete_list(self, v):
        """The elements if their number is known."""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, ListCell) and v.items is not None:
            return list(v.items)
        if isinstance(v, ListCell):
            v = v.view
        if isinstance(v, SeqView):
            n = z3.simplify(v.n)
            if z3.is_int_value(n) and n.as_long() <= 64:
                return [v.get(z3.IntVal(k)) for k in range(n.as_long())]
            return None
        if isinstance(v, DictCell) and v.items is not None:
            return [k for k, _ in v.items]
        if isinstance(v, DictView) and v.cell.items is not None:
            return [{"keys": k, "values": x, "items": (k, x)}[v.what] for k, x in v.cell.items]
        if isinstance(v, SetCell) and v.items is not None and len(v.items) <= 1:
            return list(v.items)
        if type(v) in (range, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (types.MappingProxyType, type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if type(v) in (set, frozenset) and len(v) <= 1:
            return list(v)
        return None

    # ---------------------------------------------------------------------------------------- loops
    def iterate(self, v):
        """Elements as a list if their number is known, else as a view."""
        v = self.force(v)
        known = self.concrete_list(v)
        if known is not None:
            return known
        if isinstance(v, SeqView):
            return v
        if isinstance(v, ListCell):
            return v.view
        if isinstance(v, DictCell):
            return self.dict_seq(v, "keys")
        if isinstance(v, DictView):
            return self.dict_seq(v.cell, v.what)
        if isinstance(v, (SetCell, set, frozenset)):
            return self.set_seq(v)
        if isinstance(v, SStr):
            return self.char_view(v)
        if isinstance(v, Inst) and v.cls is Iteration:
            view, start = v.attrs["seq"], self.eng.int_term(v.attrs["pos"])
            end = self.eng.new("pos", Int)
            self.eng.assume(z3.And(start <= end, end <= view.n))
            self.setattr(v, "pos", SInt(end))
            return SeqView(z3.simplify(view.n - start), lambda j: view.get(z3.simplify(start + j)), "iter", view.kind)
        if isinstance(v, (Inst, SVal)):
            cls = v.cls
            for c in cls.__mro__ if cls else ():
                if c.__name__ in REG.iters:
                    return self.iterate(REG.iters[c.__name__](self, v))
            if isinstance(v, SVal) and ("object" in REG.iters):
                return self.iterate(REG.iters["object"](self, v))
        hook = getattr(v, "__pyvc_iter__", None)
        if hook:
            return hook(self)
        if not contains_sym(v):
            try:
                return list(v)
            except TypeError as error:
                raise Raised(TypeError, error.args) from None
        raise Unsupported(f"iteration over {v!r}")

    def char_view(self, v):
        t = v.t if isinstance(v, SStr) else z3.StringVal(v)
        return SeqView(z3.Length(t), lambda i: SStr(z3.SubString(t, i, 1)), "list", STR)

    def dict_seq(self, cell, what):
        st = self.symbolic_dict(cell)

        def get(i):
            k = [z3.Select(a, i) for a in st.keyat]
            key = self.eng.unpack(st.kk, k)
            if what == "keys":
                return key
            value = self.dict_value(cell, st, self.eng.key(st.kk, key), key)
            return value if what == "values" else (key, value)

        return SeqView(st.n, get, "list")

    def set_seq(self, s):
        """The elements of a set in an order nothing is known about."""
        eng = self.eng
        kind = VAL if isinstance(s, (set, frozenset)) else eng.set_kind(s)
        if isinstance(kind, NodeK):
            raise Unsupported("iteration over a set of nodes")
        dom = eng.set_array(s, kind)
        return self.enumeration(dom, kind)

    def enumeration(self, dom, kind, fresh=True):
        eng = self.eng
        sort = kind.sorts[0]
        n = self.card(dom)
        at, pos = eng.new("elem", z3.ArraySort(Int, sort)), eng.new("pos", z3.ArraySort(sort, Int))
        i, x = z3.Int("i!enum"), z3.Const("x!enum", sort)
        eng.assume(z3.ForAll([i], z3.Implies(ranged(i, n), z3.And(z3.Select(dom, at[i]), pos[at[i]] == i)),
                             patterns=[at[i]]))
        eng.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.And(ranged(pos[x], n), at[pos[x]] == x)),
                             patterns=[pos[x]] if z3.is_quantifier(dom) else [z3.Select(dom, x)]))
        out = SeqView(n, lambda j: eng.unpack(kind, [at[j]]), "list", kind)
        out.place = lambda x: z3.Select(pos, x)
        return out

    def card(self, dom):
        """Number of elements of a set."""
        eng = self.eng
        sort = dom.domain() if hasattr(dom, "domain") else dom.sort().domain()
        f = z3.Function(f"card_{sort}", z3.ArraySort(sort, Bool), Int)
        one = z3.Function(f"some_{sort}", z3.ArraySort(sort, Bool), sort)
        n = f(dom)
        key = ("card", n.get_id())
        if key not in eng.memo:
            eng.memo[key] = n
            x, y = z3.Const("x!card", sort), z3.Const("y!card", sort)
            facts = [n >= 0, (n > 0) == z3.Select(dom, one(dom)),
                     z3.ForAll([x], z3.Implies(z3.Select(dom, x), n > 0)),
                     z3.Implies(n == 1, z3.ForAll([x], z3.Implies(z3.Select(dom, x), x == one(dom)))),
                     z3.Implies(n > 1, z3.Exists([x, y], z3.And(z3.Select(dom, x), z3.Select(dom, y), x != y)))]
            for fact in facts:
                eng.assume(fact)
        return n

    def st_For(self, s, frame):
        seq = self.iterate(self.ev(s.iter, frame))
        if isinstance(seq, list):
            for value in seq:
                self.assign(s.target, value, frame)
                try:
                    self.block(s.body, frame)
                except Break:
                    return
                except Continue:
                    continue
            self.block(s.orelse, frame)
            return
        self.symbolic_loop(s, frame, seq)

    def st_While(self, s, frame):
        if self.concrete_while(s, frame):
            return
        self.symbolic_loop(s, frame, None)

    def concrete_while(self, s, frame):
        """Unrolls a loop whose condition is always decided without a case distinction (up to a bound)."""
        spec = REG.loops.get((frame.name, self.loop_number(s, frame)))
        if spec is not None:
            return False
        c = self.eng.ctx
        for k in range(200):
            mark = len(c.trace)
            value = self.ev(s.test, frame)
            if k == 0 and isinstance(value, (Sym, Cell)) and not isinstance(value, SBool):
                return False
            if isinstance(value, SBool):
                t = z3.simplify(value.t)
                if not (z3.is_true(t) or z3.is_false(t)):
                    if k == 0:
                        return False
                    raise Unsupported("loop that becomes symbolic")
            if len(c.trace) != mark and k == 0:
                raise Unsupported("while condition with cases")
            if not self.truth(value):
                self.block(s.orelse, frame)
                return True
            try:
                self.block(s.body, frame)
            except Break:
                return True
            except Continue:
                continue
        raise Unsupported("loop not unrolled")

    def loop_number(self, s, frame):
        if not frame.loop_ids and frame.node is not None:
            loops = [n for n in walk_own(frame.node) if isinstance(n, (ast.For, ast.While))]
            loops.sort(key=lambda n: (n.lineno, n.col_offset))
            frame.loop_ids = {id(n): k for k, n in enumerate(loops)}
        return frame.loop_ids.get(id(s), -1)

    def symbolic_loop(self, s, frame, seq):
        eng = self.eng
        number = self.loop_number(s, frame)
        label = f"{frame.name} loop {number + 1}"
        spec = REG.loops.get((frame.name, number))
        taint = None
        if spec is None:
            spec, taint = LoopSpec(), f"{label} has no invariant"
        else:
            shape = loop_shape(s, frame.node) if frame.node is not None else []
            eng.loop_shapes[label] = shape
            if shape and REG.loop_shapes.get(label, shape) != shape:
                # Another loop than the one the invariant was written for: a failure says nothing about the code
                taint = f"{label} carries {', '.join(shape[1:])} and not {', '.join(REG.loop_shapes[label][1:])}"
                eng.taint = eng.taint or taint
        if any(isinstance(level, PureLevel) for level in eng.loops):
            raise Unsupported("loop within an expression")
        key = (id(s), tuple(eng.ctx.trace))
        mods = eng.modsets.setdefault(key, {"cells": {}, "attrs": {}, "heap": set(), "locals": {}})
        start = eng.serial
        entry = dict(frame.locals)
        heap_entry = dict(eng.heap)
        n = seq.n if seq is not None else None
        ghosts = {}
        for g, (kind, init, _) in spec.ghosts.items():
            ghosts[g] = init(self, frame) if callable(init) else init
        entry_cells = self.snapshot_cells()

        def state(i):
            L = LoopState(self, frame, entry, i, n, seq, ghosts, start)
            L.heap_entry, L.entry_cells = heap_entry, entry_cells
            return L

        def invariant(i):
            return list(spec.inv(state(i)) or []) if spec.inv else []

        # It holds to begin with
        for text, term in invariant(z3.IntVal(0)):
            eng.prove(f"{label}: {text} (initially)", term)
        # Any state that the loop can reach
        names = assigned_names(s)
        target_names = assigned_names(s.target) if isinstance(s, ast.For) else set()
        self.havoc(frame, names, mods, spec, ghosts)
        leave = eng.choose(2)
        i = eng.new("i", Int) if seq is not None else None
        if leave == 0:
            if seq is not None:
                eng.assume(ranged(i, n))
            for _, term in invariant(i):
                eng.assume(term)
            if taint:
                eng.taint = eng.taint or taint
            level = LoopLevel(start, mods, key[1])
            try:
                eng.loops.append(level)
                if seq is not None:
                    self.assign(s.target, seq.get(i), frame)
                elif not self.truth(self.ev(s.test, frame)):
                    raise PathEnd
                try:
                    self.block(s.body, frame)
                except Continue:
                    pass
                # (Break, Return and Raised leave the loop with the state they have)
                self.learn_locals(frame, names, mods, key)
                self.learn_cells(mods, key[1])
                new_ghosts = {}
                for g, (kind, _, step) in spec.ghosts.items():
                    new_ghosts[g] = step(state(i))
                ghosts.update(new_ghosts)
                nxt = i + 1 if seq is not None else None
                for text, term in invariant(nxt):
                    eng.prove(f"{label}: {text} (kept)", term)
                raise PathEnd
            except Break:
                return
            finally:
                eng.loops.remove(level)
        if seq is not None:
            for _, term in invariant(n):
                eng.assume(term)
            for name in target_names | names:
                if name not in frame.locals or isinstance(frame.locals[name], Undefined):
                    kind = mods["locals"].get(name)
                    if kind is not None and (name in target_names or name not in entry):
                        frame.locals[name] = Late(n > 0, kind)
                    else:
                        frame.locals.pop(name, None)
                elif name in target_names and name in entry and mods["locals"].get(name) is None:
                    frame.locals[name] = UNDEFINED
        else:
            for _, term in invariant(None):
                eng.assume(term)
            if taint:
                eng.taint = eng.taint or taint
            if self.truth(self.ev(s.test, frame)):
                raise PathEnd
        if taint:
            eng.taint = eng.taint or taint
        if spec.after:
            # What follows when the loop ends, to be proved and then known
            for text, term in spec.after(state(n)):
                eng.prove(f"{label}: {text}", term)
                eng.assume(term)
        self.block(s.orelse, frame)

    def snapshot_cells(self):
        out = {}
        for serial, c in self.eng.cells.items():
            if isinstance(c, ListCell):
                out[serial] = (list(c.items) if c.items is not None else None, c.view)
            elif isinstance(c, SetCell):
                out[serial] = (list(c.items) if c.items is not None else None, c.kind, None if c.link else c.dom_)
            elif isinstance(c, DictCell):
                out[serial] = ([list(x) for x in c.items] if c.items is not None else None, c.state)
        return out

    def havoc(self, frame, names, mods, spec, ghosts):
        eng = self.eng
        for name in sorted(names):
            if name not in frame.locals:
                continue
            old = frame.locals[name]
            if isinstance(old, (Late, Undefined)):
                frame.locals[name] = UNDEFINED
                continue
            kind = mods["locals"].get(name)
            if kind == "cell":
                raise Unsupported(f"{name} refers to another container in every iteration")
            if isinstance(old, (DictCell, Func, Inst)):
                frame.locals[name] = UNDEFINED
                continue
            kind = join_kinds(eng.kind_of(old), kind) if kind is not None else eng.kind_of(old)
            if name in spec.kinds:
                kind = spec.kinds[name]
            mods["locals"][name] = kind
            frame.locals[name] = eng.fresh(kind, name)
        for serial, kinds in sorted(mods["cells"].items()):
            self.havoc_cell(eng.cells[serial], kinds)
            mods.setdefault("used", {})[serial] = self.cell_kinds(eng.cells[serial])
        for (serial, name), kind in sorted(mods["attrs"].items(), key=lambda x: x[0]):
            inst = eng.cells[serial]
            if kind is None:
                raise Unsupported(f"attribute {name} set within a loop")
            if name in inst.attrs:
                old = inst.attrs[name]
                if not isinstance(old, (DictCell, Inst)):
                    kind = join_kinds(eng.kind_of(old), kind)
                inst.attrs[name] = eng.fresh(kind, name)
        for field in sorted(mods["heap"]):
            if field in eng.heap:
                eng.heap[field] = eng.new(f"heap.{field}", eng.heap[field].sort())
            else:
                self.heap_default(field)
                eng.heap[field] = eng.new(f"heap.{field}", eng.heap[field].sort())
        for g, (kind, _, _) in spec.ghosts.items():
            ghosts[g] = eng.fresh(kind, g)

    def heap_default(self, field):
        raise Unsupported(f"heap field {field}")

    def havoc_cell(self, cell, kinds):
        eng = self.eng
        if isinstance(cell, ListCell):
            kind = kinds or eng.elem_kind(cell)
            v = eng.fresh(ListK(kind), "list")
            cell.view, cell.items = v.view, None
        elif isinstance(cell, SetCell):
            kind = kinds or eng.set_kind(cell)
            if kind == EMPTY:
                kind = VAL
            dom = eng.new("set", z3.ArraySort(kind.sorts[0], Bool))
            self.set_dom(cell, dom, kind)
        elif isinstance(cell, DictCell):
            kk, vk = kinds or self.dict_kinds(cell)
            if kk == EMPTY and vk == EMPTY:
                cell.state, cell.items = None, []
            else:
                cell.state, cell.items = self.fresh_dict(kk, vk), None
        else:
            raise Unsupported("cell")

    def cell_kinds(self, cell):
        if isinstance(cell, ListCell):
            return self.eng.elem_kind(cell)
        if isinstance(cell, SetCell):
            return self.eng.set_kind(cell)
        return self.dict_kinds(cell)

    def learn_cells(self, mods, key):
        """What is in a container after an iteration has to fit what it is thought to hold before one."""
        for serial, kinds in mods["cells"].items():
            used, now = mods.get("used", {}).get(serial), self.cell_kinds(self.eng.cells[serial])
            if used is None:
                continue
            if isinstance(used, tuple):
                joined = tuple(join_kinds(a, b) for a, b in zip(used, now))
            else:
                joined = join_kinds(used, now)
            if joined != used:
                mods["cells"][serial] = joined
                raise Restart(key)

    def learn_locals(self, frame, names, mods, key):
        for name in names:
            if name in frame.locals and not isinstance(frame.locals[name], (Late, Undefined)):
                v = frame.locals[name]
                if isinstance(v, (DictCell, Func, Inst, BuiltinMethod, Bound, SummaryOf, DictView, ExcVal)):
                    continue
                try:
                    kind = self.eng.kind_of(v)
                except Unsupported:
                    continue
                old = mods["locals"].get(name)
                new = join_kinds(old, kind) if old is not None else kind
                if old is None or new != old:
                    mods["locals"][name] = new
                    raise Restart(key[1])

    # ---------------------------------------------------------------------------------------- expressions
    def ev(self, e, frame):
        return self.force(getattr(self, "ex_" + type(e).__name__, self.unsupported)(e, frame))

    def force(self, v):
        if isinstance(v, Opt):
            if self.eng.branch(v.none):
                return None
            return self.force(v.value)
        return v

    def ex_Constant(self, e, frame):
        return e.value

    def ex_Name(self, e, frame):
        try:
            v = frame.lookup(e.id)
        except SpecMismatch:
            raise Raised(NameError, (e.id,)) from None
        if isinstance(v, Late):
            if not self.eng.branch(v.cond):
                raise Raised(UnboundLocalError, (e.id,))
            v = frame.locals[e.id] = self.eng.fresh(v.value, e.id)
        if isinstance(v, Undefined):
            raise Unsupported(f"value of {e.id} after another iteration")
        return v

    def ex_Attribute(self, e, frame):
        return self.getattr(self.ev(e.value, frame), self.mangle(e.attr, frame))

    def mangle(self, name, frame):
        if name.startswith("__") and not name.endswith("__") and frame.cls is not None:
            return f"_{frame.cls.__name__.lstrip('_')}{name}"
        return name

    def ex_Subscript(self, e, frame):
        return self.getitem(self.ev(e.value, frame), self.ev(e.slice, frame))

    def ex_Slice(self, e, frame):
        return slice(*(self.ev(x, frame) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def ex_Tuple(self, e, frame):
        return self.display(e.elts, frame, tuple)

    def ex_List(self, e, frame):
        v = self.display(e.elts, frame, list)
        return self.eng.list_cell(v) if isinstance(v, list) else self.eng.list_cell(view=v)

    def display(self, elts, frame, make):
        items, parts = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = self.iterate(self.ev(x.value, frame))
                if isinstance(seq, list):
                    items += seq
                else:
                    parts += [self.eng.view(tuple(items)), seq]
                    items = []
            else:
                items.append(self.ev(x, frame))
        if not parts:
            return make(items)
        parts.append(self.eng.view(tuple(items)))
        v = parts[0]
        for p in parts[1:]:
            v = self.concat(v, p)
        return self.as_view(v, lambda x: x, "tuple" if make is tuple else "list")

    def as_view(self, seq, fn, sort):
        """The sequence of fn(x), element by element."""
        out = SeqView(seq.n, lambda i: fn(seq.get(i)), sort)
        out.source = getattr(seq, "source", None)
        if hasattr(seq, "parts"):
            out.parts = tuple(self.as_view(p, fn, sort) for p in seq.parts)
        return out

    def concat(self, a, b):
        if z3.is_int_value(z3.simplify(a.n)) and z3.simplify(a.n).as_long() == 0:
            return b
        if z3.is_int_value(z3.simplify(b.n)) and z3.simplify(b.n).as_long() == 0:
            return a
        eng = self.eng

        def get(i):
            i = i if z3.is_expr(i) else z3.IntVal(i)
            c = z3.simplify(i < a.n)
            if z3.is_true(c):
                return a.get(i)
            if z3.is_false(c):
                return b.get(i - a.n)
            return eng.merge([(c, a.get(i)), (z3.Not(c), b.get(i - a.n))])

        out = SeqView(a.n + b.n, get, a.sort)
        out.parts = (a, b)
        return out

    def ex_Set(self, e, frame):
        cell = self.eng.set_cell([])
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.call_method(cell, "update", (self.ev(x.value, frame),), {})
            else:
                self.call_method(cell, "add", (self.ev(x, frame),), {})
        return cell

    def ex_Dict(self, e, frame):
        cell = self.eng.dict_cell([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call_method(cell, "update", (self.ev(v, frame),), {})
            else:
                self.setitem(cell, self.ev(k, frame), self.ev(v, frame))
        return cell

    def ex_JoinedStr(self, e, frame):
        out = ""
        for part in e.values:
            if isinstance(part, ast.Constant):
                out = self.str_concat(out, part.value)
            else:
                v = self.ev(part.value, frame)
                if part.conversion == 114:
                    v = self.call(repr, (v,))
                elif part.conversion == 97:
                    raise Unsupported("ascii conversion")
                elif part.conversion == 115:
                    v = self.call(str, (v,))
                spec = self.ev(part.format_spec, frame) if part.format_spec is not None else ""
                if spec != "":
                    real = self.to_real(v)
                    if real is MISSING or not isinstance(spec, str):
                        raise Unsupported("format specification")
                    out = self.str_concat(out, format(real, spec))
                else:
                    out = self.str_concat(out, self.to_str(v))
        return out

    def to_str(self, v):
        return self.call(str, (v,))

    def str_concat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, str) and a == "":
            return b
        if isinstance(b, str) and b == "":
            return a
        return SStr(z3.Concat(self.eng.str_term(a), self.eng.str_term(b)))

    def ex_FormattedValue(self, e, frame):
        return self.ex_JoinedStr(ast.JoinedStr([e]), frame)

    def ex_NamedExpr(self, e, frame):
        v = self.ev(e.value, frame)
        frame.locals[e.target.id] = v
        return v

    def ex_Lambda(self, e, frame):
        return self.make_func(e, frame, "<lambda>")

    def ex_IfExp(self, e, frame):
        return self.ev(e.body if self.truth(self.ev(e.test, frame)) else e.orelse, frame)

    def ex_BoolOp(self, e, frame):
        is_and = isinstance(e.op, ast.And)
        value = None
        for k, x in enumerate(e.values):
            value = self.ev(x, frame)
            if k == len(e.values) - 1:
                return value
            if self.truth(value) != is_and:
                return value
        return value

    def ex_UnaryOp(self, e, frame):
        v = self.ev(e.operand, frame)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.t)
            if not contains_sym(v):
                return -v
        raise Unsupported("unary operator")

    def ex_BinOp(self, e, frame):
        return self.binop(e.op, self.ev(e.left, frame), self.ev(e.right, frame))

    def ex_Compare(self, e, frame):
        left = self.ev(e.left, frame)
        result = True
        for k, (op, right) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(right, frame)
            r = self.compare(op, left, right)
            if k == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return False
            left, result = right, r
        return result

    def ex_Call(self, e, frame):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            receiver = frame.locals[frame.node.args.args[0].arg]
            return SuperProxy(receiver, frame.cls if frame.cls is not None else frame.lookup("__class__"))
        f = self.ev(e.func, frame)
        args, view = [], None
        for a in e.args:
            if isinstance(a, ast.Starred):
                seq = self.iterate(self.ev(a.value, frame))
                if isinstance(seq, list):
                    args += seq
                elif len(e.args) == 1 and not e.keywords:
                    view = seq
                else:
                    raise Unsupported("unknown number of arguments")
            else:
                args.append(self.ev(a, frame))
        if view is not None:
            return self.call_star(f, view)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                more = self.ev(k.value, frame)
                known = self.to_items(more)
                kwargs.update(known)
            else:
                kwargs[k.arg] = self.ev(k.value, frame)
        return self.call(f, tuple(args), kwargs)

    def call_star(self, f, view):
        """f(*view) with an unknown number of arguments."""
        fn = f
        if isinstance(f, SummaryOf):
            return f.fn(self, (*(() if f.receiver is MISSING else (f.receiver,)), StarArgs(view)), {})
        receiver = ()
        if isinstance(f, Bound):
            fn, receiver = f.fn, (f.receiver,)
        elif isinstance(f, types.MethodType):
            fn, receiver = f.__func__, (f.__self__,)
        model = REG.models.get(id(fn))
        if model is not None:
            return model[1](self, (*receiver, StarArgs(view)), {})
        if isinstance(fn, types.FunctionType):
            key = tuple(fn.__qualname__.rsplit(".", 1)) if "." in fn.__qualname__ else (
                fn.__module__.split(".")[-1], fn.__qualname__)
            if key in REG.summaries:
                self.eng.summaries_used.add(key)
                return REG.summaries[key](self, (*receiver, StarArgs(view)), {})
            node = node_of(fn)
            if node.args.vararg and len(node.args.args) == len(receiver):
                closure = {n: c.cell_contents for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ())}
                frame = Frame(fn.__qualname__, fn.__globals__, {}, closure, closure.get("__class__"), node)
                self.reads(fn, node)
                self.bind(node.args, frame, list(receiver), {}, [], dict(fn.__kwdefaults__ or {}))
                frame.locals[node.args.vararg.arg] = SeqView(view.n, view.get, "tuple", view.kind)
                try:
                    self.block(node.body, frame)
                except Return as r:
                    return r.value
                return None
        if isinstance(f, BuiltinMethod):
            return self.call_method(f.receiver, f.name, (StarArgs(view),), {})
        if fn in (set.union, set.intersection):
            # The first set, together with all of them
            if self.eng.branch(view.n <= 0):
                raise Raised(TypeError, ("unbound method needs an argument",))
            return self.call_method(view.get(z3.IntVal(0)), fn.__name__, (StarArgs(view),), {})
        if isinstance(fn, types.MethodDescriptorType) or isinstance(fn, types.BuiltinMethodType):
            raise Unsupported(f"{fn} with an unknown number of arguments")
        raise Unsupported("unknown number of arguments")

    def to_items(self, v):
        if isinstance(v, dict):
            return v
        if isinstance(v, DictCell) and v.items is not None:
            return dict(v.items)
        raise Unsupported("keyword arguments from an unknown dictionary")

    # comprehensions
    def ex_ListComp(self, e, frame):
        r = self.comprehension(e.generators, [e.elt], frame)
        if isinstance(r, list):
            return self.eng.list_cell([x[0] for x in r])
        return self.eng.list_cell(view=self.as_view(r, lambda x: x[0], "list"))

    def ex_GeneratorExp(self, e, frame):
        r = self.comprehension(e.generators, [e.elt], frame)
        if isinstance(r, list):
            return SeqView(z3.IntVal(len(r)), self.eng.view(tuple(x[0] for x in r)).get, "iter")
        return self.as_view(r, lambda x: x[0], "iter")

    def ex_SetComp(self, e, frame):
        r = self.comprehension(e.generators, [e.elt], frame)
        cell = self.eng.set_cell([])
        if isinstance(r, list):
            for x in r:
                self.call_method(cell, "add", (x[0],), {})
            return cell
        self.call_method(cell, "update", (SeqView(r.n, lambda i: r.get(i)[0], "list"),), {})
        return cell

    def ex_DictComp(self, e, frame):
        r = self.comprehension(e.generators, [e.key, e.value], frame)
        cell = self.eng.dict_cell([])
        if isinstance(r, list):
            for k, v in r:
                self.setitem(cell, k, v)
            return cell
        return self.call(dict, (r,))

    def comprehension(self, generators, elts, frame):
        inner = Frame(frame.name, frame.globals, {}, _Outer(frame), frame.cls, None)
        first = generators[0]
        seq = self.iterate(self.ev(first.iter, frame))
        if isinstance(seq, list):
            out = []
            for value in seq:
                self.assign(first.target, value, inner)
                if all(self.truth(self.ev(c, inner)) for c in first.ifs):
                    if len(generators) > 1:
                        sub = self.comprehension(generators[1:], elts, inner)
                        if not isinstance(sub, list):
                            raise Unsupported("nested comprehension")
                        out += sub
                    else:
                        out.append(tuple(self.ev(x, inner) for x in elts))
            return out
        if len(generators) > 1:
            raise Unsupported("nested comprehension over an unknown number of elements")
        if first.ifs:
            def cond(value):
                self.assign(first.target, value, inner)
                for c in first.ifs:
                    if not self.truth(self.ev(c, inner)):
                        return False
                return True

            seq = self.filtered(seq, cond)

        def element(value):
            self.assign(first.target, value, inner)
            return tuple(self.ev(x, inner) for x in elts)

        return self.mapped(seq, element)

    def mapped(self, seq, fn):
        """The sequence of fn(x). `fn` is evaluated once, for an arbitrary element."""
        eng = self.eng
        if hasattr(seq, "parts"):
            return self.concat(*(self.mapped(p, fn) for p in seq.parts))
        i = z3.Int(eng.name("ix"))
        value, raising = eng.evaluate(lambda: fn(seq.get(i)), [i], ranged(i, seq.n))
        self.raise_any(raising, i, seq.n)
        if value is None and not raising:
            raise Unsupported("no element")
        kind = eng.kind_of(value)
        columns = eng.pack(kind, value)

        def get(j):
            j = j if z3.is_expr(j) else z3.IntVal(j)
            return eng.unpack(kind, [z3.substitute(c, (i, j)) for c in columns])

        out = SeqView(seq.n, get, "list", kind)
        out.source = seq.source
        return out

    def raise_any(self, raising, i, n):
        for cond, error in raising:
            body = z3.And(ranged(i, n), cond)
            if self.eng.branch(z3.Exists([i], body) if core.occurs(i, body) else body):
                raise Raised(error.cls, error.exc_args)

    def predicate(self, seq, fn):
        """The condition fn(x) of the i-th element as function of i."""
        eng = self.eng
        i = z3.Int(eng.name("ix"))
        value, raising = eng.evaluate(lambda: SBool(as_term(self.truth_term(fn(seq.get(i))))), [i], ranged(i, seq.n))
        self.raise_any(raising, i, seq.n)
        if value is None:
            return lambda j: z3.BoolVal(False)
        return lambda j: z3.substitute(value.t, (i, j if z3.is_expr(j) else z3.IntVal(j)))

    def filtered(self, seq, fn):
        """The elements that satisfy fn, in order."""
        eng = self.eng
        cond = self.predicate(seq, fn)
        m = eng.new("count", Int)
        at, pos = eng.new("kept", z3.ArraySort(Int, Int)), eng.new("place", z3.ArraySort(Int, Int))
        i, j = z3.Int("i!filter"), z3.Int("j!filter")
        eng.assume(z3.And(m >= 0, m <= seq.n))
        eng.assume(z3.ForAll([j], z3.Implies(ranged(j, m), z3.And(ranged(at[j], seq.n), cond(at[j]), pos[at[j]] == j)),
                             patterns=[at[j]]))
        eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), at[i] < at[j]),
                             patterns=[z3.MultiPattern(at[i], at[j])]))
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(ranged(i, seq.n), cond(i)),
                                             z3.And(ranged(pos[i], m), at[pos[i]] == i)), patterns=[pos[i]]))
        for p in self.mentions(seq, i):
            eng.assume(z3.ForAll([i], z3.Implies(z3.And(ranged(i, seq.n), cond(i)),
                                                 z3.And(ranged(pos[i], m), at[pos[i]] == i)), patterns=[p]))
        # Every element has its place in question
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(ranged(i, seq.n), cond(i)), m > 0)))
        out = SeqView(m, lambda k: seq.get(at[k]), "list", seq.kind)
        out.source = (seq, at, pos, cond)
        return out

    def mentions(self, seq, i):
        """Terms by which the i-th element of a sequence is spoken of."""
        try:
            v = self.force(seq.get(i))
            v = v[0] if isinstance(v, tuple) else v
            t = self.eng.pack(self.eng.kind_of(v), v)[0]
        except (Unsupported, IndexError):
            return []
        while z3.is_app(t) and t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            t = t.arg(0)
        return [t] if z3.is_select(t) and t.arg(1).eq(i) and not core.occurs(i, t.arg(0)) else []

    # ---------------------------------------------------------------------------------------- truth, comparison
    def truth(self, v):
        return self.eng.branch(self.truth_term(v))

    def truth_term(self, v):
        v = self.force(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != z3.StringVal("")
        if isinstance(v, ListCell):
            return bool(v.items) if v.items is not None else v.view.n > 0
        if isinstance(v, SeqView):
            return True if v.sort == "iter" else v.n > 0
        if isinstance(v, SetCell):
            return bool(v.items) if v.items is not None else self.card(v.dom) > 0
        if isinstance(v, DictCell):
            return bool(v.items) if v.items is not None else v.state.n > 0
        if isinstance(v, DictView):
            return self.truth_term(v.cell)
        if isinstance(v, Inst):
            for name in ("__bool__", "__len__"):
                if self.class_attr(v.cls, name) is not MISSING:
                    return self.truth_term(self.call(self.getattr(v, name)))
            return True
        if isinstance(v, SVal):
            if v.cls is not None:
                hook = next((REG.fields[c.__name__, "__bool__"] for c in v.cls.__mro__
                             if (c.__name__, "__bool__") in REG.fields), None)
                if hook:
                    return hook(self, v)
            t = v.t
            f = z3.Function("truth_of", Val, Bool)
            return z3.If(core.is_str(t), Val.s(t) != z3.StringVal(""), z3.If(core.is_int(t), Val.i(t) != 0, z3.If(
                core.is_bool(t), Val.b(t), z3.If(core.is_none(t), z3.BoolVal(False), f(t)))))
        if isinstance(v, (Func, Bound, ExcVal, SummaryOf, BuiltinMethod)):
            return True
        return bool(v)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.NotEq):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r if isinstance(r, bool) else SBool(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r if isinstance(r, bool) else SBool(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r if isinstance(r, bool) else SBool(r)
        if not contains_sym(a) and not contains_sym(b):
            return self.real_call({ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
                                   ast.GtE: lambda x, y: x >= y}[type(op)], (a, b), {})
        a, b = self.plain(a), self.plain(b)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            x, y = self.eng.str_term(a), self.eng.str_term(b)
            if isinstance(op, (ast.Gt, ast.GtE)):
                x, y = y, x
            strict = isinstance(op, (ast.Lt, ast.Gt))
            return SBool(x < y if strict else x <= y)
        if isinstance(a, (SInt, int, SBool)) and isinstance(b, (SInt, int, SBool)):
            x, y = self.eng.int_term(a), self.eng.int_term(b)
            return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        if all(isinstance(v, (SetCell, set, frozenset)) for v in (a, b)) and isinstance(op, (ast.LtE, ast.GtE)):
            return self.call_method(*((a, "issubset", (b,)) if isinstance(op, ast.LtE) else (b, "issubset", (a,))), {})
        hook = REG.summaries.get(("object", "compare"))
        if hook:
            return hook(self, (op, a, b), {})
        raise Unsupported(f"comparison of {a!r} and {b!r}")

    def plain(self, v):
        """An opaque value that is known to be a string or a number, as such."""
        if isinstance(v, SVal) and v.cls is None:
            if self.eng.implied(core.is_str(v.t)):
                return SStr(Val.s(v.t))
            if self.eng.implied(core.is_int(v.t)):
                return SInt(Val.i(v.t))
        return v

    def identical(self, a, b):
        if a is b:
            return True
        if b is None or a is None:
            x = a if b is None else b
            if isinstance(x, SVal):
                return False if x.cls is not None else core.is_none(x.t)
            return x is None
        for x, y in ((a, b), (b, a)):
            if isinstance(y, bool) and isinstance(x, SBool):
                return x.t if y else z3.Not(x.t)
            if isinstance(y, bool) and not isinstance(x, (bool, SVal)):
                return False
        if isinstance(a, (Cell, SeqView)) or isinstance(b, (Cell, SeqView)):
            return False
        if not contains_sym(a) and not contains_sym(b):
            return a is b
        if isinstance(a, (Inst, SVal)) or isinstance(b, (Inst, SVal)):
            return self.eng.to_val(a) == self.eng.to_val(b)
        return self.equal(a, b)

    def custom_eq(self, v):
        """Whether == is what a class of the repository says, not identity."""
        if not isinstance(v, (Inst, SVal)) or v.cls is None or isinstance(v, Inst) and dataclasses.is_dataclass(v.cls):
            return False
        return (getattr(v.cls.__eq__, "__module__", None) or "").startswith("lazy_type_hint")

    def equal(self, a, b):
        """== as condition."""
        eng = self.eng
        a, b = self.force(a), self.force(b)
        if a is b and not isinstance(a, float):
            return True
        if self.custom_eq(a) or self.custom_eq(b):
            return f_eqc_(eng, a) == f_eqc_(eng, b)
        if not contains_sym(a) and not contains_sym(b):
            return bool(self.real_call(lambda x, y: x == y, (a, b), {}))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return conj([self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return z3.simplify(eng.str_term(a) == eng.str_term(b))
        if isinstance(a, (SInt, SBool, int)) and isinstance(b, (SInt, SBool, int)):
            return eng.int_term(a) == eng.int_term(b) if not (
                isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool))) else (
                eng.bool_term(a) == eng.bool_term(b))
        sets = (SetCell, set, frozenset)
        if isinstance(a, sets) and isinstance(b, sets):
            ka = eng.set_kind(a) if isinstance(a, SetCell) else EMPTY
            kb = eng.set_kind(b) if isinstance(b, SetCell) else EMPTY
            kind = ka if ka != EMPTY else kb if kb != EMPTY else VAL
            if {ka, kb} - {EMPTY, kind}:
                kind = VAL
            x = z3.Const("x!seteq", kind.sorts[0])
            p, q = eng.set_array(a, kind), eng.set_array(b, kind)
            return z3.ForAll([x], z3.Select(p, x) == z3.Select(q, x))
        lists = (ListCell, SeqView, tuple, list)
        if isinstance(a, lists) and isinstance(b, lists):
            if (isinstance(a, tuple) or getattr(a, "sort", "") == "tuple") != (
                    isinstance(b, tuple) or getattr(b, "sort", "") == "tuple"):
                return False
            va, vb = eng.view(a), eng.view(b)
            i = z3.Int(eng.name("ix"))
            value, _ = eng.evaluate(lambda: SBool(as_term(self.equal(va.get(i), vb.get(i)))), [i],
                                    z3.And(ranged(i, va.n), ranged(i, vb.n)))
            if value is None:
                return va.n == vb.n
            return z3.And(va.n == vb.n, z3.ForAll([i], z3.Implies(ranged(i, va.n), value.t)))
        if isinstance(a, SVal) or isinstance(b, SVal):
            if isinstance(a, Cell) or isinstance(b, Cell):
                raise Unsupported("comparison of a container with an unknown object")
            return eng.to_val(a) == eng.to_val(b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and dataclasses.is_dataclass(a.cls):
                names = [f.name for f in dataclasses.fields(a.cls) if f.compare]
                return conj([self.equal(a.attrs[n], b.attrs[n]) for n in names])
            return False
        if isinstance(a, DictCell) or isinstance(b, DictCell):
            if isinstance(a, DictCell) and isinstance(b, (DictCell, dict)) or isinstance(a, (dict, DictCell)):
                return self.dict_equal(a, b)
        if type(a) is not type(b):
            return False
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def dict_equal(self, a, b):
        a = self.from_real(a) if isinstance(a, dict) else a
        b = self.from_real(b) if isinstance(b, dict) else b
        if a.items is not None and b.items is not None:
            da, db = dict(map(tuple, a.items)), dict(map(tuple, b.items))
            if set(da) != set(db):
                return False
            return conj([self.equal(da[k], db[k]) for k in da])
        raise Unsupported("equality of dictionaries")

    def contains(self, box, x):
        """`x in box` as condition."""
        eng = self.eng
        box, x = self.force(box), self.force(x)
        if not contains_sym(box) and not contains_sym(x):
            return bool(self.real_call(lambda b, y: y in b, (box, x), {}))
        if isinstance(box, (SStr, str)):
            if isinstance(x, SVal):
                if not eng.branch(core.is_str(x.t)):
                    raise Raised(TypeError, ())
            return z3.Contains(eng.str_term(box), eng.str_term(x))
        if isinstance(box, SetCell):
            if box.items is not None:
                return disj([self.equal(x, y) for y in box.items])
            if not self.key_fits(box.kind, x):
                return False
            return self.with_key(box.kind, x, lambda k: z3.Select(box.dom, k))
        if isinstance(box, DictCell):
            if box.items is not None:
                return disj([self.equal(x, k) for k, _ in box.items])
            return self.with_key(box.state.kk, x, lambda k: z3.Select(box.state.dom, k))
        if isinstance(box, DictView):
            if box.what == "keys":
                return self.contains(box.cell, x)
            if box.cell.items is not None:
                return disj([self.equal(x, v if box.what == "values" else (k, v)) for k, v in box.cell.items])
            return self.contains(self.dict_seq(box.cell, box.what), x)
        if isinstance(box, (tuple, list, set, frozenset, dict)):
            return disj([self.equal(x, y) for y in box])
        if isinstance(box, ListCell) and box.items is not None:
            return disj([self.equal(x, y) for y in box.items])
        if isinstance(box, (ListCell, SeqView)):
            view = eng.view(box)
            i = z3.Int(eng.name("ix"))
            value, _ = eng.evaluate(lambda: SBool(as_term(self.equal(view.get(i), x))), [i], ranged(i, view.n))
            if value is None:
                return False
            return z3.Exists([i], z3.And(ranged(i, view.n), value.t))
        if isinstance(box, Inst):
            if self.class_attr(box.cls, "__contains__") is not MISSING:
                return self.truth_term(self.call(self.getattr(box, "__contains__"), (x,)))
        hook = REG.summaries.get(("object", "__contains__"))
        if hook:
            return self.truth_term(hook(self, (box, x), {}))
        raise Unsupported(f"membership in {box!r}")

    def key_fits(self, kind, x):
        return True

    def with_key(self, kind, x, fn):
        """fn(key term); false for keys that cannot be of that kind."""
        eng = self.eng
        if kind == STR:
            if isinstance(x, (str, SStr)):
                return fn(eng.str_term(x))
            if isinstance(x, SVal):
                return z3.And(core.is_str(x.t), fn(Val.s(x.t)))
            return False
        if kind == INT:
            if isinstance(x, (int, SInt)):
                return fn(eng.int_term(x))
            if isinstance(x, SVal):
                return z3.And(core.is_int(x.t), fn(Val.i(x.t)))
            return False
        return fn(eng.key(kind, x))

    # ---------------------------------------------------------------------------------------- operators
    def binop(self, op, a, b):
        eng = self.eng
        a, b = self.force(a), self.force(b)
        if not contains_sym(a) and not contains_sym(b):
            table = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                     ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y, ast.Div: lambda x, y: x / y,
                     ast.BitOr: lambda x, y: x | y, ast.BitAnd: lambda x, y: x & y, ast.Pow: lambda x, y: x ** y}
            return self.real_call(table[type(op)], (a, b), {})
        a, b = self.plain(a), self.plain(b)
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            x, y = eng.int_term(a), eng.int_term(b)
            if isinstance(op, ast.Add):
                return SInt(x + y)
            if isinstance(op, ast.Sub):
                return SInt(x - y)
            if isinstance(op, ast.Mult):
                return SInt(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if eng.branch(y == 0):
                    raise Raised(ZeroDivisionError)
                if not eng.implied(y > 0):
                    raise Unsupported("division by a number that may be negative")
                return SInt(x / y if isinstance(op, ast.FloorDiv) else x % y)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.str_concat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (ListCell, list)) and isinstance(b, (ListCell, list)):
                v = self.concat(eng.view(a), eng.view(b))
                known = self.concrete_list(v)
                return eng.list_cell(known) if known is not None else eng.list_cell(view=v)
            if isinstance(a, (tuple, SeqView)) and isinstance(b, (tuple, SeqView)):
                v = self.concat(eng.view(a), eng.view(b))
                return SeqView(v.n, v.get, "tuple", v.kind)
        if isinstance(op, ast.Mult):
            if isinstance(b, (ListCell, list, str, SStr)):
                a, b = b, a
            if isinstance(b, (int, SInt)):
                if isinstance(a, (ListCell, list)):
                    items = self.concrete_list(a)
                    if items is not None and isinstance(b, int):
                        return eng.list_cell(items * b)
                    if items is not None and len(items) == 1:
                        n = eng.int_term(b)
                        return eng.list_cell(view=SeqView(z3.If(n > 0, n, 0), lambda i: items[0], "list",
                                                          eng.kind_of(items[0])))
                if isinstance(a, (str, SStr)):
                    return self.repeat(a, b)
        if isinstance(a, (SetCell, set, frozenset)) and isinstance(b, (SetCell, set, frozenset)):
            name = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference"}.get(type(op))
            if name:
                return self.call_method(a, name, (b,), {})
        if isinstance(op, ast.Mod) and isinstance(a, str):
            raise Unsupported("% formatting")
        if isinstance(op, ast.Div) and self.is_path(a) and isinstance(b, (str, SStr)):
            return SVal(core.f_joinpath(eng.to_val(a), eng.str_term(b)), pathlib.PosixPath)
        hook = REG.summaries.get(("object", "binop"))
        if hook:
            return hook(self, (op, a, b), {})
        raise Unsupported(f"operator {type(op).__name__} on {a!r} and {b!r}")

    @staticmethod
    def is_path(v):
        return isinstance(v, pathlib.PurePath) or isinstance(v, SVal) and v.cls is not None and issubclass(
            v.cls, pathlib.PurePath)

    def repeat(self, s, n):
        """s * n for a string: only its length and its characters are known if s is one character."""
        eng = self.eng
        f = z3.Function("repeated", Str, Int, Str)
        st, nt = eng.str_term(s), eng.int_term(n)
        t = f(st, nt)
        key = ("repeat", t.get_id())
        if key not in eng.memo:
            eng.memo[key] = t
            eng.assume(z3.Length(t) == z3.If(nt > 0, nt * z3.Length(st), 0))
            eng.assume(z3.Implies(nt <= 0, t == z3.StringVal("")))
            eng.assume(z3.Implies(nt == 1, t == st))
            if isinstance(s, str) and len(s) == 1:
                k = z3.Int("k!repeat")
                eng.assume(z3.ForAll([k], z3.Implies(ranged(k, nt), z3.SubString(t, k, 1) == st),
                                     patterns=[z3.SubString(t, k, 1)]))
        return SStr(t)

    # ---------------------------------------------------------------------------------------- items
    def index(self, view, i, error=IndexError):
        """Position i of a sequence, negative ones counted from its end."""
        eng = self.eng
        if isinstance(i, SVal):
            i = self.plain(i)
        if not isinstance(i, (int, SInt, SBool)):
            raise Raised(TypeError, ())
        if isinstance(i, int) and i < 0:
            t = view.n + i
        else:
            t = eng.int_term(i)
            if not isinstance(i, int) and eng.branch(t < 0):
                t = view.n + t
        if not eng.branch(z3.And(t >= 0, t < view.n)):
            raise Raised(error, ())
        return z3.simplify(t)

    def getitem(self, v, key):
        eng = self.eng
        v, key = self.force(v), self.force(key)
        if isinstance(key, slice):
            return self.getslice(v, key)
        if isinstance(v, (tuple, str, list, dict, types.MappingProxyType)) and not contains_sym(key) and not (
                isinstance(v, (dict,)) and contains_sym(v)):
            return self.real_item(v, key)
        if isinstance(v, (tuple, ListCell, SeqView, list)):
            items = self.concrete_list(v)
            if items is not None and isinstance(key, int):
                try:
                    return items[key]
                except IndexError:
                    raise Raised(IndexError, ()) from None
            view = eng.view(v)
            return view.get(self.index(view, key))
        if isinstance(v, (SStr, str)):
            view = self.char_view(v)
            return view.get(self.index(view, key))
        if isinstance(v, DictCell):
            return self.dict_get(v, key)
        if isinstance(v, (dict, types.MappingProxyType)):
            if isinstance(key, (SStr, SVal)):
                cases = [(as_term(self.equal(key, k)), x) for k, x in v.items()]
                if not eng.branch(z3.Or(*(c for c, _ in cases)) if cases else z3.BoolVal(False)):
                    raise Raised(KeyError, (key,))
                for c, x in cases[:-1]:
                    if eng.branch(c):
                        return x
                return cases[-1][1]
        if isinstance(v, Inst) and self.class_attr(v.cls, "__getitem__") is not MISSING:
            return self.call(self.getattr(v, "__getitem__"), (key,))
        if isinstance(v, SVal):
            p = self.plain(v)
            if isinstance(p, SStr):
                return self.getitem(p, key)
            hook = REG.summaries.get(("object", "__getitem__"))
            if hook:
                return hook(self, (v, key), {})
        if not contains_sym(v) and not contains_sym(key):
            return self.real_call(lambda a, b: a[b], (v, key), {})
        raise Unsupported(f"item of {v!r}")

    def real_item(self, v, key):
        try:
            return v[key]
        except Exception as error:  # noqa: BLE001
            raise Raised(type(error), error.args) from None

    def getslice(self, v, s):
        eng = self.eng
        if not contains_sym(v) and not contains_sym((s.start, s.stop, s.step)):
            return self.real_item(v, s)
        items = self.concrete_list(v) if not isinstance(v, (SStr, str)) else None
        if items is not None and not contains_sym((s.start, s.stop, s.step)):
            r = items[s]
            return tuple(r) if isinstance(v, tuple) or getattr(v, "sort", "") == "tuple" else eng.list_cell(r)
        if isinstance(v, (SStr, str)):
            t = eng.str_term(v)
            n = z3.Length(t)
        else:
            view = eng.view(v)
            n = view.n
        if s.step is not None:
            if s.step == -1 and s.start is None and s.stop is None and not isinstance(v, (SStr, str)):
                r = SeqView(n, lambda i: view.get(n - 1 - i), view.sort, view.kind)
                return r if isinstance(v, (tuple, SeqView)) else eng.list_cell(view=r)
            raise Unsupported("slice with a step")

        def bound(x, default):
            if x is None:
                return default
            x = self.force(x)
            if x is None:
                return default
            t = eng.int_term(x)
            if isinstance(x, int):
                if x >= 0:
                    return z3.If(t < n, t, n)
                return z3.If(n + t > 0, n + t, 0)
            t = z3.If(t < 0, z3.If(n + t > 0, n + t, 0), t)
            return z3.If(t < n, t, n)

        if isinstance(v, (SStr, str)):
            # The theory of strings cuts off by itself what lies behind the end
            ends = []
            for x, default in ((s.start, z3.IntVal(0)), (s.stop, n)):
                x = self.force(x)
                e = default if x is None else eng.int_term(x)
                ends.append(e if x is None or isinstance(x, int) and x >= 0 or not isinstance(x, int) and eng.implied(
                    e >= 0) else bound(x, default))
            if eng.split_strings:
                known = self.cut(flat(z3.simplify(t)), *ends)
                if known is not None:
                    return SStr(known)
            return SStr(z3.SubString(t, ends[0], ends[1] - ends[0]))
        a, b = bound(s.start, z3.IntVal(0)), bound(s.stop, n)
        length = z3.If(b - a > 0, b - a, 0)
        r = SeqView(length, lambda i: view.get(a + i), view.sort, view.kind)
        return r if isinstance(v, (tuple, SeqView)) else eng.list_cell(view=r)

    def cut(self, parts, a, b):
        """The text from a to b, if both are known places within what it is made of."""
        if len(parts) < 2:
            return None
        for end, keep in ((b, 0), (a, 1)):
            sides = self.split_at(parts, end)
            if sides is None:
                return None
            # `a` is found within what is left of `b`
            parts = sides[keep]
        return glue(parts)

    def split_at(self, parts, pos):
        eng = self.eng
        offset = z3.IntVal(0)
        for k, p in enumerate([*parts, None]):
            if eng.implied(pos == offset):
                return parts[:k], parts[k:]
            if p is None:
                return None
            if z3.is_string_value(p):
                text = string_value(p)
                if eng.implied(z3.And(offset < pos, pos < offset + len(text))):
                    for c in range(1, len(text)):
                        if eng.implied(pos == offset + c):
                            return [*parts[:k], z3.StringVal(text[:c])], [z3.StringVal(text[c:]), *parts[k + 1:]]
                    return None
            offset = z3.simplify(offset + z3.Length(p))
        return None

    def setitem(self, v, key, value):
        eng = self.eng
        v, key = self.force(v), self.force(key)
        if isinstance(v, ListCell):
            self.touch(v)
            if isinstance(key, slice):
                raise Unsupported("slice assignment")
            if v.items is not None and isinstance(key, int):
                try:
                    v.items[key] = value
                except IndexError:
                    raise Raised(IndexError, ()) from None
                return
            view = eng.view(v)
            t = self.index(view, key)
            self.list_store(v, t, value)
            return
        if isinstance(v, DictCell):
            self.dict_set(v, key, value)
            return
        if isinstance(v, Inst) and self.class_attr(v.cls, "__setitem__") is not MISSING:
            self.call(self.getattr(v, "__setitem__"), (key, value))
            return
        raise Unsupported(f"item of {v!r} set")

    # lists
    def fit(self, cell, value):
        """Makes the kind of the elements of a list wide enough."""
        eng = self.eng
        kind = eng.elem_kind(cell)
        try:
            new = join_kinds(kind, eng.kind_of(value))
        except Unsupported:
            raise
        if new != kind and cell.items is None:
            self.learn(cell, new)
        return new

    def list_store(self, cell, t, value):
        eng = self.eng
        kind = self.fit(cell, value)
        view = eng.view(cell)
        terms = eng.pack(kind, value)
        arrays = eng.arrays_of(view, kind)
        arrays = [z3.Store(a, t, x) for a, x in zip(arrays, terms)]
        cell.view, cell.items = eng.array_view(view.n, arrays, kind), None

    def list_append(self, cell, value):
        self.touch(cell)
        eng = self.eng
        if cell.items is not None:
            cell.items.append(value)
            return
        kind = self.fit(cell, value)
        view = cell.view
        terms = eng.pack(kind, value)
        arrays = [z3.Store(a, view.n, x) for a, x in zip(eng.arrays_of(view, kind), terms)]
        cell.view = eng.array_view(view.n + 1, arrays, kind)

    # sets
    def set_dom(self, cell, dom, kind):
        if cell.link:
            cell.link[1](dom)
        else:
            cell.dom_, cell.kind, cell.items = dom, kind, None

    def set_symbolic(self, cell, kind=None):
        """Turns a set into its characteristic array, over `kind` if it has no other elements yet."""
        eng = self.eng
        if cell.items is None:
            return cell.kind
        k = eng.set_kind(cell)
        k = join_kinds(k, kind) if kind is not None else k
        if k == EMPTY:
            k = VAL
        if isinstance(k, (TupK, ConstK, OptK, SetK)):
            k = VAL
        dom = eng.set_array(cell, k)
        self.set_dom(cell, dom, k)
        return k

    def set_add(self, cell, value, present=True):
        eng = self.eng
        if not cell.link:
            self.touch(cell)
        value = self.force(value)
        if cell.items is not None and not contains_sym(value):
            if present and value not in cell.items:
                cell.items.append(value)
            elif not present and value in cell.items:
                cell.items.remove(value)
            return
        kind = eng.kind_of(value)
        if isinstance(kind, (TupK, ConstK, OptK, SetK)):
            kind = VAL
        if cell.items is not None:
            k = self.set_symbolic(cell, kind)
        else:
            k = cell.kind
            new = join_kinds(k, kind)
            if new != k:
                if present:
                    self.learn(cell, new)
                    dom = eng.set_array(cell, new)
                    self.set_dom(cell, dom, new)
                    k = new
                elif new == VAL and k in (STR, INT):
                    if isinstance(value, SVal):
                        raise Unsupported("removal from a set")
                    return
        dom = z3.Store(cell.dom, eng.key(k, value), z3.BoolVal(present))
        self.set_dom(cell, dom, k)

    # dictionaries
    def dict_kinds(self, cell):
        eng = self.eng
        if cell.items is None:
            return cell.state.kk, cell.state.vk
        kk, vk = EMPTY, EMPTY
        for k, v in cell.items:
            kk, vk = join_kinds(kk, eng.kind_of(k)), join_kinds(vk, eng.kind_of(v))
        return kk, vk

    def fresh_dict(self, kk, vk, base="dict"):
        eng = self.eng
        if kk == EMPTY:
            kk = VAL
        ks = kk.sorts[0]
        n = eng.new(f"{base}.n", Int)
        keyat = [eng.new(f"{base}.key", z3.ArraySort(Int, s)) for s in kk.sorts]
        pos = eng.new(f"{base}.pos", z3.ArraySort(ks, Int))
        dom = eng.new(f"{base}.dom", z3.ArraySort(ks, Bool))
        cols = [eng.new(f"{base}.val", z3.ArraySort(ks, s)) for s in vk.sorts]
        if vk == EMPTY:
            # No value was ever put into it
            eng.assume(n == 0)
            dom = z3.K(ks, z3.BoolVal(False))
        st = DictState(kk, vk, n, keyat, pos, dom, cols)
        self.assume_dict(st)
        return st

    def key_at(self, st, i):
        return self.eng.key(st.kk, self.eng.unpack(st.kk, [z3.Select(a, i) for a in st.keyat]))

    def assume_dict(self, st):
        eng = self.eng
        i, x = z3.Int("i!dict"), z3.Const("x!dict", st.kk.sorts[0])
        k = self.key_at(st, i)
        eng.assume(st.n >= 0)
        eng.assume(z3.ForAll([i], z3.Implies(ranged(i, st.n), z3.And(z3.Select(st.dom, k), z3.Select(st.pos, k) == i)),
                             patterns=[z3.Select(st.keyat[0], i)]))
        p = z3.Select(st.pos, x)
        eng.assume(z3.ForAll([x], z3.Implies(z3.Select(st.dom, x), z3.And(ranged(p, st.n), self.key_at(st, p) == x)),
                             patterns=[z3.Select(st.dom, x)]))

    def symbolic_dict(self, cell, kk=EMPTY, vk=EMPTY):
        eng = self.eng
        if cell.items is None:
            return cell.state
        k0, v0 = self.dict_kinds(cell)
        kk, vk = join_kinds(k0, kk), join_kinds(v0, vk)
        if kk == EMPTY:
            kk = VAL
        if isinstance(kk, (TupK, ConstK, OptK)):
            kk = VAL
        ks = kk.sorts[0]
        n = z3.IntVal(0)
        keyat = [z3.K(Int, core.default_of(s)) for s in kk.sorts]
        pos = z3.K(ks, z3.IntVal(-1))
        dom = z3.K(ks, z3.BoolVal(False))
        cols = [z3.K(ks, core.default_of(s)) for s in vk.sorts]
        st = DictState(kk, vk, n, keyat, pos, dom, cols)
        for k, v in cell.items:
            st = self.dict_store(st, k, v)
        cell.state, cell.items = st, None
        return st

    def dict_store(self, st, key, value):
        eng = self.eng
        k = eng.key(st.kk, key)
        new = z3.Not(z3.Select(st.dom, k))
        keyat = [z3.If(new, z3.Store(a, st.n, x), a) for a, x in zip(st.keyat, eng.pack(st.kk, key))]
        pos = z3.If(new, z3.Store(st.pos, k, st.n), st.pos)
        cols = [z3.Store(c, k, x) for c, x in zip(st.cols, eng.pack(st.vk, value))]
        return DictState(st.kk, st.vk, z3.If(new, st.n + 1, st.n), keyat, pos, z3.Store(st.dom, k, z3.BoolVal(True)),
                         cols)

    def dict_set(self, cell, key, value):
        eng = self.eng
        self.touch(cell)
        if cell.items == [] and not isinstance(value, DictCell):
            kk = eng.kind_of(key)
            self.learn(cell, (VAL if isinstance(kk, (TupK, ConstK, OptK)) else kk, eng.kind_of(value)))
        if cell.items is not None and not contains_sym(key) and not any(contains_sym(k) for k, _ in cell.items):
            for item in cell.items:
                if item[0] == key:
                    item[1] = value
                    return
            cell.items.append([key, value])
            return
        if cell.items is not None:
            for item in cell.items:
                same = self.equal(item[0], key)
                if same is True or (not isinstance(same, bool) and z3.is_true(z3.simplify(same))):
                    item[1] = value
                    return
            if not cell.items:
                cell.items.append([key, value])
                return
        kk, vk = eng.kind_of(key), eng.kind_of(value) if not isinstance(value, DictCell) else None
        if vk is None:
            raise Unsupported("dictionary of dictionaries")
        if isinstance(kk, (TupK, ConstK, OptK)):
            kk = VAL
        st = self.symbolic_dict(cell, kk, vk)
        k2, v2 = join_kinds(st.kk, kk), join_kinds(st.vk, vk)
        if (k2, v2) != (st.kk, st.vk):
            self.learn(cell, (k2, v2))
            if k2.sorts != st.kk.sorts or v2.sorts != st.vk.sorts:
                st = self.dict_convert(st, k2, v2)
            else:
                st.kk, st.vk = k2, v2
        cell.state = self.dict_store(st, key, value)

    def dict_convert(self, st, kk, vk):
        eng = self.eng
        if kk.sorts == st.kk.sorts:
            x = z3.Const(eng.name("kx"), kk.sorts[0])
            value = eng.unpack(st.vk, [z3.Select(c, x) for c in st.cols])
            cols = [z3.Lambda([x], t) for t in eng.pack(vk, value)]
            return DictState(kk, vk, st.n, st.keyat, st.pos, st.dom, cols)
        if st.kk == STR and kk == VAL:
            x, i = z3.Const(eng.name("kx"), Val), z3.Int(eng.name("ix"))
            s = Val.s(x)
            value = eng.unpack(st.vk, [z3.Select(c, s) for c in st.cols])
            return DictState(kk, vk, st.n, [z3.Lambda([i], VStr(z3.Select(st.keyat[0], i)))],
                             z3.Lambda([x], z3.Select(st.pos, s)),
                             z3.Lambda([x], z3.And(core.is_str(x), z3.Select(st.dom, s))),
                             [z3.Lambda([x], t) for t in eng.pack(vk, value)])
        raise Unsupported("kinds of keys")

    def dict_value(self, cell, st, k, key):
        """The value of a key term. Sets within dictionaries stay linked to them."""
        eng = self.eng
        if isinstance(st.vk, SetK):
            def get():
                return z3.Select(cell.state.cols[0], k)

            def put(dom):
                self.touch(cell)
                s = cell.state
                cell.state = DictState(s.kk, s.vk, s.n, s.keyat, s.pos, s.dom, [z3.Store(s.cols[0], k, dom)])

            c = eng.set_cell(kind=st.vk.kind, link=(get, put))
            c.owner = cell
            return c
        return eng.unpack(st.vk, [z3.Select(c, k) for c in st.cols])

    def dict_get(self, cell, key, default=MISSING):
        eng = self.eng
        if cell.items is not None:
            for k, v in cell.items:
                same = self.equal(k, key)
                if eng.branch(as_term(same)) if not isinstance(same, bool) else same:
                    return v
            return self.dict_missing(cell, key, default)
        st = cell.state
        present = self.with_key(st.kk, key, lambda k: z3.Select(st.dom, k))
        if eng.branch(as_term(present)):
            return self.dict_value(cell, st, eng.key(st.kk, key), key)
        return self.dict_missing(cell, key, default)

    def dict_missing(self, cell, key, default):
        if default is not MISSING:
            return default
        if cell.default is None:
            raise Raised(KeyError, (key,))
        value = self.call(cell.default)
        if isinstance(value, SetCell) and value.items == [] :
            kinds = getattr(cell, "inner", None)
            self.dict_set_new_set(cell, key)
            return self.dict_get(cell, key)
        self.dict_set(cell, key, value)
        return self.dict_get(cell, key)

    def dict_set_new_set(self, cell, key):
        """defaultdict(set): an empty set of whatever kind."""
        eng = self.eng
        self.touch(cell)
        if cell.items is not None and not contains_sym(key):
            cell.items.append([key, eng.set_cell([])])
            return
        kk = eng.kind_of(key)
        if isinstance(kk, (TupK, ConstK, OptK)):
            kk = VAL
        if cell.items is not None and not cell.items:
            self.learn(cell, (kk, SetK(getattr(cell, "inner", VAL))))
            st = self.symbolic_dict(cell, kk, SetK(getattr(cell, "inner", VAL)))
        else:
            st = self.symbolic_dict(cell, kk, EMPTY)
        k2 = join_kinds(st.kk, kk)
        if k2 != st.kk:
            self.learn(cell, (k2, st.vk))
        inner = st.vk.kind
        empty = eng.set_cell(kind=inner, dom=z3.K(inner.sorts[0], z3.BoolVal(False)))
        cell.state = self.dict_store(st, key, empty)

    # ---------------------------------------------------------------------------------------- methods of values
    def call_method(self, v, name, args, kwargs):
        v = self.force(v)
        if isinstance(v, (SStr, str)):
            kind = "str"
        elif isinstance(v, (ListCell, list)):
            kind = "list"
        elif isinstance(v, (SeqView, tuple)):
            kind = "tuple"
        elif isinstance(v, (SetCell, set, frozenset)):
            kind = "set"
        elif isinstance(v, (DictCell, dict, types.MappingProxyType)):
            kind = "dict"
        elif isinstance(v, DictView):
            kind = "dictview"
        elif isinstance(v, (SInt, SBool)):
            kind = "int"
        else:
            kind = type(v).__name__
        args = tuple(self.force(a) for a in args)
        if not contains_sym(v) and not contains_sym(args) and not contains_sym(kwargs):
            return self.real_call(getattr(v, name), args, kwargs)
        model = REG.methods.get((kind, name))
        if model is None:
            raise Unsupported(f"{kind}.{name}")
        return model(self, v, args, kwargs)


class Impure(Unsupported):
    """Something is changed within an expression."""


class StarArgs:
    def __init__(self, view):
        self.view = view


class LoopLevel:
    def __init__(self, start, mods, key):
        self.start, self.mods, self.key = start, mods, key


class _Outer(dict):
    """The names of an enclosing interpreted function."""

    def __init__(self, frame):
        super().__init__()
        self.frame = frame

    def __contains__(self, name):
        f = self.frame
        return name in f.locals or name in f.closure

    def __getitem__(self, name):
        return self.frame.lookup(name)


def f_eqc_(eng, v):
    return core.f_eqc(eng.to_val(v))


def as_term(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def conj(xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    return z3.And(*xs) if xs else True


def disj(xs):
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    return z3.Or(*xs) if xs else False


def type_of_receiver(v):
    if isinstance(v, (Inst, SVal)):
        return v.cls
    return v if isinstance(v, type) else type(v)


def flat(t):
    """What a text is made of."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in t.children() for p in flat(c)]
    return [t]


def glue(parts):
    if not parts:
        return z3.StringVal("")
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def string_value(t):
    """Python string of a z3 literal."""
    text = t.as_string()
    out, i = [], 0
    while i < len(text):
        if text.startswith("\\u{", i):
            j = text.index("}", i)
            out.append(chr(int(text[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


def walk_own(fn):
    """Nodes of a function without those of the functions within it."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        stack += list(ast.iter_child_nodes(n))


def is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn))


def loop_shape(loop, function):
    """The kind of a loop and the names, known before it, that it changes."""
    args = function.args
    before = {a.arg for a in [*args.posonlyargs, *args.args, *args.kwonlyargs, args.vararg, args.kwarg] if a is not None}
    for n in walk_own(function):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.lineno < loop.lineno:
            before.add(n.id)
    changed = assigned_names(loop)
    if isinstance(loop, ast.For):
        changed -= assigned_names(loop.target)
    for n in ast.walk(loop):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
            n = n.value.func.value
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            n = n.value
        else:
            continue
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        if isinstance(n, ast.Name):
            changed.add(n.id)
    return [type(loop).__name__, *sorted(changed & before)]


def assigned_names(node):
    out = set()
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        stack += list(ast.iter_child_nodes(n))
    return out
