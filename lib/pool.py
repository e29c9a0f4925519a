"""Leaf values used by the bounded hunts, with the abstract type each of them must get.

The callables live in this file so that `inspect.getsource` finds them.
"""
import collections
import functools
import io
import os
import types
from typing import Any, List, Optional

import numpy as np


class Foo:
    def method(self, a: int, b: str = "x") -> bool:
        return True

    @classmethod
    def cmethod(cls, a: int) -> "Foo":
        return cls()

    @staticmethod
    def smethod(a: int, *args: int, **kwargs: str) -> None:
        ...


class Bar(Foo):
    pass


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyDict(dict):
    pass


Point = collections.namedtuple("Point", ["x", "y"])


def f_full(a: int, b: str = "x") -> bool:
    return True


def f_noret(x, *, y=1):
    x.append(y)


def f_ret(x, /, y: int = 2, *args: int, **kw: str):
    return x


def f_typing(a: List[int], b: Optional[int] = None) -> Any:
    return a


def f_default(a=object(), b=Foo) -> int:
    return 1


def f_empty_ret(a: int) -> None:
    return None


def f_full2(a: int, b: str = "y") -> bool:
    return True


def _gen():
    yield 1


lam0 = lambda: 0  # noqa: E731
lam1 = lambda x: x  # noqa: E731
lam2 = lambda x, y: x  # noqa: E731
lam3 = lambda x, *a, k=1: x  # noqa: E731
lam2d = lambda x, y=1: x  # noqa: E731
lam1d = lambda y=1: y  # noqa: E731
lam0k = lambda **k: k  # noqa: E731

# Classes named as built-ins that are no classes
Input = type("input", (), {})
Sum = type("sum", (), {})
Ellipsis_ = type("Ellipsis", (), {})

# id -> (factory, abstract type)
LEAVES = {
    "int": (lambda: 1, ("name", "int")),
    "int0": (lambda: 0, ("name", "int")),
    "bigint": (lambda: 10**30, ("name", "int")),
    "float": (lambda: 1.5, ("name", "float")),
    "nan": (lambda: float("nan"), ("name", "float")),
    "str": (lambda: "a", ("name", "str")),
    "empty_str": (lambda: "", ("name", "str")),
    "weird_str": (lambda: "'\"\\\n{}#", ("name", "str")),
    "bool": (lambda: True, ("name", "bool")),
    "false": (lambda: False, ("name", "bool")),
    "none": (lambda: None, ("opt_object",)),
    "bytes": (lambda: b"x", ("name", "bytes")),
    "bytearray": (lambda: bytearray(b"x"), ("name", "bytearray")),
    "complex": (lambda: 1j, ("name", "complex")),
    "range": (lambda: range(3), ("name", "range")),
    "slice": (lambda: slice(1), ("name", "slice")),
    "object": (lambda: object(), ("name", "object")),
    "exception": (lambda: ValueError("x"), ("name", "ValueError")),
    "foo": (lambda: Foo(), ("name", '"Foo"')),
    "bar": (lambda: Bar(), ("name", '"Bar"')),
    "myint": (lambda: MyInt(3), ("name", '"MyInt"')),
    "mystr": (lambda: MyStr("x"), ("name", '"MyStr"')),
    "input": (lambda: Input(), ("name", '"input"')),
    "sum": (lambda: Sum(), ("name", '"sum"')),
    "ellipsis": (lambda: Ellipsis_(), ("name", '"Ellipsis"')),
    "type_sum": (lambda: Sum, ("Type", '"sum"')),
    "deque": (lambda: collections.deque([1]), ("name", '"deque"')),
    "partial": (lambda: functools.partial(f_full, 1), ("name", '"partial"')),
    "namespace": (lambda: types.SimpleNamespace(a=1), ("name", '"SimpleNamespace"')),
    "npint": (lambda: np.int64(3), ("name", '"int64"')),
    "type_int": (lambda: int, ("Type", "int")),
    "type_str": (lambda: str, ("Type", "str")),
    "type_foo": (lambda: Foo, ("Type", '"Foo"')),
    "type_list": (lambda: list, ("Type", "list")),
    "type_meta": (lambda: type, ("Type", "type")),
    "arr_i": (lambda: np.array([1, 2]), ("NDArray", "int64")),
    "arr_f": (lambda: np.array([1.5]), ("NDArray", "float64")),
    "arr_f32": (lambda: np.zeros((2, 2), dtype=np.float32), ("NDArray", "float32")),
    "arr_b": (lambda: np.array([True]), ("NDArray", "bool")),
    "arr_o": (lambda: np.array([None, 1], dtype=object), ("NDArray", "object")),
    "arr_empty": (lambda: np.array([]), ("NDArray", "float64")),
    "module": (lambda: os, ("name", "ModuleType")),
    "module2": (lambda: collections, ("name", "ModuleType")),
    "stringio": (lambda: io.StringIO("x"), ("name", "TextIO")),
    "f_full": (lambda: f_full, ("proto", "(a: int, b: str = 'x') -> bool")),
    "f_full2": (lambda: f_full2, ("proto", "(a: int, b: str = 'y') -> bool")),
    "f_noret": (lambda: f_noret, ("proto", "(x, *, y = 1) -> None")),
    "f_ret": (lambda: f_ret, ("proto", "(x, /, y: int = 2, *args: int, **kw: str) -> Any")),
    "f_typing": (lambda: f_typing, ("proto", "(a: List[int], b: Optional[int] = None) -> Any")),
    "f_default": (lambda: f_default, ("proto", "(a = Ellipsis, b = Ellipsis) -> int")),
    "f_empty_ret": (lambda: f_empty_ret, ("proto", "(a: int) -> None")),
    "bound": (lambda: Foo().method, ("proto", "(a: int, b: str = 'x') -> bool")),
    "cbound": (lambda: Foo.cmethod, ("proto", "(a: int) -> 'Foo'")),
    "static": (lambda: Foo.smethod, ("proto", "(a: int, *args: int, **kwargs: str) -> None")),
    "staticobj": (lambda: Foo.__dict__["smethod"], ("proto", "(a: int, *args: int, **kwargs: str) -> None")),
    "classobj": (lambda: Foo.__dict__["cmethod"], ("callable",)),
    "lam0": (lambda: lam0, ("lambda", 0)),
    "lam1": (lambda: lam1, ("lambda", 1)),
    "lam2": (lambda: lam2, ("lambda", 2)),
    "lam3": (lambda: lam3, ("lambda", 3)),
    "lam2d": (lambda: lam2d, ("lambda", 2)),
    "lam1d": (lambda: lam1d, ("lambda", 1)),
    "lam0k": (lambda: lam0k, ("lambda", 1)),
    "len": (lambda: len, ("callable",)),
    "print": (lambda: print, ("callable",)),
    "iterless_meth": (lambda: [].append, ("callable",)),
}

SIMPLE = ["int", "float", "str", "bool", "none", "bytes", "foo", "type_int", "complex"]
HASHABLE = [k for k in LEAVES if k not in {"bytearray", "slice", "deque", "namespace"} and not k.startswith("arr")]
CALLABLES = [k for k, v in LEAVES.items() if v[1][0] in ("proto", "lambda", "callable")]
