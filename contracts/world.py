"""What the contracts say about nodes of the tree they know nothing else about."""
import importlib

from pyvc import core
from pyvc.core import (
    BOOL, INT, STR, VAL, Bool, DictCell, Inst, Int, ListK, NodeK, Opt, OptK, SBool, SeqView, SetK, SInt, SStr, Str, SVal,
    TupK, Val, ranged, z3,
)
from pyvc.interp import MISSING, REG, as_term

S = z3.StringVal


def module(name):
    return importlib.import_module("lazy_type_hint." + name)


def cls(path):
    m, c = path.rsplit(".", 1)
    return getattr(module(m), c)


def tree_class():
    return cls("data_type_tree.data_type_tree.DataTypeTree")


GENERIC = "data_type_tree.generic_type."
KINDS = {
    "list": GENERIC + "list_data_type_tree.ListDataTypeTree",
    "tuple": GENERIC + "tuple_data_type_tree.TupleDataTypeTree",
    "set": GENERIC + "set_data_type_tree.SetDataTypeTree",
    "iterator": GENERIC + "iterator_data_type_tree.IteratorDataTypeTree",
    "dict": GENERIC + "dict_data_type_tree.DictDataTypeTree",
    "proxy": GENERIC + "mapping_proxy_data_type_tree.MappingProxyDataTypeTree",
    "mapping": GENERIC + "mapping_data_type_tree.MappingDataTypeTree",
    "series": GENERIC + "pandas_series_data_type_tree.PandasSeriesDataTypeTree",
    "frame": GENERIC + "pandas_data_frame_data_type_tree.PandasDataFrameDataTypeTree",
}


def node_class(kind):
    return cls(KINDS[kind])


f_height = z3.Function("height", Val, Int)
f_perm = z3.Function("gets_definition", Val, Bool)
f_top = z3.Function("top_node_text", Val, Str)
f_inline = z3.Function("inline_text", Val, Str)
f_needs = z3.Function("imports_of_inline", Val, z3.ArraySort(Str, Bool))
f_holding = z3.Function("holding_type", Val, Val)
f_parent = z3.Function("parent_of", Val, Val)
f_nodehash = z3.Function("hash_value_of", Val, Val)  # what _get_hash returns
f_dname = z3.Function("name_attribute", Val, Str)
f_nchildren = z3.Function("n_children", Val, Int)
f_child = z3.Function("child_at", Val, Int, Val)


class World:
    """One strategies object and one import manager for the whole tree."""

    def __init__(self, V):
        self.V, self.eng, self.i = V, V.eng, V.i
        m = module("strategies")
        self.strategies = V.obj(
            m.ParsingStrategies, list_strategy=V.str("list_strategy"), tuple_size_strategy=V.str("tuple_strategy"),
            dict_strategy=V.str("dict_strategy"), pandas_strategies=V.str("pandas_strategy"),
            min_height_to_define_type_alias=V.int("min_height"), key_used_as_doc=V.str("key_used_as_doc"),
            merge_different_typed_dicts_if_similarity_above=V.int("similarity"),
            typed_dict_read_only_values=V.bool("read_only"),
            check_max_n_elements_within_container=V.fresh(OptK(INT), "n_max"))
        st = self.strategies.attrs
        one_of = lambda name, *values: V.assume(z3.Or(*(st[name].t == S(v) for v in values)))
        one_of("list_strategy", "Sequence", "list")
        one_of("tuple_size_strategy", "fixed", "any size")
        one_of("dict_strategy", "TypedDict", "Mapping", "dict")
        one_of("pandas_strategies", "Full type hint", "Type hint only for autocomplete", "Do not type hint columns")
        V.assume(st["min_height_to_define_type_alias"].t >= 0)
        V.assume(st["merge_different_typed_dicts_if_similarity_above"].t > 0)
        V.assume(st["merge_different_typed_dicts_if_similarity_above"].t <= 100)
        n_max = st["check_max_n_elements_within_container"]
        V.assume(z3.Or(n_max.none, n_max.value.t > 0))
        self.imported = V.set(STR, "imported")
        self.imports0 = self.imported.dom
        im = module("utils.import_manager").ImportManager
        self.imports = V.obj(im, _set=self.imported, TEMPLATE="from {package} import {name}", PACKAGE=im().PACKAGE)
        self.names0 = z3.Const("heap.name", z3.ArraySort(Val, Str))
        self.eng.heap.setdefault("name", self.names0)
        T = "DataTypeTree"
        F = REG.fields
        F[T, "height"] = lambda i, v: SInt(f_height(v.t))
        F[T, "name"] = lambda i, v: SStr(z3.Select(i.eng.heap["name"], v.t))
        F[T, "strategies"] = lambda i, v: self.strategies
        F[T, "imports"] = lambda i, v: self.imports
        F[T, "holding_type"] = lambda i, v: SVal(f_holding(v.t), type)
        F[T, "permission_to_be_created_as_type_alias"] = lambda i, v: SBool(f_perm(v.t))
        F["object", "__name__"] = lambda i, v: SStr(f_dname(v.t))
        F[T, "__bool__"] = lambda i, v: f_nchildren(v.t) > 0
        REG.setters[T, "name"] = set_name
        REG.iters[T] = children_of
        REG.summaries[T, "get_str_top_node_without_lvalue"] = self.inline

    def inline(self, i, args, kw):
        """The text of a node without its name. Whatever it needs is imported by then."""
        node = args[0]
        t = i.eng.to_val(node)
        x = z3.Const(i.eng.name("imp"), Str)
        i.touch(self.imported)
        dom = self.imported.dom
        i.set_dom(self.imported, z3.Lambda([x], z3.Or(z3.Select(dom, x), z3.Select(f_needs(t), x))), STR)
        return SStr(f_inline(t))

    def node(self, name="node", c=None):
        return self.V.any(name, c or tree_class())

    def self_of(self, c, children=MISSING, **attrs):
        """A node of a real class."""
        V = self.V
        if isinstance(c, str):
            c = node_class(c)
        base = dict(name=V.str("self.name"), depth=V.int("depth"), height=V.int("self.height"),
                    strategies=self.strategies, imports=self.imports, parent=None, data=V.any("data"),
                    holding_type=SVal(self.eng.new("holding", Val), type))
        if children is not MISSING:
            base["children"] = children
        base.update(attrs)
        return V.obj(c, **base)

    def nodes(self, name="children"):
        return self.V.tuple(NodeK(tree_class()), name)

    def has(self, keyword):
        return z3.Select(self.imported.dom, S(keyword))

    def imports_kept(self, *more):
        """Nothing is imported but what was, and `more`."""
        x = z3.Const("x!kept", Str)
        return z3.ForAll([x], z3.Implies(z3.Select(self.imported.dom, x), z3.Or(
            z3.Select(self.imports0, x), *(x == S(m) for m in more))))

    def imports_grow(self):
        x = z3.Const("x!grow", Str)
        return z3.ForAll([x], z3.Implies(z3.Select(self.imports0, x), z3.Select(self.imported.dom, x)))


def set_name(i, v, value):
    i.touch_heap("name")
    i.eng.heap["name"] = z3.Store(i.eng.heap["name"], v.t, i.eng.str_term(value))


def children_of(i, v):
    if isinstance(v, Inst):
        c = v.attrs["children"]
        c = i.force(c)
        if c is None:
            return ()
        if isinstance(c, DictCell):
            from pyvc.interp import DictView
            return DictView(c, "values")
        return c
    n = f_nchildren(v.t)
    i.eng.assume(n >= 0)
    return SeqView(n, lambda j: SVal(f_child(v.t, j), tree_class()), "list", NodeK(tree_class()))


def node_at(seq, j):
    return seq.get(j).t


def FA(names, body, *patterns):
    """For all, instantiated wherever one of the patterns (or pairs of patterns) occurs."""
    ps = []
    for q in patterns:
        q = q if isinstance(q, tuple) else (q,)
        if all(map(usable, q)):
            ps.append(z3.MultiPattern(*q) if len(q) > 1 else q[0])
    return z3.ForAll(names, body, patterns=ps) if ps else z3.ForAll(names, body)


NOT_IN_PATTERNS = {z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE,
                   z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}


def usable(t):
    stack, seen = [t], set()
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u) or z3.is_app(u) and u.decl().kind() in NOT_IN_PATTERNS:
            return False
        stack += u.children()
    return True
