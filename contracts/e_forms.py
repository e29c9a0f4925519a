"""C06, C16: what each kind of node looks like."""
from contracts.world import (
    FA, GENERIC, S, World, cls, f_dname, f_holding, f_inline, f_needs, f_perm, module, node_at, node_class, tree_class,
)
from contracts.d_trees import find, function_class, simple_class
from pyvc import core
from pyvc.core import (
    INT, STR, VAL, Inst, Int, NodeK, OptK, Raised, SBool, SInt, SStr, Str, SVal, Val, f_tname, ranged, z3,
)
from pyvc.interp import REG, LoopSpec
from pyvc.models import f_builtin_class
from pyvc.verify import contract

SIMPLE = "data_type_tree.simple_data_type_tree."


def alternatives(W, V, c, needs=()):
    """The alternatives, as their own contracts leave them."""
    text = V.str("alternatives")

    def get(i, args, kw):
        for n in needs:
            i.call(W.imports.cls.__dict__["add"], (W.imports, n), {})
        return text

    for k in c.__mro__:
        REG.summaries[k.__name__, "get_type_alias_children"] = get
    return text


def form_contract(kind, form, needed, covers=("reached",), which=None):
    """`form(W, V, self, text)`: the text expected; `needed`: what has to be imported for it."""
    @contract("C06 C03 C01" if kind != "series" else "C06 C01", f"form of a {kind}", covers=covers, obligations=(
        "raises nothing", "form", "imports what it uses", "nothing else"))
    def _(V):
        W = World(V)
        c = node_class(kind)
        self = W.self_of(c, W.nodes())
        text = alternatives(W, V, c)
        if kind == "set":
            V.assume(z3.Or(*(self.attrs["holding_type"].t == V.eng.const(t) for t in (set, frozenset))))
        r = V.run(find(c, "_get_str_top_node"), self)
        V.no_exception(r)
        cases = form(W, V, self)
        head = z3.Concat(self.attrs["name"].t, S(": TypeAlias = "))
        V.prove("form", V.eng.str_term(r) == z3.Concat(head, cases[0], S("["), text.t, S("]")))
        V.prove("imports what it uses", z3.And(*(z3.Implies(c, W.has(n)) for n, c in cases[1].items())))
        V.prove("nothing else", z3.And(W.imports_grow(), W.imports_kept(*cases[1])))
        for name, cond in cases[2].items():
            if V.branch(cond):
                V.cover(name)
                break

    return _


T = z3.BoolVal(True)


def list_form(W, V, self):
    as_list = W.strategies.attrs["list_strategy"].t == S("list")
    return z3.If(as_list, S("List"), S("Sequence")), {
        "list": as_list, "Sequence": z3.Not(as_list), "TypeAlias": T}, {"list": as_list, "Sequence": T}


form_contract("list", list_form, (), ("list", "Sequence"))


def set_form(W, V, self):
    frozen = self.attrs["holding_type"].t == V.eng.const(frozenset)
    return z3.If(frozen, S("FrozenSet"), S("Set")), {"FrozenSet": frozen, "set": z3.Not(frozen), "TypeAlias": T}, {
        "frozenset": frozen, "set": T}


form_contract("set", set_form, (), ("set", "frozenset"))
form_contract("tuple", lambda W, V, self: (S("Tuple"), {"tuple": T, "TypeAlias": T}, {"reached": T}), ())
form_contract("iterator", lambda W, V, self: (S("Iterator"), {"Iterator": T, "TypeAlias": T}, {"reached": T}), ())
form_contract("series", lambda W, V, self: (S("pd.Series"), {
    "pandas": T, "annotations": T, "TypeAlias": T}, {"reached": T}), ())


def mapping_form_contract(kind):
    """Dict, Mapping or MappingProxyType with the alternatives of keys and values."""
    @contract("C06 C01 C03", f"form of a {kind} that is no TypedDict", covers=("Dict", "Mapping") if kind == "dict" else (
        "reached",), obligations=("raises nothing", "form", "imports what it uses", "nothing else"))
    def _(V):
        W = World(V)
        c = node_class(kind)
        children = V.dict(VAL, NodeK(tree_class()), "children")
        holding = SVal(V.eng.const(dict if kind == "dict" else type(type.__dict__)), type)
        self = W.self_of(c, children, holding_type=holding)
        if kind == "dict":
            self.attrs["dict_metadata"] = V.obj(cls(GENERIC + "dict_data_type_tree.DictMetadata"))
            REG.summaries["DictMetadata", "is_typed_dict"] = lambda i, args, kw: False
        values = alternatives(W, V, c)
        keys = V.str("keys")
        asked = []

        def types(i, args, kw):
            it = kw.get("iterable", args[1] if len(args) > 1 else ())
            asked.append((it, kw.get("remove_repeated", True)))
            return V.tuple(STR, "key_types")

        def fmt(i, args, kw):
            asked.append(args[1])
            return keys

        for k in c.__mro__:
            REG.summaries[k.__name__, "_get_types"] = types
            REG.summaries[k.__name__, "_format_types"] = fmt
        r = V.run(find(c, "_get_str_top_node"), self)
        V.no_exception(r)
        s = W.strategies.attrs["dict_strategy"].t
        mapping = z3.And(z3.BoolVal(kind == "dict"), s == S("Mapping"))
        head = S("MappingProxyType") if kind == "proxy" else z3.If(mapping, S("Mapping"), S("Dict"))
        V.prove("form", V.eng.str_term(r) == z3.Concat(self.attrs["name"].t, S(": TypeAlias = "), head, S("["), keys.t, S(
            ", "), values.t, S("]")))
        used = {"TypeAlias": T}
        if kind == "proxy":
            used["MappingProxyType"] = T
        else:
            used.update(dict=z3.Not(mapping), Mapping=mapping)
        V.prove("imports what it uses", z3.And(*(z3.Implies(q, W.has(n)) for n, q in used.items())))
        V.prove("nothing else", z3.And(W.imports_grow(), W.imports_kept(*used)))
        it, distinct = asked[0]
        same = getattr(it, "cell", it) is children
        V.prove("keys: the alternatives of all keys, each once", z3.BoolVal(same and distinct is True))
        V.cover("reached" if kind == "proxy" else "Mapping" if V.branch(mapping) else "Dict")

    return _


mapping_form_contract("dict")
mapping_form_contract("proxy")


def simple(path):
    return cls(SIMPLE + path)


def leaf(V, path, data=None, holding=None, parent="any"):
    W = World(V)
    par = V.fresh(OptK(NodeK(tree_class())), "parent")
    attrs = dict(parent=par)
    if data is not None:
        attrs["data"] = data
    if holding is not None:
        attrs["holding_type"] = holding
    return W, W.self_of(simple(path), None, **attrs), par


@contract("C16 C03 C02", "form of an instance", covers=("None", "built-in root", "built-in nested", "custom root", "custom nested"),
          obligations=("raises nothing", "form", "imports what it uses", "nothing else"))
def _(V):
    W, self, parent = leaf(V, "instance_data_type_tree.InstanceDataTypeTree")
    holding = self.attrs["holding_type"].t
    r = V.run(find(self.cls, "_get_str_top_node"), self)
    V.no_exception(r)
    none = holding == V.eng.const(type(None))
    name = V.eng.str_term(V.i.getattr(self.attrs["holding_type"], "__name__"))
    builtin = f_builtin_class(name)
    root = parent.none
    text = z3.If(none, S("Optional[object]"), z3.If(builtin, name, z3.Concat(S('"'), name, S('"'))))
    sep = z3.If(z3.Or(none, root), S(": TypeAlias = "), S(" = "))
    V.prove("form", V.eng.str_term(r) == z3.Concat(self.attrs["name"].t, sep, text))
    V.prove("imports what it uses", z3.And(z3.Implies(z3.Or(none, root), W.has("TypeAlias")), z3.Implies(none, W.has(
        "Optional"))))
    V.prove("nothing else", z3.And(W.imports_grow(), W.imports_kept("TypeAlias", "Optional")))
    if V.branch(none):
        V.cover("None")
    else:
        V.cover(("built-in " if V.branch(builtin) else "custom ") + ("root" if V.branch(root) else "nested"))


@contract("C16 C03", "form of a class", covers=("built-in", "custom"), obligations=(
    "raises nothing", "form", "imports what it uses", "nothing else"))
def _(V):
    W, self, parent = leaf(V, "type_data_type_tree.TypeDataTypeTree", data=V.any("data", type))
    r = V.run(find(self.cls, "_get_str_top_node"), self)
    V.no_exception(r)
    name = V.eng.str_term(V.i.getattr(self.attrs["data"], "__name__"))
    builtin = f_builtin_class(name)
    V.prove("form", V.eng.str_term(r) == z3.Concat(self.attrs["name"].t, S(": TypeAlias = Type["), z3.If(
        builtin, name, z3.Concat(S('"'), name, S('"'))), S("]")))
    V.prove("imports what it uses", z3.And(W.has("type"), W.has("TypeAlias")))
    V.prove("nothing else", z3.And(W.imports_grow(), W.imports_kept("TypeAlias", "type")))
    V.cover("built-in" if V.branch(builtin) else "custom")


def fixed_leaf(path, what, text, *needs):
    @contract("C16 C03", f"form of {what}", obligations=("raises nothing", "form", "imports exactly what it uses"))
    def _(V):
        W, self, parent = leaf(V, path)
        r = V.run(find(self.cls, "_get_str_top_node"), self)
        V.no_exception(r)
        V.prove("form", V.eng.str_term(r) == z3.Concat(self.attrs["name"].t, S(": TypeAlias = " + text)))
        V.prove("imports exactly what it uses", z3.And(*(W.has(n) for n in needs), W.imports_grow(), W.imports_kept(
            *needs)))
        V.cover()


fixed_leaf("io_data_type_tree.IoDataTypeTree", "a text stream", "TextIO", "TextIO", "TypeAlias")
fixed_leaf("module_data_type_tree.ModuleTypeDataTypeTree", "a module", "ModuleType", "ModuleType", "TypeAlias")
