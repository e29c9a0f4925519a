"""C01, C02, C06: alternatives of keys, and which alternatives a container asks for."""
from contracts.world import (
    FA, GENERIC, S, World, cls, f_inline, f_perm, module, node_at, node_class, tree_class,
)
from contracts.b_hints import alternative, generic
from contracts.d_trees import find
from contracts.f_hashes import children_dict, f_keytype, key_names
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, NodeK, SBool, SStr, Str, SVal, Val, f_tname, f_type, ranged, z3
from pyvc.interp import REG, LoopSpec
from pyvc.models import f_builtin_class
from pyvc.verify import contract


@contract("C01 C02 C04", "GenericDataTypeTree._get_type_name", covers=("None", "built-in", "custom"), obligations=(
        "raises nothing", "the name of the type, quoted unless it is a built-in"))
def _(V):
    W = World(V)
    x = V.any("element")
    r = V.run(find(node_class("dict"), "_get_type_name"), W.self_of("dict", W.nodes()), x)
    V.no_exception(r)
    none = core.is_none(x.t)
    name = V.eng.str_term(V.i.getattr(V.call(type, x), "__name__"))
    builtin = f_builtin_class(name)
    V.prove("the name of the type, quoted unless it is a built-in", V.eng.str_term(r) == z3.If(none, S("None"), z3.If(
        builtin, name, z3.Concat(S('"'), name, S('"')))))
    V.cover("None" if V.branch(none) else "built-in" if V.branch(builtin) else "custom")


@contract("C01 C02 C06 C19", "GenericDataTypeTree._get_types of keys", covers=("some", "empty"), obligations=(
        "raises nothing", "every key is covered", "every alternative stems from a key", "sorted and distinct",
        "Any exactly if empty", "imports nothing else"), prove_ms=20000)
def _(V):
    W = World(V)
    key_names()
    d, st, key, value = children_dict(V, "")
    self = W.self_of("dict", d)
    REG.loops["GenericDataTypeTree._get_types", 0] = LoopSpec(lambda L: [
        ("one entry per child so far", L.eng.view(L["child_types"]).n == L.i), ("nothing imported", W.imports_kept())])
    r = V.run(generic()._get_types, self, iterable=V.call(V.i.getattr(d, "keys")), remove_repeated=True)
    V.no_exception(r)
    r = V.eng.view(r)
    n, arr = r.n, V.eng.array_of(r, STR)
    j, k = z3.Int("j!p"), z3.Int("k!p")
    at = lambda q: z3.Select(arr, q)
    name = lambda q: f_keytype(key(q))
    some = lambda t: z3.Exists([k], z3.And(ranged(k, n), at(k) == t))
    V.prove("every key is covered", z3.ForAll([j], z3.Implies(ranged(j, st.n), z3.Or(
        some(name(j)), z3.And(name(j) == S("int"), some(S("float")))))))
    stems = z3.Exists([j], z3.And(ranged(j, st.n), name(j) == at(k)))
    V.prove("every alternative stems from a key", z3.ForAll([k], z3.Implies(z3.And(ranged(k, n), st.n > 0), stems)))
    V.prove("sorted and distinct", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), at(j) < at(k))))
    V.prove("float covers int", z3.Not(z3.And(some(S("float")), some(S("int")))))
    V.prove("Any exactly if empty", z3.Implies(st.n == 0, z3.And(n == 1, at(0) == S("Any"), W.has("Any"))))
    V.prove("imports nothing else", z3.And(W.imports_grow(), W.imports_kept("Any"), z3.Implies(
        st.n > 0, W.imports_kept())))
    V.cover("empty" if V.branch(st.n == 0) else "some")


def asks_contract(kind):
    """The alternatives of all children: each once, but position by position for tuples of a fixed size."""
    @contract("C01 C02 C06", f"alternatives a {kind} asks for", covers=("fixed", "any size") if kind == "tuple" else (
        "reached",), obligations=("raises nothing", "of the children", "each once unless the size is fixed",
                                  "formatted as they are"))
    def _(V):
        W = World(V)
        c = node_class(kind)
        self = W.self_of(c, W.nodes())
        asked, text = [], V.str("formatted")
        types = V.tuple(STR, "types")

        def get(i, args, kw):
            asked.append((kw.get("iterable", args[1] if len(args) > 1 else ()), kw.get("remove_repeated", True)))
            return types

        def fmt(i, args, kw):
            asked.append(args[1] if len(args) > 1 else kw["child_types"])
            return text

        for k in c.__mro__:
            REG.summaries[k.__name__, "_get_types"] = get
            REG.summaries[k.__name__, "_format_types"] = fmt
        r = V.run(find(c, "get_type_alias_children"), self)
        V.no_exception(r)
        fixed = z3.And(z3.BoolVal(kind == "tuple"), W.strategies.attrs["tuple_size_strategy"].t == S("fixed"))
        V.prove("of the children", z3.BoolVal(len(asked) == 2 and asked[0][0] == ()))
        V.prove("each once unless the size is fixed", V.eng.bool_term(asked[0][1]) == z3.Not(fixed))
        V.prove("formatted as they are", z3.And(z3.BoolVal(asked[1] is types), V.eng.str_term(r) == text.t))
        V.cover("reached" if kind != "tuple" else "fixed" if V.branch(fixed) else "any size")


for _kind in ("list", "set", "iterator", "series", "dict", "tuple"):
    asks_contract(_kind)
