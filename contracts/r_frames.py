"""C20: the columns of a DataFrame."""
from contracts.world import (
    FA, S, World, f_inline, f_needs, f_perm, module, node_class, tree_class,
)
from pyvc import core
from pyvc.core import VAL, Int, NodeK, RawK, SBool, SStr, Str, SVal, Val, ranged, z3
from pyvc.interp import REG, LoopSpec
from pyvc.verify import contract

f_first = z3.Function("first_level", Val, Val)
f_levels = z3.Function("levels", Val, Int)
f_of_column = z3.Function("hint_of_column", Val, Val)
f_repr = z3.Function("repr_of_column", Val, Str)
F = "PandasDataFrameDataTypeTree"


class Columns:
    def equals(self, other):
        ...


class Frame:
    def __getitem__(self, key):
        ...


def frame(V, name="columns"):
    columns = V.list(VAL, name)
    c = V.obj(Columns)
    REG.iters["Columns"] = lambda i, v: v.attrs["elements"]
    c.attrs["elements"] = V.eng.view(columns)
    f = V.obj(Frame, columns=c)
    REG.summaries["object", "__getitem__"] = lambda i, args, kw: (V.prove("the first level", args[1] == 0), SVal(f_first(
        i.eng.to_val(args[0]))))[1]
    REG.summaries["object", "__len__"] = lambda i, args, kw: core.SInt(f_levels(i.eng.to_val(args[0])))
    return f, c.attrs["elements"]


def is_tuple(V, t):
    return core.f_inst(t, V.eng.const(tuple))


def literal(t):
    return z3.Or(core.is_str(t), core.is_bool(t), core.is_int(t))


@contract("C20", f"{F}.are_all_columns_literal_compatible", covers=("yes", "no"), obligations=(
    "raises nothing", "text, integer or boolean, as it is or as first level"))
def _(V):
    W = World(V)
    data, columns = frame(V)
    node = W.self_of("frame", data=data)
    j = z3.Int("j!lc")
    c = lambda j: columns.get(j).t
    fine = lambda j: z3.If(is_tuple(V, c(j)), literal(f_first(c(j))), literal(c(j)))
    REG.loops[F + ".are_all_columns_literal_compatible", 0] = LoopSpec(lambda L: [("all so far", FA([j], z3.Implies(
        ranged(j, L.i), fine(j)), c(j)))])
    V.assume(z3.ForAll([j], z3.Implies(z3.Or(core.is_str(c(j)), core.is_bool(c(j)), core.is_int(c(j))), z3.Not(is_tuple(
        V, c(j))))))
    r = V.run(node.cls.are_all_columns_literal_compatible, node)
    V.no_exception(r)
    V.prove("text, integer or boolean, as it is or as first level", V.eng.bool_term(r) == z3.ForAll([j], z3.Implies(
        ranged(j, columns.n), fine(j))))
    V.cover("yes" if V.branch(V.eng.bool_term(r)) else "no")


@contract("C20", f"{F}.can_be_accessed_multilevel", obligations=("raises nothing", "exactly if all columns are tuples"))
def _(V):
    W = World(V)
    data, columns = frame(V)
    node = W.self_of("frame", data=data)
    r = V.run(node.cls.can_be_accessed_multilevel, node)
    V.no_exception(r)
    j = z3.Int("j!ml")
    V.prove("exactly if all columns are tuples", V.eng.bool_term(r) == z3.ForAll([j], z3.Implies(ranged(
        j, columns.n), is_tuple(V, columns.get(j).t))))
    V.cover()


@contract("C20 C01 C02", f"{F}._instantiate_children", prove_ms=20000, covers=("single level", "multi level", "none"),
          obligations=("raises nothing", "none without a reason", "every column has its accessor",
                       "accessors of columns only", "in column order", "each once"))
def _(V):
    W = World(V)
    dt = tree_class()
    data, columns = frame(V)
    other, others = frame(V, "columns of the parent")
    in_frame, has_parent = V.bool("within a frame"), V.bool("has parent")
    parent = None
    if V.branch(in_frame.t):
        parent = W.self_of("frame", data=other)
    elif V.branch(has_parent.t):
        parent = W.self_of("list")
    node = W.self_of("frame", data=data, parent=parent)
    compatible, multi, same = V.bool("compatible"), V.bool("multi"), V.bool("same columns")
    REG.summaries[F, "are_all_columns_literal_compatible"] = lambda i, args, kw: compatible
    REG.summaries[F, "can_be_accessed_multilevel"] = lambda i, args, kw: multi
    REG.summaries["Columns", "equals"] = lambda i, args, kw: (V.prove("compared with the columns of the parent", {
        id(args[0]), id(args[1])} == {id(data.attrs["columns"]), id(other.attrs["columns"])}), same)[1]
    REG.summaries[F, "_create_child"] = lambda i, args, kw: SVal(f_of_column(i.eng.to_val(args[1])), dt)
    j, k, k2 = z3.Int("j!fc"), z3.Int("k!fc"), z3.Int("k2!fc")
    c = lambda j: columns.get(j).t
    # What the other properties of the node tell
    V.assume(z3.ForAll([j], z3.Implies(z3.And(ranged(j, columns.n), compatible.t), z3.If(is_tuple(V, c(j)), literal(
        f_first(c(j))), literal(c(j))))))
    V.assume(multi.t == z3.ForAll([j], z3.Implies(ranged(j, columns.n), is_tuple(V, c(j)))))
    column = lambda j: z3.If(multi.t, f_first(c(j)), c(j))
    node_kind = NodeK(dt)
    box = {}

    def spec(cell, i, ghost):
        d = V.i.symbolic_dict(cell, VAL, node_kind)
        src = lambda k: z3.Select(ghost, k)
        at = lambda k: z3.Select(d.keyat[0], k)
        return d, [
            ("every column has its accessor", FA([j], z3.Implies(ranged(j, i), z3.And(z3.Select(d.dom, column(
                j)), z3.Select(d.cols[0], column(j)) == f_of_column(column(j)))), c(j))),
            ("accessors of columns only", FA([k], z3.Implies(ranged(k, d.n), z3.And(ranged(src(k), i), at(k) == column(
                src(k)))), at(k), src(k))),
            ("in column order", FA([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < d.n), src(k) < src(k2)), (src(k), src(
                k2)))),
            ("each once", z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < d.n), at(k) != at(k2))))]

    def inv(L):
        box.update(L.ghost)
        d, out = spec(L["children"], L.i, L.ghost["src"])
        seen = L["columns_processed"]
        x = z3.Const("x!fc", Val)
        dom = V.eng.set_array(seen, VAL)
        return out + [("size", L.ghost["size"] == d.n), ("the columns so far", FA([x], z3.Implies(
            multi.t, z3.Select(dom, x) == z3.Select(d.dom, x)), z3.Select(dom, x), z3.Select(d.dom, x)))]

    def src(L):
        n = V.i.symbolic_dict(L["children"], VAL, node_kind).n
        return z3.If(n > L.ghost["size"], z3.Store(L.ghost["src"], n - 1, L.i), L.ghost["src"])

    REG.loops[F + "._instantiate_children", 0] = LoopSpec(inv, ghosts={
        "src": (RawK(z3.ArraySort(Int, Int)), z3.K(Int, z3.IntVal(0)), src),
        "size": (RawK(Int), z3.IntVal(0), lambda L: V.i.symbolic_dict(L["children"], VAL, node_kind).n)})
    r = V.run(node.cls._instantiate_children, node, data)
    V.no_exception(r)
    one_level = z3.ForAll([j], z3.Implies(ranged(j, columns.n), z3.And(is_tuple(V, c(j)), f_levels(c(j)) == 1)))
    reason = z3.Or(W.strategies.attrs["pandas_strategies"].t == S("Do not type hint columns"), z3.Not(compatible.t),
                   one_level, z3.And(in_frame.t, same.t))
    r = V.i.force(r)
    if r.items is not None and not r.items and "src" not in box:
        V.prove("none without a reason", reason)
        V.cover("none")
        return
    V.prove("columns without a reason not to", z3.Not(reason))
    for label, t in spec(r, columns.n, box["src"])[1]:
        V.prove(label, t)
    V.cover("multi level" if V.branch(multi.t) else "single level")


@contract("C20", f"{F}._create_child", obligations=("raises nothing", "the content of that very column"))
def _(V):
    W = World(V)
    data, columns = frame(V)
    node = W.self_of("frame", data=data)
    column = V.any("column")
    made, content = [], V.any("content")
    REG.summaries["Frame", "__getitem__"] = lambda i, args, kw: (V.prove("the content of that very column", z3.And(
        args[0] is data, i.eng.to_val(args[1]) == column.t)), content)[1]
    REG.summaries["factory", "data_type_tree_factory"] = lambda i, args, kw: (made.append(kw), V.any("child", tree_class()))[1]
    REG.summaries["MappingDataTypeTree", "_to_camel_case"] = lambda i, args, kw: V.str("camel")
    r = V.run(node.cls._create_child, node, column)
    V.no_exception(r)
    kw = made[0]
    V.prove("the content of that very column", len(made) == 1 and kw["data"] is content and kw["parent"] is node)
    V.prove("one level below", z3.And(kw["strategies"] is W.strategies, kw["imports"] is W.imports, V.eng.int_term(kw[
        "depth"]) == node.attrs["depth"].t + 1))
    V.cover()


@contract("C20 C03 C06", f"{F}._get_str_top_node", prove_ms=20000, covers=("plain", "Full type hint", "autocomplete"), obligations=(
    "raises nothing", "plain exactly without columns", "an accessor per column, in order", "exactly the columns are accepted",
    "what the accessors need is imported"))
def _(V):
    W = World(V)
    children = V.dict(VAL, NodeK(tree_class()), "children")
    st = children.state
    node = W.self_of("frame", children=children)
    key = lambda j: z3.Select(st.keyat[0], j)
    child = lambda j: z3.Select(st.cols[0], key(j))
    j, t = z3.Int("j!fr"), z3.Const("t!fr", Str)
    V.assume(FA([j], z3.Implies(ranged(j, st.n), literal(key(j))), key(j)))
    m = module("data_type_tree.generic_type.pandas_data_frame_data_type_tree")
    rtype = lambda j: z3.If(f_perm(child(j)), z3.Select(V.eng.heap["name"], child(j)), f_inline(child(j)))
    f_text = lambda j: V.eng.str_term(V.i.call(repr, (SVal(key(j)),)))
    item = V.int("item").t
    sample = V.eng.str_term(V.i.call_method(m.LITERAL_OVERLOAD_TEMPLATE, "format", (), {
        "literal": SStr(z3.Const("lit!", Str)), "rtype": SStr(z3.Const("rtype!", Str))}))
    overload = lambda j: z3.substitute(sample, (z3.Const("lit!", Str), f_text(j)), (z3.Const("rtype!", Str), rtype(j)))
    box = {}
    needed = lambda: z3.And(W.imports_grow(), *(W.has(x) for x in (
        "pandas", "overload", "Union", "Literal", "npt", "tuple", "list", "Hashable", "numpy", "pd.Scalar")))

    def inlined(i):
        return ("what the accessors need is imported", FA([j, t], z3.Implies(z3.And(ranged(j, i), z3.Not(f_perm(child(
            j))), z3.Select(f_needs(child(j)), t)), z3.Select(W.imported.dom, t)), z3.Select(f_needs(child(j)), t)))

    def first(L):
        v = V.eng.view(L["overloads"])
        out = [("one each", v.n == L.i), ("imports", needed()), inlined(L.i)]
        box["overloads"] = v
        if v.get(z3.IntVal(0)) is not None:
            at = lambda j: V.eng.str_term(v.get(j))
            out.append(("an accessor per column, in order", FA([j], z3.Implies(ranged(j, L.i), at(j) == overload(j)), at(j))))
        return out

    def second(L):
        v = V.eng.view(L["literal_compatible_keys"])
        box["keys"] = v
        out = [("one each", v.n == L.i), ("no other types", V.eng.str_term(L["extra_types"]) == S("")),
               ("imports", needed()), inlined(st.n)]
        if v.get(z3.IntVal(0)) is not None:
            at = lambda j: V.eng.str_term(v.get(j))
            out.append(("literals", FA([j], z3.Implies(ranged(j, L.i), at(j) == f_text(j)), at(j))))
        return out

    REG.loops[F + "._get_str_top_node", 0] = LoopSpec(first)
    REG.loops[F + "._get_str_top_node", 1] = LoopSpec(second)
    r = V.run(node.cls._get_str_top_node, node)
    V.no_exception(r)
    r = V.eng.str_term(r)
    plain = z3.Concat(node.attrs["name"].t, S(": TypeAlias = pd.DataFrame"))
    if "overloads" not in box:
        V.prove("plain exactly without columns", z3.And(st.n == 0, r == plain, W.has("pandas"), W.has("TypeAlias")))
        V.cover("plain")
        return
    V.prove("plain exactly without columns", st.n > 0)
    full = W.strategies.attrs["pandas_strategies"].t == S("Full type hint")
    overloads = SStr(V.eng.str_term(V.i.call_method("\n", "join", (box["overloads"],), {})))
    V.prove("an accessor per column, in order", z3.And(box["overloads"].n == st.n, FA([j], z3.Implies(ranged(
        j, st.n), V.eng.str_term(box["overloads"].get(j)) == overload(j)))))
    if V.branch(full):
        literals = V.i.call_method(", ", "join", (box["keys"],), {})
        V.prove("exactly the columns are accepted", z3.And(box["keys"].n == st.n, FA([j], z3.Implies(ranged(
            j, st.n), V.eng.str_term(box["keys"].get(j)) == f_text(j)))))
        V.prove("the text", r == V.eng.str_term(V.i.call_method(m.TEMPLATE_NO_PD, "format", (), {
            "class_name": node.attrs["name"], "overloads": overloads, "allowed_types": SStr(z3.Concat(
                S("Literal["), V.eng.str_term(literals), S("]")))})))
        V.cover("Full type hint")
    else:
        V.prove("the text", r == V.eng.str_term(V.i.call_method(m.TEMPLATE, "format", (), {
            "class_name": node.attrs["name"], "overloads": overloads, "allowed_types": "str"})))
        V.cover("autocomplete")
    V.prove("what the accessors need is imported", needed())
    V.prove(*inlined(st.n))
