"""C01, C02, C07, C09: what every kind of node makes its children of."""
from contracts.m_children import dict_fields, f_data, f_made, factory
from contracts.world import FA, GENERIC, S, World, cls, module, node_at, node_class, set_name, tree_class
from pyvc import core
from pyvc.core import (
    BOOL, INT, STR, VAL, Bool, Inst, Int, ListK, NodeK, Raised, SBool, SInt, SStr, Str, SVal, Val, f_eqc, ranged, z3,
)
from pyvc.interp import REG, LoopSpec
from pyvc.verify import contract


def kind_contract(kind):
    covers = ("fixed", "any size") if kind == "tuple" else ("reached",)

    @contract("C01 C02 C06 C07", f"elements that a {kind} makes children of", covers=covers, obligations=(
        "raises nothing", "its own elements", "as the strategy of the tuple says" if kind == "tuple" else
        "one child per structure", "hands back those children"))
    def _(V):
        W = World(V)
        node = W.self_of(kind)
        V.run(node.cls.__dict__.get("__pre_child_instantiation__") or find(node.cls, "__pre_child_instantiation__"), node)
        data, made = V.any("data"), V.tuple(NodeK(tree_class()), "made")
        box = {}

        def instantiate(i, args, kw):
            box["operations"], box["data"], box["repeated"] = args[0], args[1], kw["allow_repeated_children"]
            return made

        REG.summaries["SetAndSequenceOperations", "instantiate_children"] = instantiate
        r = V.run(node.cls._instantiate_children, node, data)
        V.no_exception(r)
        V.prove("its own elements", z3.And(V.i.eng.to_val(box["data"]) == data.t, box["operations"].attrs[
            "data_type_tree"] is node))
        repeated = V.eng.bool_term(box["repeated"])
        if kind == "tuple":
            fixed = W.strategies.attrs["tuple_size_strategy"].t == S("fixed")
            V.prove("as the strategy of the tuple says", repeated == fixed)
            V.cover("fixed" if V.branch(fixed) else "any size")
        else:
            V.prove("one child per structure", z3.Not(repeated))
            V.cover()
        V.prove("hands back those children", r is made)


def find(c, name):
    return next(b.__dict__[name] for b in c.__mro__ if name in b.__dict__)


for _kind in ("list", "tuple", "set", "iterator", "series"):
    kind_contract(_kind)


@contract("C07 C01", "elements of a mapping proxy that are read", covers=("limit", "no limit"), obligations=(
    "raises nothing", "the first ones, in order", "all of them without a limit"))
def _(V):
    W = World(V)
    data = V.dict(VAL, VAL, "data")
    keys, n = data.state.keyat[0], data.state.n
    node = W.self_of("proxy", data=data)
    r = V.run(node.cls.__pre_child_instantiation__, node)
    V.no_exception(r)
    first(V, W, node, keys, n, data.state)


def first(V, W, node, keys, n, st, limited=True):
    limit = W.strategies.attrs["check_max_n_elements_within_container"]
    out = V.i.force(node.attrs["data"])
    new = V.i.symbolic_dict(out, VAL, VAL)
    k = z3.Int("k!first")
    if limited and V.branch(z3.Not(limit.none)):
        m = z3.If(limit.value.t < n, limit.value.t, n)
        V.cover("limit")
    else:
        m = n
        V.prove("all of them without a limit", new.n == n)
        V.cover("no limit")
    V.prove("the first ones, in order", z3.And(new.n == m, z3.ForAll([k], z3.Implies(ranged(k, m), z3.And(
        z3.Select(new.keyat[0], k) == z3.Select(keys, k), z3.Select(new.cols[0], V.i.key_at(new, k)) == z3.Select(
            st.cols[0], V.i.key_at(st, k)))))))


@contract("C07 C13 C05", "elements of a dictionary that are read", covers=("limit", "no limit", "TypedDict"), obligations=(
    "raises nothing", "a TypedDict reads all of them", "no more than the limit", "its own entries, in order",
    "no documentation", "left out only beyond the limit", "its keys are those that were read"))
def _(V):
    W = World(V)
    data = V.dict(VAL, VAL, "data")
    st = data.state
    node = W.self_of("dict", data=data)
    prefix = node.cls.hidden_keys_prefix
    box = {}

    def metadata(i, args, kw):
        self, given = args[0], args[1] if len(args) > 1 else kw["data"]
        box["given"], box["strategies"], box["prefix"] = given, kw["strategies"], kw["hidden_key_prefix"]

    REG.summaries["DictMetadata", "__init__"] = metadata
    r = V.run(node.cls.__pre_child_instantiation__, node)
    V.no_exception(r)
    out = V.i.force(node.attrs["data"])
    V.prove("its keys are those that were read", z3.And(
        box["given"] is out, box["strategies"] is W.strategies, box["prefix"] == prefix))
    limit = W.strategies.attrs["check_max_n_elements_within_container"]
    if V.branch(z3.Or(W.strategies.attrs["dict_strategy"].t == S("TypedDict"), limit.none)):
        V.prove("a TypedDict reads all of them", out is data and data.state is st)
        V.cover("TypedDict" if V.branch(W.strategies.attrs["dict_strategy"].t == S("TypedDict")) else "no limit")
        return
    V.cover("limit")
    new = V.i.symbolic_dict(out, VAL, VAL)
    j, k, k2 = z3.Int("j!pre"), z3.Int("k!pre"), z3.Int("k2!pre")
    old, key = (lambda j: z3.Select(st.keyat[0], j)), (lambda k: z3.Select(new.keyat[0], k))
    place = lambda k: z3.Select(st.pos, key(k))
    hidden = lambda x: z3.And(core.is_str(x), z3.PrefixOf(S(prefix), Val.s(x)))
    V.prove("no more than the limit", new.n <= limit.value.t)
    V.prove("its own entries, in order", z3.And(
        z3.ForAll([k], z3.Implies(ranged(k, new.n), z3.And(z3.Select(st.dom, key(k)), z3.Select(
            new.cols[0], key(k)) == z3.Select(st.cols[0], key(k))))),
        z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < new.n), place(k) < place(k2)))))
    V.prove("no documentation", z3.ForAll([k], z3.Implies(ranged(k, new.n), z3.Not(hidden(key(k))))))
    V.prove("left out only beyond the limit", z3.ForAll([j], z3.Implies(z3.And(ranged(j, st.n), z3.Not(
        hidden(old(j)))), z3.Or(z3.Select(new.dom, old(j)), new.n == limit.value.t))))
    V.prove("left out only behind those that are read", z3.ForAll([j, k], z3.Implies(z3.And(
        ranged(j, st.n), ranged(k, new.n), z3.Not(hidden(old(j))), z3.Not(z3.Select(new.dom, old(j)))), place(k) < j)))


f_camel = z3.Function("camel_case", Str, Str)


@contract("C01 C02 C06 C13 C19", "MappingDataTypeTree._instantiate_children", covers=("reached",), prove_ms=15000, obligations=(
    "raises nothing", "every key but documentation has the child of its value", "keys of the data only",
    "in the order of the data"))
def _(V):
    W = World(V)
    dict_fields()
    node = W.self_of("mapping")
    prefix = node.cls.hidden_keys_prefix
    factory(V, W, node, node.attrs["depth"].t)
    data = V.dict(VAL, VAL, "data")
    st = data.state
    old, value = (lambda j: z3.Select(st.keyat[0], j)), (lambda x: z3.Select(st.cols[0], x))
    hidden = lambda x: z3.And(core.is_str(x), z3.PrefixOf(S(prefix), Val.s(x)))
    M = "MappingDataTypeTree"
    REG.summaries[M, "_to_camel_case"] = lambda i, args, kw: SStr(f_camel(i.eng.str_term(args[-1])))
    node_kind = NodeK(tree_class())
    j, k, k2 = z3.Int("j!mc"), z3.Int("k!mc"), z3.Int("k2!mc")
    x = z3.Const("x!mc", Val)
    box = {}

    def spec(c, i, src, n=None):
        d = V.i.symbolic_dict(c, VAL, node_kind)
        key = lambda k: z3.Select(d.keyat[0], k)
        out = [("every key but documentation has the child of its value", FA([j], z3.Implies(z3.And(
                    ranged(j, i), z3.Not(hidden(old(j)))), z3.And(z3.Select(d.dom, old(j)), f_eqc(z3.Select(
                        d.cols[0], old(j))) == f_made(value(old(j))))), old(j))),
               ("keys of the data only", FA([k], z3.Implies(ranged(k, d.n), z3.And(ranged(src(k), i), key(k) == old(
                   src(k)), z3.Not(hidden(key(k))))), key(k), src(k))),
               ("in the order of the data", FA([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < d.n), src(k) < src(
                   k2)), (src(k), src(k2))))]
        return out, d

    def same(i, args, kw):
        """The contract of the method: some children make way for equal ones."""
        children, info = args[1], kw["children_info"]
        box["info"] = info
        d = V.i.symbolic_dict(children, VAL, node_kind)
        V.prove("only equal values are put together", grouped(V, info, d))
        i.touch(children)
        cols = [V.eng.new("children", c.sort()) for c in d.cols]
        V.assume(FA([x], f_eqc(z3.Select(cols[0], x)) == f_eqc(z3.Select(d.cols[0], x)), z3.Select(cols[0], x)))
        children.state = core.DictState(d.kk, d.vk, d.n, d.keyat, d.pos, d.dom, cols)

    REG.summaries[M, "_assign_same_data_type_tree_to_keys_with_same_value_type"] = same

    def inv(L):
        src = lambda k: z3.Select(L.ghost["src"], k)
        out, d = spec(L["children"], L.i, src)
        return out + [("entries are grouped by structure", grouped(V, L["children_info"], d)), ("size", L.ghost[
            "size"] == d.n)]

    def count(L):
        return V.i.symbolic_dict(L["children"], VAL, node_kind).n

    def src(L):
        n = count(L)
        return z3.Store(L.ghost["src"], n - 1, L.i) if V.eng.implied(n > L.ghost["size"]) else L.ghost["src"]

    box["ghost"] = {}
    R = core.RawK
    spec_ = LoopSpec(lambda L: box["ghost"].update(L.ghost) or inv(L), ghosts={
        "src": (R(z3.ArraySort(Int, Int)), z3.K(Int, z3.IntVal(0)), src), "size": (R(Int), z3.IntVal(0), count)})
    REG.loops[M + "._instantiate_children", 0] = spec_
    r = V.run(node.cls._instantiate_children, node, data)
    V.no_exception(r)
    ghost = box["ghost"]["src"]
    out, d = spec(r, st.n, lambda k: z3.Select(ghost, k))
    for label, t in out:
        V.prove(label, t)
    V.cover()


def grouped(V, info, children):
    """children_info: structure -> the keys whose values have it."""
    if info.items is not None:
        return z3.BoolVal(True)
    g = info.state
    s, x = z3.Const("s!gr", Val), z3.Const("x!gr", Val)
    inner = z3.Select(g.cols[0], s)
    return FA([s, x], z3.Implies(z3.And(z3.Select(g.dom, s), z3.Select(inner, x)), z3.And(
        z3.Select(children.dom, x), f_eqc(z3.Select(children.cols[0], x)) == s)), z3.Select(inner, x))


@contract("C01 C02", "MappingDataTypeTree._assign_same_data_type_tree_to_keys_with_same_value_type", obligations=(
    "raises nothing", "the same keys in the same order", "every value keeps its structure"))
def _(V):
    W = World(V)
    node_kind = NodeK(tree_class())
    node = W.self_of("mapping")
    children = V.dict(VAL, node_kind, "children")
    info = V.dict(node_kind, core.SetK(VAL), "info")
    start = children.state
    V.assume(grouped(V, info, start))
    x = z3.Const("x!as", Val)
    REG.summaries["DataTypeTree", "rename"] = lambda i, args, kw: set_name(i, args[0], args[1])
    REG.fields["DataTypeTree", "parent"] = lambda i, v: SVal(V.eng.new("parent", Val), tree_class())

    def spec():
        d = children.state
        return [("the same keys in the same order", z3.And(d.n == start.n, d.keyat[0] == start.keyat[0], z3.ForAll(
                    [x], z3.Select(d.dom, x) == z3.Select(start.dom, x)))),
                ("every value keeps its structure", FA([x], z3.Implies(z3.Select(start.dom, x), f_eqc(z3.Select(
                    d.cols[0], x)) == f_eqc(z3.Select(start.cols[0], x))), z3.Select(d.cols[0], x)))]

    name = node.cls._assign_same_data_type_tree_to_keys_with_same_value_type.__qualname__
    REG.loops[name, 0] = LoopSpec(lambda L: spec())
    REG.loops[name, 1] = LoopSpec(lambda L: spec())
    r = V.run(node.cls._assign_same_data_type_tree_to_keys_with_same_value_type, node, children, children_info=info)
    V.no_exception(r)
    for label, t in spec():
        V.prove(label, t)
    V.cover()
