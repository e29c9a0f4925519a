"""C01, C04, C08: heights, permissions, identity and iteration of nodes."""
from contracts.world import (
    FA, GENERIC, S, World, cls, f_height, f_holding, f_nodehash, f_parent, f_perm, module, node_at, node_class,
    tree_class,
)
from pyvc import core
from pyvc.core import (
    BOOL, INT, STR, VAL, Inst, Int, ListK, NodeK, OptK, Raised, SBool, SeqView, SInt, SStr, Str, SVal, Val, f_hash,
    f_type, f_unhash, ranged, z3,
)
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.verify import contract


@contract("C08", "DataTypeTree._get_height", obligations=("raises nothing", "above every child",
                                                        "one more than a child, or one"))
def _(V):
    W = World(V)
    seq = W.nodes()
    j = z3.Int("j!h")
    V.assume(FA([j], f_height(node_at(seq, j)) >= 0, node_at(seq, j)))

    def inv(L):
        m = L.eng.int_term(L["max_height"])
        return [("at least every child so far", z3.And(m >= 0, FA([j], z3.Implies(
            ranged(j, L.i), m >= f_height(node_at(seq, j))), node_at(seq, j)))),
                ("zero or the height of a child", z3.Or(m == 0, z3.Exists([j], z3.And(
                    ranged(j, L.i), f_height(node_at(seq, j)) == m))))]

    REG.loops["DataTypeTree._get_height", 0] = LoopSpec(inv)
    r = V.run(tree_class()._get_height, W.self_of("list", seq))
    V.no_exception(r)
    h = V.eng.int_term(r)
    V.prove("above every child", z3.And(h >= 1, z3.ForAll([j], z3.Implies(ranged(j, seq.n), h > f_height(
        node_at(seq, j))))))
    V.prove("one more than a child, or one", z3.Or(h == 1, z3.Exists([j], z3.And(
        ranged(j, seq.n), h == f_height(node_at(seq, j)) + 1))))
    V.cover()


def simple_class():
    return cls("data_type_tree.simple_data_type_tree.simple_data_type_tree.SimpleDataTypeTree")


def function_class():
    return cls("data_type_tree.simple_data_type_tree.function_data_type_tree.FunctionDataTypeTree")


@contract("C08", "SimpleDataTypeTree._get_height", obligations=("raises nothing", "zero"))
def _(V):
    W = World(V)
    c = simple_class()
    raw = next(k.__dict__["_get_height"] for k in c.__mro__ if "_get_height" in k.__dict__)
    if c.__iter__ is not tree_class().__iter__ and raw is tree_class().__dict__["_get_height"]:
        REG.loops["DataTypeTree._get_height", 0] = LoopSpec()
    self = W.self_of(c, None)
    r = V.run(raw, self)
    V.no_exception(r)
    V.prove("zero", V.eng.int_term(r) == 0)
    V.cover()


def permission(c):
    for k in c.__mro__:
        if "permission_to_be_created_as_type_alias" in k.__dict__:
            return k.__dict__["permission_to_be_created_as_type_alias"]


def permission_contract(kind):
    @contract("C08", f"permission to be defined: {kind}", obligations=("raises nothing", "as documented"))
    def _(V):
        W = World(V)
        c = {"function": function_class, "simple": simple_class}.get(kind, lambda: node_class(kind))()
        parent = V.fresh(OptK(NodeK(tree_class())), "parent")
        self = W.self_of(c, None, parent=parent)
        typed = V.bool("is_typed_dict")
        if kind == "dict":
            meta = cls(GENERIC + "dict_data_type_tree.DictMetadata")
            self.attrs["dict_metadata"] = V.obj(meta)
            REG.summaries["DictMetadata", "is_typed_dict"] = lambda i, args, kw: typed
        frame_typed = V.bool("columns_hinted")
        st = W.strategies.attrs
        if kind == "frame":
            REG.summaries["PandasDataFrameDataTypeTree", "_can_columns_be_typed"] = lambda i, args, kw: frame_typed
            REG.summaries["PandasDataFrameDataTypeTree", "_is_typed"] = lambda i, args, kw: frame_typed
        r = V.run(permission(c), self)
        V.no_exception(r)
        height = self.attrs["height"].t
        rule = z3.Or(parent.none, height > st["min_height_to_define_type_alias"].t)
        if kind == "dict":
            rule = z3.Or(rule, typed.t)
        if kind == "simple":
            rule = parent.none
        if kind == "function":
            rule = z3.BoolVal(True)
        V.prove("as documented", V.eng.bool_term(r) == rule)
        V.cover()


for _kind in ("list", "tuple", "set", "iterator", "proxy", "series", "simple", "function", "dict"):
    permission_contract(_kind)


@contract("C04", "DataTypeTree.__eq__", covers=("same class", "other class"), obligations=(
        "raises nothing", "same class and same hash value"))
def _(V):
    """`==` holds exactly when class and `_get_hash` agree: reflexive, symmetric and transitive for free."""
    W = World(V)
    T = tree_class()
    a = W.node("a", T)
    b = W.node("b", T)
    REG.summaries["DataTypeTree", "__hash__"] = lambda i, args, kw: hash_of_node(i, args[0])
    r = V.run(T.__eq__, a, b)
    V.no_exception(r)
    same = z3.And(f_type(a.t) == f_type(b.t), f_nodehash(a.t) == f_nodehash(b.t))
    V.prove("same class and same hash value", V.eng.bool_term(r) == same)
    V.cover("same class" if V.branch(f_type(a.t) == f_type(b.t)) else "other class")


def hash_of_node(i, node):
    """Contract of __hash__: the hash of what _get_hash returns."""
    h = f_nodehash(i.eng.to_val(node))
    n = f_hash(h)
    i.eng.assumed.add("no two different `_get_hash` values have the same hash()")
    i.eng.assume(f_unhash(n) == h)
    return SInt(n)


@contract("C04", "DataTypeTree.__eq__ with another object", obligations=("raises nothing", "never equal"))
def _(V):
    W = World(V)
    T = tree_class()
    a, b = W.node("a", T), V.any("other")
    V.assume(f_type(a.t) != f_type(b.t))
    r = V.run(T.__eq__, a, b)
    V.no_exception(r)
    V.prove("never equal", z3.Not(V.eng.bool_term(r)))
    V.cover()


@contract("C04", "cached methods", covers=("first call", "later call"), obligations=(
        "raises nothing", "first call: the value of the method, which is kept", "later calls: the value kept"))
def _(V):
    """The wrapper of cache_returned_value_per_instance around __hash__."""
    W = World(V)
    wrapper = tree_class().__dict__["__hash__"]
    value = V.any("hash_value")
    calls = []

    def get_hash(i, args, kw):
        calls.append(1)
        return value

    REG.summaries["ListDataTypeTree", "_get_hash"] = get_hash
    for c in node_class("list").__mro__:
        REG.summaries[c.__name__, "_get_hash"] = get_hash
    self = W.self_of("list", W.nodes())
    before = set(self.attrs)
    r = V.run(wrapper, self)
    V.no_exception(r)
    h = f_hash(value.t)
    added = set(self.attrs) - before
    V.prove("first call: the value of the method, which is kept", z3.And(V.eng.int_term(r) == h, z3.BoolVal(
        len(calls) == 1 and len(added) == 1)))
    V.cover("first call")
    other = V.any("other_value")
    value = other
    r2 = V.run(wrapper, self)
    V.no_exception(r2)
    V.prove("later calls: the value kept", z3.And(V.eng.int_term(r2) == h, z3.BoolVal(set(self.attrs) - before == added)))
    V.cover("later call")


def iteration_contract(kind):
    mapping = kind in ("dict", "proxy", "mapping")

    @contract("C01 C02", f"iteration over a node: {kind}", covers=("element", "end"), obligations=(
        "raises nothing", "yields the next child", "ends after the last child"))
    def _(V):
        W = World(V)
        c = node_class(kind)
        k = V.int("k")
        if mapping:
            children = V.dict(VAL, NodeK(tree_class()), "children")
            st = children.state
            n = st.n
            value = lambda j: z3.Select(st.cols[0], z3.Select(st.keyat[0], j))
        else:
            children = W.nodes()
            n = children.n
            value = lambda j: node_at(children, j)
        self = W.self_of(c, children)
        V.assume(z3.And(k.t >= 0, k.t <= n))
        REG.iters.clear()
        it = V.run(find(c, "__iter__"), self)
        V.no_exception(it)
        V.prove("iterates over itself", it is self)
        advance(self, k)
        r = V.run(find(c, "__next__"), self)
        if isinstance(r, Raised):
            V.prove("ends after the last child", z3.And(z3.BoolVal(issubclass(r.cls, StopIteration)), k.t == n))
            V.cover("end")
            return
        V.prove("yields the next child", z3.And(k.t < n, r.t == value(k.t)))
        V.cover("element")
        # Afterwards it stands one further
        r = V.run(find(c, "__next__"), self)
        if isinstance(r, Raised):
            V.prove("ends after the last child", z3.And(z3.BoolVal(issubclass(r.cls, StopIteration)), k.t + 1 == n))
        else:
            V.prove("yields the next child", z3.And(k.t + 1 < n, r.t == value(k.t + 1)))

    return _


def find(c, name):
    for k in c.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]


def advance(self, k):
    """The state after k further calls of __next__ (shown step by step: each adds one)."""
    v = self.attrs.get("_iterator")
    if isinstance(v, (int, SInt)):
        self.attrs["_iterator"] = SInt(k.t + (v.t if isinstance(v, SInt) else v))
    elif isinstance(v, Inst) and "pos" in v.attrs:
        v.attrs["pos"] = SInt(k.t)
    else:
        raise core.Unsupported("state of an iteration")


for _kind in ("list", "tuple", "iterator", "set", "series", "dict", "proxy"):
    iteration_contract(_kind)


@contract("C01", "DataTypeTree.__len__", obligations=("raises nothing", "number of children"))
def _(V):
    W = World(V)
    seq = W.nodes()
    r = V.run(tree_class().__len__, W.self_of("list", seq))
    V.no_exception(r)
    V.prove("number of children", V.eng.int_term(r) == seq.n)
    r = V.run(tree_class().__len__, W.self_of(simple_class(), None))
    V.no_exception(r)
    V.prove("number of children", V.eng.int_term(r) == 0)
    V.cover()


@contract("C09", "DataTypeTree._validate_name", covers=("accepted", "rejected"), obligations=(
        "accepts only valid names", "rejects only invalid names"))
def _(V):
    from pyvc.models import f_isident
    import keyword
    s = V.str("name")
    good = z3.And(f_isident(s.t), *(s.t != S(k) for k in sorted(keyword.kwlist)))
    r = V.run(tree_class()._validate_name, s)
    if isinstance(r, Raised):
        V.prove("rejects only invalid names", z3.Not(good))
        V.prove("as an error of the tree", issubclass(r.cls, module("data_type_tree.data_type_tree").DataTypeTreeError))
        V.cover("rejected")
    else:
        V.prove("accepts only valid names", good)
        V.cover("accepted")
