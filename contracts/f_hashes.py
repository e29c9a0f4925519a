"""C04: `_get_hash` of two nodes of one class agrees exactly when their hints do."""
from contracts.world import (
    FA, GENERIC, S, World, cls, f_holding, f_nodehash, module, node_at, node_class, tree_class,
)
from contracts.d_trees import find
from contracts.e_forms import simple
from pyvc import core
from pyvc.core import (
    BOOL, INT, STR, VAL, Bool, Inst, Int, ListK, NodeK, Raised, SBool, SInt, SStr, Str, SVal, Val, f_tname, ranged, z3,
)
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.verify import contract


def child_hash(i, args, kw):
    return SVal(f_nodehash(i.eng.to_val(args[0])))


def use_child_hashes():
    REG.summaries["DataTypeTree", "_get_hash"] = child_hash


def two(V, W, c, make):
    a, b = make("a"), make("b")
    ra, rb = V.run(find(c, "_get_hash"), a), V.run(find(c, "_get_hash"), b)
    V.no_exception(ra)
    V.no_exception(rb)
    return a, b, ra, rb, as_term(V.i.equal(ra, rb))


def simple_hash(path, what, spec, data=None):
    @contract("C04 C16", f"hash of {what}", obligations=("raises nothing", "equal exactly if the hints are"))
    def _(V):
        W = World(V)
        c = simple(path)
        a, b, ra, rb, eq = two(V, W, c, lambda n: W.self_of(c, None, data=data(V, n) if data else V.any("data")))
        V.prove("equal exactly if the hints are", eq == spec(V, a, b))
        V.cover()


attr = lambda n: lambda V, x: V.eng.str_term(V.i.getattr(x.attrs["data"], n))
simple_hash("instance_data_type_tree.InstanceDataTypeTree", "an instance",
            lambda V, a, b: a.attrs["holding_type"].t == b.attrs["holding_type"].t)
simple_hash("module_data_type_tree.ModuleTypeDataTypeTree", "a module",
            lambda V, a, b: a.attrs["holding_type"].t == b.attrs["holding_type"].t)
simple_hash("type_data_type_tree.TypeDataTypeTree", "a class",
            lambda V, a, b: attr("__name__")(V, a) == attr("__name__")(V, b), lambda V, n: V.any("data_" + n, type))
simple_hash("io_data_type_tree.IoDataTypeTree", "a text stream", lambda V, a, b: z3.BoolVal(True))


Hint = z3.DeclareSort("Hint")
f_text = z3.Function("own_hint_of", Val, Hint)
HINT = {t: z3.Const(f"hint_{t}", Hint) for t in ("int", "float")}


def induction_hypothesis(V, *seqs):
    """Children are identified exactly as their hints agree, and int and float are what they are."""
    idof = lambda t: V.eng.to_val(V.call(id, t))
    x, y = z3.Const("x!ih", Val), z3.Const("y!ih", Val)
    V.assume(z3.ForAll([x, y], (f_nodehash(x) == f_nodehash(y)) == (f_text(x) == f_text(y)), patterns=[
        z3.MultiPattern(f_nodehash(x), f_nodehash(y)), z3.MultiPattern(f_text(x), f_text(y))]))
    V.assume(HINT["int"] != HINT["float"])
    for t in (int, float):
        V.assume(z3.ForAll([x], (f_nodehash(x) == idof(t)) == (f_text(x) == HINT[t.__name__]), patterns=[
            f_nodehash(x), f_text(x)]))


def covered(V, a, b):
    """Every alternative of a (hints of the children, without int if there is float) is one of b."""
    j, k = z3.Int("j!alt"), z3.Int("k!alt")
    text = lambda seq, q: f_text(node_at(seq, q))
    some = lambda seq, t: z3.Exists([k], z3.And(ranged(k, seq.n), text(seq, k) == t))
    kept = lambda seq, t: z3.Not(z3.And(t == HINT["int"], some(seq, HINT["float"])))
    return FA([j], z3.Implies(z3.And(ranged(j, a.n), kept(a, text(a, j))), z3.And(
        some(b, text(a, j)), kept(b, text(a, j)))), node_at(a, j))


def same_alternatives(V, a, b):
    return z3.And(covered(V, a, b), covered(V, b, a))


def container_hash(kind, extra=None, pids="C04"):
    @contract(pids, f"hash of a {kind}", obligations=("raises nothing", "equal only if the alternatives are",
                                                     "equal if the alternatives are"), prove_ms=20000)
    def _(V):
        W = World(V)
        use_child_hashes()
        c = node_class(kind)
        seqs = {}

        def make(n):
            seqs[n] = W.nodes("children_" + n)
            node = W.self_of(c, seqs[n])
            if kind == "set":
                V.assume(z3.Or(*(node.attrs["holding_type"].t == V.eng.const(t) for t in (set, frozenset))))
            return node

        if kind == "tuple":
            V.assume(W.strategies.attrs["tuple_size_strategy"].t == S("any size"))
        a, b, ra, rb, eq = two(V, W, c, make)
        induction_hypothesis(V)
        spec = same_alternatives(V, seqs["a"], seqs["b"])
        if kind == "set":
            spec = z3.And(spec, a.attrs["holding_type"].t == b.attrs["holding_type"].t)
        V.prove("equal only if the alternatives are", z3.Implies(eq, spec))
        V.prove("equal if the alternatives are", z3.Implies(spec, eq))
        V.cover()


for _kind in ("list", "iterator", "series", "set", "tuple"):
    container_hash(_kind)


@contract("C04", "hash of a fixed tuple", obligations=("raises nothing", "equal exactly if every position agrees"))
def _(V):
    W = World(V)
    use_child_hashes()
    c = node_class("tuple")
    V.assume(W.strategies.attrs["tuple_size_strategy"].t == S("fixed"))
    seqs = {}

    def make(n):
        seqs[n] = W.nodes("children_" + n)
        return W.self_of(c, seqs[n])

    a, b, ra, rb, eq = two(V, W, c, make)
    induction_hypothesis(V)
    j = z3.Int("j!ft")
    p, q = seqs["a"], seqs["b"]
    V.prove("equal exactly if every position agrees", eq == z3.And(p.n == q.n, z3.ForAll([j], z3.Implies(ranged(
        j, p.n), f_text(node_at(p, j)) == f_text(node_at(q, j))))))
    V.cover()


f_keytype = z3.Function("type_name_of_key", Val, Str)


def key_names():
    for k in node_class("dict").__mro__ + node_class("frame").__mro__:
        REG.summaries[k.__name__, "_get_type_name"] = lambda i, args, kw: SStr(f_keytype(i.eng.to_val(args[1])))


def children_dict(V, n):
    d = V.dict(VAL, NodeK(tree_class()), "children_" + n)
    st = d.state
    keys = lambda j: z3.Select(st.keyat[0], j)
    values = lambda j: z3.Select(st.cols[0], keys(j))
    return d, st, keys, values


def covered_by(a, at_a, b, at_b, trigger, trigger_b, int_, float_):
    """As `covered`, for the texts at_a(0..a) and at_b(0..b)."""
    j, k = z3.Int("j!cb"), z3.Int("k!cb")
    some = lambda n, at, t: z3.Exists([k], z3.And(ranged(k, n), at(k) == t))
    kept = lambda n, at, t: z3.Not(z3.And(t == int_, some(n, at, float_)))
    one = lambda a, at_a, b, at_b, trig: FA([j], z3.Implies(z3.And(ranged(j, a), kept(a, at_a, at_a(j))), z3.And(
        some(b, at_b, at_a(j)), kept(b, at_b, at_a(j)))), trig(j))
    return z3.And(one(a, at_a, b, at_b, trigger), one(b, at_b, a, at_a, trigger_b))


def mapping_node(V, W, kind, n, parts):
    parts[n] = children_dict(V, n)
    node = W.self_of(kind, parts[n][0], holding_type=SVal(V.eng.const(dict if kind == "dict" else type(
        type.__dict__)), type))
    if kind == "dict":
        node.attrs["dict_metadata"] = V.obj(cls(GENERIC + "dict_data_type_tree.DictMetadata"))
        REG.summaries["DictMetadata", "is_typed_dict"] = lambda i, args, kw: False
    return node


@contract("C04", "hash of the values of a mapping", obligations=(
    "raises nothing", "equal only if the alternatives are", "equal if the alternatives are"), prove_ms=20000)
def _(V):
    W = World(V)
    use_child_hashes()
    parts = {}
    c = node_class("dict")
    nodes = [mapping_node(V, W, "dict", n, parts) for n in "ab"]
    ra, rb = (V.run(find(c, "_get_hash_children"), n) for n in nodes)
    V.no_exception(ra)
    V.no_exception(rb)
    eq = as_term(V.i.equal(ra, rb))
    induction_hypothesis(V)
    (_, sa, ka, va), (_, sb, kb, vb) = parts["a"], parts["b"]
    values = covered_by(sa.n, lambda j: f_text(va(j)), sb.n, lambda j: f_text(vb(j)), va, vb, HINT["int"], HINT["float"])
    V.prove("equal only if the alternatives are", z3.Implies(eq, values))
    V.prove("equal if the alternatives are", z3.Implies(values, eq))
    V.cover()


def mapping_hash(kind):
    @contract("C04", f"hash of a {kind} that is no TypedDict", obligations=(
        "raises nothing", "equal only if key and value alternatives are", "equal if key and value alternatives are"),
        prove_ms=20000)
    def _(V):
        W = World(V)
        key_names()
        c = node_class(kind)
        parts = {}
        of_children = z3.Function("hash_of_values", Val, Val)
        for k in c.__mro__:
            REG.summaries[k.__name__, "_get_hash_children"] = lambda i, args, kw: SVal(of_children(args[0].term))
        a, b, ra, rb, eq = two(V, W, c, lambda n: mapping_node(V, W, kind, n, parts))
        (_, sa, ka, va), (_, sb, kb, vb) = parts["a"], parts["b"]
        names = covered_by(sa.n, lambda j: f_keytype(ka(j)), sb.n, lambda j: f_keytype(kb(j)), ka, kb, S("int"), S(
            "float"))
        values = of_children(a.term) == of_children(b.term)
        V.prove("equal only if key and value alternatives are", z3.Implies(eq, z3.And(names, values)))
        V.prove("equal if key and value alternatives are", z3.Implies(z3.And(names, values), eq))
        V.cover()


mapping_hash("dict")
mapping_hash("proxy")


@contract("C04 C05", "hash of a TypedDict", obligations=("raises nothing", "equal only if the fields are",
                                                       "equal if the fields are"), prove_ms=20000)
def _(V):
    """Fields agree: the same keys, each with the same hint and as required or not (in whatever order)."""
    W = World(V)
    use_child_hashes()
    c = node_class("dict")
    parts = {}
    info = cls(GENERIC + "dict_data_type_tree.KeyInfo")
    REG.fields["KeyInfo", "required"] = lambda i, v: SBool(f_required(v.t))
    REG.summaries["DictMetadata", "is_typed_dict"] = lambda i, args, kw: True

    def make(n):
        d = V.dict(VAL, NodeK(tree_class()), "children_" + n)
        k = V.dict(VAL, NodeK(info), "key_info_" + n)
        parts[n] = d.state, k.state
        return W.self_of(c, d, dict_metadata=V.obj(cls(GENERIC + "dict_data_type_tree.DictMetadata"), key_info=k))

    REG.loops["DictDataTypeTree._get_hash", 0] = LoopSpec(lambda L: entries(V, L, parts["a" if len(seen) == 0 else "b"]))
    seen = []
    a = make("a")
    ra = V.run(find(c, "_get_hash"), a)
    V.no_exception(ra)
    seen.append(1)
    b = make("b")
    rb = V.run(find(c, "_get_hash"), b)
    V.no_exception(rb)
    eq = as_term(V.i.equal(ra, rb))
    induction_hypothesis(V)
    x = z3.Const("x!td", Val)
    (da, ia), (db, ib) = parts["a"], parts["b"]
    required = lambda i, x: required_field(V, i, x)
    fields = z3.ForAll([x], z3.And(z3.Select(da.dom, x) == z3.Select(db.dom, x), z3.Implies(z3.Select(
        da.dom, x), z3.And(required(ia, x) == required(ib, x), f_text(z3.Select(da.cols[0], x)) == f_text(z3.Select(
            db.cols[0], x))))))
    V.prove("equal only if the fields are", z3.Implies(eq, fields))
    V.prove("equal if the fields are", z3.Implies(fields, eq))
    V.cover()


def entries(V, L, part):
    d, info = part
    j = z3.Int("j!ent")
    hashes = V.eng.view(L["hashes"])
    key = z3.Select(d.keyat[0], j)
    entry = hashes.get(j)
    counted = ("one entry per field so far", hashes.n == L.i)
    if entry is None:  # Nothing there yet
        return [counted]
    tag, name, required, child = entry
    as_val = V.eng.to_val
    return [counted,
            ("each with key, need and hash", FA([j], z3.Implies(ranged(j, L.i), z3.And(
                as_val(tag) == as_val("typed_dict"), as_val(name) == key,
                V.eng.bool_term(required) == required_field(V, info, key), as_val(child) == f_nodehash(z3.Select(
                    d.cols[0], key)))), key, as_val(child)))]


f_required = z3.Function("is_required", Val, core.Bool)


def required_field(V, info, x):
    k = x
    return z3.Or(z3.Not(z3.Select(info.dom, k)), f_required(z3.Select(info.cols[0], k)))


def any_hash(V, W, kind, n):
    """What `_get_hash` of any node of the kind returns."""
    if kind in ("InstanceDataTypeTree", "TypeDataTypeTree", "IoDataTypeTree", "ModuleTypeDataTypeTree"):
        path = {"InstanceDataTypeTree": "instance", "TypeDataTypeTree": "type", "IoDataTypeTree": "io",
                "ModuleTypeDataTypeTree": "module"}[kind] + "_data_type_tree." + kind
        c = simple(path)
        node = W.self_of(c, None, data=V.any("data_" + n, type if kind == "TypeDataTypeTree" else None))
    elif kind == "TypedDict":
        c = node_class("dict")
        info = cls(GENERIC + "dict_data_type_tree.KeyInfo")
        REG.fields["KeyInfo", "required"] = lambda i, v: SBool(f_required(v.t))
        meta = V.obj(cls(GENERIC + "dict_data_type_tree.DictMetadata"), key_info=V.dict(VAL, NodeK(info), "info"))
        node = W.self_of(c, V.dict(VAL, NodeK(tree_class()), "children_" + n), dict_metadata=meta)
        REG.summaries["DictMetadata", "is_typed_dict"] = lambda i, args, kw: True
        REG.loops["DictDataTypeTree._get_hash", 0] = LoopSpec(lambda L: [])
    elif kind in ("dict", "proxy"):
        key_names()
        node = mapping_node(V, W, kind, n, {})
        c = node.cls
    else:
        c = node_class(kind)
        node = W.self_of(c, W.nodes("children_" + n))
    r = V.run(find(c, "_get_hash"), node)
    V.no_exception(r)
    return r


ALL_KINDS = ("list", "tuple", "set", "iterator", "series", "dict", "TypedDict", "proxy", "InstanceDataTypeTree",
             "TypeDataTypeTree", "IoDataTypeTree")


@contract("C04", "hashes of different kinds", obligations=["raises nothing"] + [
    f"{a} and {b} are never conflated" for x, a in enumerate(ALL_KINDS) for b in ALL_KINDS[x + 1:]])
def _(V):
    W = World(V)
    use_child_hashes()
    for k in (*node_class("list").__mro__, *node_class("dict").__mro__):
        REG.summaries[k.__name__, "_get_hash_children"] = lambda i, args, kw: V.any("hash_of_children")
    which = V.int("pair").t
    pairs = [(a, b) for x, a in enumerate(ALL_KINDS) for b in ALL_KINDS[x + 1:]]
    for n, (a, b) in enumerate(pairs):
        if n == len(pairs) - 1 or V.branch(which == n):
            ra, rb = any_hash(V, W, a, "a"), any_hash(V, W, b, "b")
            V.prove(f"{a} and {b} are never conflated", z3.Not(as_term(V.i.equal(ra, rb))))
            V.cover()
            return
