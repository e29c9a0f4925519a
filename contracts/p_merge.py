"""C05: when dictionaries are merged, and what becomes of them."""
from contracts.m_children import dict_fields, f_typed, f_metadata
from contracts.world import FA, GENERIC, S, World, cls, f_nodehash, module, node_at, node_class, tree_class
from pyvc import core
from pyvc.core import (
    BOOL, INT, STR, VAL, Bool, Inst, Int, ListK, NodeK, Raised, SBool, SetK, SInt, SStr, Str, SVal, Val, f_eqc, ranged, z3,
)
from pyvc.interp import REG, LoopSpec
from pyvc.verify import contract

O = "SetAndSequenceOperations"
DICT = GENERIC + "dict_data_type_tree."


def is_typed(V, t):
    """Whether a node is a dictionary that is hinted as TypedDict."""
    node = SVal(t, tree_class())
    d = V.i.call(isinstance, (node, node_class("dict")))
    return z3.And(V.eng.bool_term(d), f_typed(f_metadata(t)))


def merge_contract(repeated):
    what = "at every position" if repeated else "once"

    @contract("C05 C01 C02", f"{O}._merge_similar_typed_dicts: {what}", covers=("merged", "separate"), prove_ms=20000, obligations=(
        "raises nothing", "merged exactly if they are similar enough and of the same types", "all dictionaries are merged",
        "separate ones stay as they are", "others keep their place"))
    def _(V):
        W = World(V)
        dict_fields()
        children = V.tuple(NodeK(tree_class()), "children")
        n, at = children.n, lambda j: node_at(children, j)
        similarity, limit, same = V.int("similarity"), V.int("limit"), V.bool("same_types")
        comparison = V.any("comparison", cls(DICT + "DictMetadataComparison"))
        C = "DictMetadataComparison"
        REG.summaries[C, "percentage_similarity"] = lambda i, args, kw: similarity
        REG.summaries[C, "all_corresponding_value_types_are_same_type"] = lambda i, args, kw: same
        box = {}

        def compare(i, args, kw):
            box["compared"] = i.iterate(args[0].view if isinstance(args[0], core.Cell) else getattr(args[0], "view", args[0]))
            return comparison

        merged = W.node("merged", node_class("dict"))
        V.assume(is_typed(V, merged.t))

        def merge(i, args, kw):
            box["merged"] = args
            return merged

        D = "DictDataTypeTree"
        REG.summaries[D, "compare_multiple_typed_dicts_based_trees"] = compare
        REG.summaries[D, "from_multiple_dict_data_type_trees"] = merge
        j, k = z3.Int("j!mg"), z3.Int("k!mg")
        typed = lambda j: is_typed(V, at(j))
        e = z3.Const("e!mg", Val)
        # Equal nodes are of the same kind (C04)
        V.assume(FA([e], z3.Implies(f_eqc(e) == f_eqc(merged.t), is_typed(V, e)), f_eqc(e)))

        def spec(v, i, src, place, only):
            get = lambda k: v.get(k).t
            if v.get(z3.IntVal(0)) is None:
                return [("nothing yet", i == 0)]
            kept = lambda k: z3.If(typed(src(k)), merged.t, at(src(k)))
            out = [("no child is invented", FA([k], z3.Implies(ranged(k, v.n), z3.And(ranged(src(k), i), get(
                        k) == kept(k))), get(k), src(k))),
                   ("others keep their place", FA([j], z3.Implies(z3.And(ranged(j, i), z3.Not(typed(j))), z3.And(
                       ranged(place(j), v.n), src(place(j)) == j)), at(j))),
                   ("the order is kept", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < v.n), src(j) < src(k))))]
            if repeated:
                return out + [("as many as before", v.n == i), ("every position", FA([k], z3.Implies(
                    ranged(k, v.n), src(k) == k), src(k)))]
            return out + [("the merged one stands for each", FA([j], z3.Implies(z3.And(ranged(j, i), typed(j)), z3.And(
                              ranged(only, v.n), typed(src(only)), src(only) <= j)), at(j))),
                          ("only once", FA([k], z3.Implies(z3.And(ranged(k, v.n), typed(src(k))), k == only), src(k)))]

        sel = lambda a: (lambda k: z3.Select(a, k))

        def inv(L):
            v = V.eng.view(L["new_children"])
            return [("size", L.ghost["size"] == v.n)] + spec(v, L.i, sel(L.ghost["src"]), sel(L.ghost["place"]), L.ghost["only"])

        view_of = lambda L: V.eng.view(L["new_children"])
        grown = lambda L: V.eng.implied(view_of(L).n > L.ghost["size"])
        R = core.RawK
        keep = {}
        REG.loops[f"{O}._merge_similar_typed_dicts", 0] = LoopSpec(lambda L: keep.update(L.ghost) or inv(L), ghosts={
            "src": (R(z3.ArraySort(Int, Int)), z3.K(Int, z3.IntVal(0)), lambda L: z3.Store(L.ghost["src"], view_of(
                L).n - 1, L.i) if grown(L) else L.ghost["src"]),
            "place": (R(z3.ArraySort(Int, Int)), z3.K(Int, z3.IntVal(0)), lambda L: z3.Store(L.ghost[
                "place"], L.i, view_of(L).n - 1)),
            "only": (R(Int), z3.IntVal(-1), lambda L: view_of(L).n - 1 if grown(L) and V.eng.implied(typed(
                L.i)) else L.ghost["only"]),
            "size": (R(Int), z3.IntVal(0), lambda L: view_of(L).n)})
        r = V.run(cls(GENERIC + "set_and_sequence_operations." + O)._merge_similar_typed_dicts, children,
                  merge_if_similarity_above=limit, allow_repeated_children=repeated)
        V.no_exception(r)
        should = z3.And(similarity.t >= limit.t, same.t)
        V.prove("merged exactly if they are similar enough and of the same types", should == ("merged" in box))
        v = V.eng.view(r)
        if "merged" not in box:
            V.prove("separate ones stay as they are", z3.And(v.n == n, z3.ForAll([k], z3.Implies(
                ranged(k, n), v.get(k).t == at(k)))))
            V.cover("separate")
            return
        given = box["merged"][1].view
        V.prove("all dictionaries are merged", z3.And(
            z3.ForAll([k], z3.Implies(ranged(k, given.n), is_typed(V, given.get(k).t))),
            z3.ForAll([j], z3.Implies(z3.And(ranged(j, n), typed(j)), z3.Exists([k], z3.And(ranged(
                k, given.n), given.get(k).t == at(j)))))))
        V.prove("those that are merged are those that are compared", z3.And(box["compared"].n == n, z3.ForAll([k], z3.Implies(
            ranged(k, n), box["compared"].get(k).t == at(k)))))
        for label, t in spec(v, n, sel(keep["src"]), sel(keep["place"]), keep["only"]):
            V.prove(label, t)
        V.cover("merged")

    return _


merge_contract(True)
merge_contract(False)


def metadata_of(V, W, kk=VAL, **attrs):
    data = V.dict(kk, VAL, "data")
    m = cls(DICT + "DictMetadata")
    return V.obj(m, _data=data, _strategies=W.strategies, hidden_key_prefix=V.str("prefix"), **attrs), data


def all_strings(data):
    k = z3.Int("k!str")
    return FA([k], z3.Implies(ranged(k, data.state.n), core.is_str(z3.Select(data.state.keyat[0], k))), z3.Select(
        data.state.keyat[0], k))


@contract("C05 C06", "DictMetadata.is_typed_dict", covers=("yes", "no"), obligations=(
    "raises nothing", "exactly with keys that are strings and if the strategy says so"))
def _(V):
    W = World(V)
    m, data = metadata_of(V, W)
    r = V.run(m.cls.is_typed_dict, m)
    V.no_exception(r)
    yes = z3.And(all_strings(data), W.strategies.attrs["dict_strategy"].t == S("TypedDict"))
    V.prove("exactly with keys that are strings and if the strategy says so", V.eng.bool_term(r) == yes)
    V.cover("yes" if V.branch(V.eng.bool_term(r)) else "no")


@contract("C05 C13", "DictMetadata.get_keys", covers=("all strings", "others"), obligations=(
    "raises nothing", "every key but documentation"))
def _(V):
    W = World(V)
    m, data = metadata_of(V, W)
    dom = data.state.dom
    r = V.run(m.cls.get_keys, m)
    V.no_exception(r)
    x = z3.Const("x!gk", Val)
    hidden = z3.PrefixOf(m.attrs["hidden_key_prefix"].t, Val.s(x))
    has = lambda x: V.i.contains(r, SVal(x))
    if V.branch(all_strings(data)):
        V.prove("every key but documentation", z3.ForAll([x], members(V, r)(x) == z3.And(z3.Select(dom, x), z3.Not(hidden))))
        V.cover("all strings")
    else:
        V.prove("every key but documentation", z3.ForAll([x], members(V, r)(x) == z3.Select(dom, x)))
        V.cover("others")


def members(V, s):
    """The membership of a set as a function of Val."""
    if s.items is not None:
        return lambda x: z3.Or(*(V.eng.to_val(e) == x for e in s.items)) if s.items else z3.BoolVal(False)
    if s.kind.sorts[0] == Str:
        return lambda x: z3.And(core.is_str(x), z3.Select(s.dom, Val.s(x)))
    return lambda x: z3.Select(s.dom, x)


f_dict = {n: z3.Function(f"dict_of_metadata.{n}", Val, s) for n, s in (
    ("n", Int), ("keyat", z3.ArraySort(Int, Val)), ("pos", z3.ArraySort(Val, Int)), ("dom", z3.ArraySort(Val, Bool)),
    ("value", z3.ArraySort(Val, Val)))}
f_keys = z3.Function("visible_keys", Val, z3.ArraySort(Val, Bool))


@contract("C05 C01", "DictMetadata.compare_multiple_dicts", covers=("some", "none"), prove_ms=20000, obligations=(
    "raises nothing", "common keys are those of all", "other keys are those of some", "types of the values of every key",
    "float covers int, and no other type is left out"))
def _(V):
    W = World(V)
    m = cls(DICT + "DictMetadata")
    REG.fields["DictMetadata", "_data"] = dictionary(V, f_dict)
    REG.summaries["DictMetadata", "get_keys"] = lambda i, args, kw: i.eng.set_cell(kind=VAL, dom=f_keys(
        i.eng.to_val(args[0])))
    metas = V.tuple(NodeK(m), "metadata")
    n, at = metas.n, lambda j: node_at(metas, j)
    f_type = core.f_type
    c = Collected(V, at, "dom", f_dict, lambda d, x: core.f_type(z3.Select(f_dict["value"](at(d)), x)), int, float)
    c.loops("DictMetadata.compare_multiple_dicts", "value_types")
    d, x, has = c.d, c.x, c.has
    r = V.call_star(m.compare_multiple_dicts, metas)
    V.no_exception(r)
    common, other, types = (V.i.force(r.attrs[a]) for a in ("common_keys", "non_common_keys", "value_types"))
    every = lambda x: z3.ForAll([d], z3.Implies(ranged(d, n), z3.Select(f_keys(at(d)), x)))
    some = lambda x: z3.Exists([d], z3.And(ranged(d, n), z3.Select(f_keys(at(d)), x)))
    V.prove("common keys are those of all", z3.ForAll([x], members(V, common)(x) == z3.And(n > 0, every(x))))
    V.prove("other keys are those of some", z3.ForAll([x], members(V, other)(x) == z3.And(some(x), z3.Not(every(x)))))
    V.cover("some" if V.branch(n > 0) else "none")
    c.prove(types, n)


class Collected:
    """Loops that collect, per key, what the values of several dictionaries are (int gives way to float)."""

    def __init__(self, V, at, dom, dicts, typ, int_, float_):
        self.V, self.at, self.dicts, self.typ = V, at, dicts, typ
        self.INT, self.FLOAT = (v if z3.is_expr(v) else V.eng.to_val(v) for v in (int_, float_))
        self.d, self.x, self.t = z3.Int("d!cm"), z3.Const("x!cm", Val), z3.Const("t!cm", Val)
        self.has = lambda d, x: z3.Select(dicts["dom"](at(d)), x)
        self.box = {}

    def exactly(self, vt, g, known, within):
        """vt holds what is known so far, and nothing else. `g` tells which dictionary it stems from."""
        d, x, t = self.d, self.x, self.t
        if vt.items is not None:
            return z3.Not(z3.Exists([d, x], known(d, x)))
        st = vt.state
        w = z3.Select(z3.Select(g, x), t)
        return z3.And(
            FA([d, x], z3.Implies(known(d, x), z3.And(z3.Select(st.dom, x), z3.Select(z3.Select(
                st.cols[0], x), self.typ(d, x)))), self.typ(d, x)),
            FA([x, t], z3.Implies(z3.And(z3.Select(st.dom, x), z3.Select(z3.Select(st.cols[0], x), t)), z3.And(
                within(w, x), self.typ(w, x) == t)), z3.Select(z3.Select(st.cols[0], x), t)))

    def covered(self, old, now, done):
        x, t = self.x, self.t
        was = lambda x, t: z3.Select(z3.Select(old.cols[0], x), t)
        return FA([x, t], z3.Implies(z3.Select(old.dom, x), z3.Select(z3.Select(now.cols[0], x), t) == z3.And(
            was(x, t), z3.Not(z3.And(done(x), t == self.INT, was(x, self.FLOAT))))), z3.Select(z3.Select(
                now.cols[0], x), t))

    def loops(self, name, local):
        box, has, R = self.box, self.has, core.RawK

        def outer(L):
            box["i"], box["who"] = L.i, L.ghost["who"]
            known = lambda d, x: z3.And(ranged(d, L.i), has(d, x))
            return [("what the dictionaries so far hold", self.exactly(L[local], L.ghost["who"], known, known))]

        def inner(L):
            i = box["i"]
            pos = lambda x: z3.Select(self.dicts["pos"](self.at(i)), x)
            known = lambda d, x: z3.And(has(d, x), z3.Or(ranged(d, i), z3.And(d == i, pos(x) < L.i)))
            box["inner"] = L.ghost["who"]
            return [("what the dictionaries so far hold", self.exactly(L[local], L.ghost["who"], known, known))]

        def step(L):
            key = self.V.eng.to_val(L.seq.get(L.i)[0])
            g, i = L.ghost["who"], box["i"]
            return z3.Store(g, key, z3.Store(z3.Select(g, key), self.typ(i, key), i))

        def third(L):
            vt = L[local]
            if vt.items is not None:
                box["old"] = None
                return [("nothing", not vt.items)]
            old, now = box.setdefault("old", vt.state), vt.state
            return [("the same keys", z3.And(now.n == old.n, now.keyat[0] == old.keyat[0], now.pos == old.pos,
                                             now.dom == old.dom)),
                    ("int gives way to float", self.covered(old, now, lambda x: z3.Select(old.pos, x) < L.i))]

        WHO = R(z3.ArraySort(Val, z3.ArraySort(Val, Int)))
        REG.loops[name, 0] = LoopSpec(outer, ghosts={"who": (WHO, z3.K(Val, z3.K(Val, z3.IntVal(-1))), lambda L: box[
            "inner"])})
        REG.loops[name, 1] = LoopSpec(inner, ghosts={"who": (WHO, lambda i, f: box["who"], step)})
        REG.loops[name, 2] = LoopSpec(third)

    def prove(self, found, n):
        V, d, x = self.V, self.d, self.x
        known = lambda d, x: z3.And(ranged(d, n), self.has(d, x))
        if found.items is not None:
            V.prove("types of the values of every key", z3.ForAll([d, x], z3.Implies(ranged(d, n), z3.Not(self.has(d, x)))))
            V.prove("float covers int, and no other type is left out", True)
            return
        old, now = self.box["old"], found.state
        before = V.eng.dict_cell()
        before.state, before.items = old, None
        V.prove("types of the values of every key", self.exactly(before, self.box["who"], known, known))
        V.prove("float covers int, and no other type is left out", z3.And(now.dom == old.dom, self.covered(
            old, now, lambda x: z3.BoolVal(True))))


f_kids = {n: z3.Function(f"children_of_dict.{n}", Val, s) for n, s in (
    ("n", Int), ("keyat", z3.ArraySort(Int, Val)), ("pos", z3.ArraySort(Val, Int)), ("dom", z3.ArraySort(Val, Bool)),
    ("value", z3.ArraySort(Val, Val)))}


def dictionary(V, functions, vk=VAL):
    """A dictionary that is a function of what it belongs to."""
    def build(t):
        f = functions
        cell = V.eng.dict_cell()
        cell.state = core.DictState(VAL, vk, f["n"](t), [f["keyat"](t)], f["pos"](t), f["dom"](t), [f["value"](t)])
        cell.items = None
        V.i.assume_dict(cell.state)
        cell.owner = kind, t, cell.state
        return cell

    kind = core.OwnK(functions["n"].name(), build)
    return lambda i, v: build(v.t)


@contract("C05 C01", "DictDataTypeTree.compare_multiple_typed_dicts_based_trees", covers=("some",), prove_ms=20000, obligations=(
    "raises nothing", "types of the values of every key", "float covers int, and no other type is left out",
    "exactly the TypedDicts are compared"))
def _(V):
    W = World(V)
    dict_fields()
    D = node_class("dict")
    REG.fields["DictDataTypeTree", "children"] = dictionary(V, f_kids, NodeK(tree_class()))
    REG.summaries["DataTypeTree", "_get_hash"] = lambda i, args, kw: SVal(f_nodehash(i.eng.to_val(args[0])))
    trees = V.tuple(NodeK(D), "trees")
    box = {}
    C = "DictMetadataComparison"
    common, other, types = V.any("common"), V.any("other"), V.any("types")

    def compare(i, args, kw):
        box["view"] = args[-1].view
        return V.obj(cls(DICT + C), common_keys=common, non_common_keys=other, value_types=types, value_structures=None)

    REG.summaries["DictMetadata", "compare_multiple_dicts"] = compare
    name = "DictDataTypeTree.compare_multiple_typed_dicts_based_trees"
    f_id = V.eng.to_val(V.call(id, float)), V.eng.to_val(V.call(id, int))
    holder = {}
    at = lambda d: holder["view"].get(d).t
    c = Collected(V, at, "dom", f_kids, lambda d, x: f_nodehash(z3.Select(f_kids["value"](at(d)), x)), f_id[1], f_id[0])
    c.loops(name, "value_structures")
    first = REG.loops[name, 0].inv

    def outer(L):
        holder["view"] = V.eng.view(L["typed_dicts"])
        return first(L)

    REG.loops[name, 0].inv = outer
    r = V.call_star(D.compare_multiple_typed_dicts_based_trees, trees)
    V.no_exception(r)
    v = box["view"]
    j, k = z3.Int("j!ct"), z3.Int("k!ct")
    what = "exactly the TypedDicts are compared"
    source = holder["view"].source
    V.prove(what, v.n == holder["view"].n)
    V.prove(what, z3.ForAll([k], z3.Implies(ranged(k, v.n), z3.And(v.get(k).t == f_metadata(at(k)), f_typed(f_metadata(
        at(k)))))))
    kept = lambda j: z3.And(ranged(source[2][j], v.n), at(source[2][j]) == node_at(trees, j)) if source else z3.Exists(
        [k], z3.And(ranged(k, v.n), at(k) == node_at(trees, j)))
    V.prove(what, z3.ForAll([j], z3.Implies(z3.And(ranged(j, trees.n), f_typed(f_metadata(node_at(trees, j)))), kept(j))))
    V.prove(what, z3.ForAll([k], z3.Implies(ranged(k, v.n), z3.Exists([j], z3.And(ranged(j, trees.n), at(k) == node_at(
        trees, j))))) if source is None else z3.ForAll([k], z3.Implies(ranged(k, v.n), at(k) == node_at(trees, source[1][k]))))
    V.prove("the rest of the comparison stays", z3.And(r.attrs["common_keys"].t == common.t, r.attrs[
        "non_common_keys"].t == other.t, r.attrs["value_types"].t == types.t))
    c.prove(V.i.force(r.attrs["value_structures"]), v.n)
    V.cover("some")
