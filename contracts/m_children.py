"""C01, C02, C07: which elements of a container get a child."""
from contracts.world import FA, GENERIC, S, World, cls, f_dname, module, node_at, node_class, tree_class
from pyvc import core
from pyvc.core import (
    BOOL, INT, STR, VAL, Bool, Int, ListK, NodeK, Opt, Raised, SBool, SInt, SStr, Str, SVal, Val, f_eqc, ranged, z3,
)
from pyvc.interp import REG, LoopSpec
from pyvc.verify import contract

f_data = z3.Function("data_of", Val, Val)
f_metadata = z3.Function("metadata_of", Val, Val)
f_typed = z3.Function("is_typed_dict", Val, Bool)
f_made = z3.Function("built_from", Val, Val)  # the structure of a value: what its node is equal to


def factory(V, W, parent, depth, log=None):
    """The contract of the factory: a node for exactly the data it is given, below the right parent."""
    def build(i, args, kw):
        child = V.eng.new("child", Val)
        name = V.c.name
        prove = i.eng.prove
        prove(f"{name}: the node is built below this one", z3.And(
            i.eng.to_val(kw["parent"]) == i.eng.to_val(parent), i.eng.int_term(kw["depth"]) == depth + 1))
        prove(f"{name}: the node shares strategies and imports", z3.And(
            kw["strategies"] is W.strategies, kw["imports"] is W.imports))
        e = i.eng.to_val(kw["data"])
        i.eng.assume(z3.And(f_data(child) == e, f_eqc(child) == f_made(e)))
        i.touch_heap("name")
        i.eng.heap["name"] = z3.Store(i.eng.heap["name"], child, i.eng.str_term(kw["name"]))
        if log is not None:
            log.append((child, e))
        return SVal(child, tree_class())

    REG.summaries["factory", "data_type_tree_factory"] = build


def dict_fields():
    F = REG.fields
    F["DictDataTypeTree", "dict_metadata"] = lambda i, v: SVal(f_metadata(v.t), cls(GENERIC + "dict_data_type_tree.DictMetadata"))
    F["DictMetadata", "is_typed_dict"] = lambda i, v: SBool(f_typed(v.t))


def children_contract(repeated):
    what = "one each" if repeated else "one per structure"

    @contract("C01 C02 C07 C19", f"SetAndSequenceOperations.instantiate_children: {what}", prove_ms=20000, obligations=(
        "raises nothing", "no more than the limit", "merged with the configured similarity",
        *(("a child per element, in order",) if repeated else (
            "children of inspected elements only", "every inspected element has an equal child",
            "in the order in which they are first met", "no two are equal"))))
    def _(V):
        W = World(V)
        dict_fields()
        c = cls(GENERIC + "set_and_sequence_operations.SetAndSequenceOperations")
        node = W.self_of("list", ())
        depth = node.attrs["depth"].t
        factory(V, W, node, depth)
        self = V.obj(c, data_type_tree=node)
        data = V.list(VAL, "data")
        dv = V.eng.view(data)
        e = lambda j: V.eng.to_val(dv.get(j))
        limit = W.strategies.attrs["check_max_n_elements_within_container"]
        m = z3.If(limit.none, dv.n, z3.If(limit.value.t < dv.n, limit.value.t, dv.n))
        merged = []

        def merge(i, args, kw):
            merged.append((args[0], kw))
            v = i.eng.view(args[0])
            return core.SeqView(v.n, v.get, "tuple", v.kind)

        O = "SetAndSequenceOperations"
        REG.summaries[O, "_merge_similar_typed_dicts"] = merge
        REG.summaries[O, "_update_existing_typed_dict_child_from_another_equal_child"] = lambda i, args, kw: None
        REG.summaries["DataTypeTree", "rename"] = lambda i, args, kw: i.setattr(args[0], "name", args[1])
        j, k, k2 = z3.Int("j!ic"), z3.Int("k!ic"), z3.Int("k2!ic")
        x = z3.Const("x!ic", Val)

        def spec(v, i, final=False):
            known = v.get(z3.IntVal(0)) is not None
            at = (lambda k: v.get(k).t)
            if repeated:
                out = [("a child per element", v.n == i)]
                if known:
                    out.append(("a child per element, in order", FA([k], z3.Implies(ranged(k, v.n), z3.And(
                        f_data(at(k)) == e(k), f_eqc(at(k)) == f_made(e(k)))), at(k))))
                return out
            src, place = (lambda k: z3.Select(box["src"], k)), (lambda x: z3.Select(box["place"], x))
            out = [("no more than elements", z3.And(v.n >= 0, v.n <= i))]
            if known:
                out += [
                    ("children of inspected elements only", FA([k], z3.Implies(ranged(k, v.n), z3.And(
                        ranged(src(k), i), f_data(at(k)) == e(src(k)), f_eqc(at(k)) == f_made(e(src(k))))), at(k), src(k))),
                    ("in the order in which they are first met", z3.ForAll([k, k2], z3.Implies(
                        z3.And(0 <= k, k < k2, k2 < v.n), src(k) < src(k2)))),
                    ("no two are equal", z3.ForAll([k, k2], z3.Implies(
                        z3.And(0 <= k, k < k2, k2 < v.n), f_eqc(at(k)) != f_eqc(at(k2)))) if final else FA(
                            [k], z3.Implies(ranged(k, v.n), z3.And(z3.Select(box["dom"], f_eqc(at(k))), place(f_eqc(
                                at(k))) == k)), at(k))),
                    ("every inspected element has an equal child", FA([j], z3.Implies(ranged(j, i), z3.And(
                        ranged(place(f_made(e(j))), v.n), src(place(f_made(e(j)))) <= j,
                        z3.Select(box["dom"], f_made(e(j))), f_eqc(at(place(f_made(e(j))))) == f_made(e(j)))), e(j)))]
            return out

        box = {}

        def inv(L):
            v = V.eng.view(L["children"])
            out = [("within the limit", z3.Or(limit.none, L.i <= limit.value.t))]
            if repeated:
                return out + spec(v, L.i)
            box["src"], box["place"] = L.ghost["src"], L.ghost["place"]
            names = L["names_added"]
            box["dom"] = dom = z3.K(Val, z3.BoolVal(False)) if names.items is not None else names.state.dom
            out += [("size", L.ghost["size"] == v.n), *spec(v, L.i)]
            if v.get(z3.IntVal(0)) is not None:
                q = z3.Select(box["place"], x)
                out.append(("names for the children", FA([x], z3.Implies(z3.Select(dom, x), z3.And(
                    ranged(q, v.n), f_eqc(v.get(q).t) == x)), z3.Select(dom, x))))
            return out

        def grown(L):
            return V.eng.implied(V.eng.view(L["children"]).n > L.ghost["size"])

        def src(L):
            n = V.eng.view(L["children"]).n
            return z3.Store(L.ghost["src"], n - 1, L.i) if grown(L) else L.ghost["src"]

        def place(L):
            v = V.eng.view(L["children"])
            return z3.Store(L.ghost["place"], f_eqc(v.get(v.n - 1).t), v.n - 1) if grown(L) else L.ghost["place"]

        R = core.RawK
        REG.loops[O + ".instantiate_children", 0] = LoopSpec(inv, ghosts={} if repeated else {
            "src": (R(z3.ArraySort(Int, Int)), z3.K(Int, z3.IntVal(0)), src),
            "place": (R(z3.ArraySort(Val, Int)), z3.K(Val, z3.IntVal(0)), place),
            "size": (R(Int), z3.IntVal(0), lambda L: V.eng.view(L["children"]).n)})
        REG.loops[O + ".instantiate_children", 1] = LoopSpec()
        r = V.run(c.instantiate_children, self, data, allow_repeated_children=repeated)
        V.no_exception(r)
        v = V.eng.view(r)
        given, kw = merged[0]
        V.prove("merged with the configured similarity", z3.And(
            V.eng.int_term(kw["merge_if_similarity_above"]) == W.strategies.attrs[
                "merge_different_typed_dicts_if_similarity_above"].t,
            V.eng.bool_term(kw["allow_repeated_children"]) == repeated))
        V.prove("no more than the limit", v.n <= m)
        if v.get(z3.IntVal(0)) is None:
            return
        for label, term in spec(v, m, True)[1:]:
            V.prove(label, term)
        V.cover()

    return _


children_contract(True)
children_contract(False)
