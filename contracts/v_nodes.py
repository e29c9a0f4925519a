"""C01, C03, C08, C09, C18: how a node is made, and how the texts of its definitions become one."""
import inspect


from contracts.p_merge import dictionary, f_kids
from contracts.q_metadata import f_read
from contracts.world import FA, KINDS, S, World, cls, module, node_at, node_class, tree_class
from pyvc import core
from pyvc.core import INT, STR, VAL, Bool, Int, NodeK, OptK, Raised, SBool, SInt, SStr, Str, SVal, Val, ranged, z3
from pyvc.interp import REG, LoopSpec, SummaryOf, as_term
from pyvc.verify import contract

SIMPLE = "data_type_tree.simple_data_type_tree."
f_compatible = z3.Function("is_string_python_keyword_compatible", Str, Bool)


def constructed(kind, path, wraps, named=True, any_data=False):
    @contract("C08 C09", f"DataTypeTree.__init__: {kind}", covers=("made",) + (("bad name",) if named else ()) + (
        () if any_data else ("other data",)), obligations=(
            "refused exactly if the name or the data do not fit", "a refused node looks at nothing",
            "children are those of the data", "the height is taken of the children", "what is given is kept",
            "imports are shared or new"))
    def _(V):
        c = cls(path)
        data, name, depth = V.any("data"), V.str("name"), V.int("depth")
        strategies, parent = V.any("strategies"), V.any("parent")
        shared = V.any("imports", module("utils.import_manager").ImportManager)
        is_shared = V.branch(V.bool("imports are shared").t)
        self = V.obj(c)
        log = []
        s = REG.summaries
        s["utils", "is_string_python_keyword_compatible"] = lambda i, args, kw: SBool(f_compatible(i.eng.str_term(
            *args, *kw.values())))
        children, height = V.any("children"), V.int("height")

        def step(what, value):
            def summary(i, args, kw):
                log.append((what, dict(self.attrs), args[1:]))
                return value
            return summary

        for method, value in (("__pre_child_instantiation__", None), ("_instantiate_children", children),
                              ("_get_height", height), ("__post_child_instantiation__", None)):
            for k in c.__mro__:
                s[k.__name__, method] = step(method, value)
        r = V.run(tree_class().__init__, self, data, name, imports=shared if is_shared else None, depth=depth,
                  strategies=strategies, parent=parent)
        good_name = f_compatible(name.t) if named else z3.BoolVal(True)
        good_data = z3.BoolVal(True) if any_data else z3.Or(*(as_term(V.i.truth_term(V.call(
            isinstance, data, w))) for w in wraps))
        if isinstance(r, Raised):
            V.prove("refused exactly if the name or the data do not fit", z3.And(z3.Not(z3.And(good_name, good_data)), r.cls
                    is module("data_type_tree.data_type_tree").DataTypeTreeError))
            V.prove("a refused node looks at nothing", not log)
            V.cover("bad name" if named and V.branch(z3.Not(good_name)) else "other data")
            return
        V.prove("refused exactly if the name or the data do not fit", z3.And(good_name, good_data))
        steps = [w for w, *_ in log]
        a = self.attrs
        V.prove("children are those of the data", z3.And(
            z3.BoolVal(steps.count("_instantiate_children") == 1 and steps.count("_get_height") == 1
                       and a["children"] is children), *(as_term(V.i.identical(args[0], before["data"]))
                                                         for w, before, args in log if w == "_instantiate_children")))
        V.prove("what comes before children comes before", steps.index("_instantiate_children") > steps.index(
            "__pre_child_instantiation__") if "__pre_child_instantiation__" in steps else True)
        V.prove("the height is taken of the children", a["height"] is height and all(
            before.get("children") is children for w, before, _ in log if w == "_get_height"))
        needed = ("name", "strategies", "depth", "imports", "parent", "holding_type", "data")
        V.prove("children know everything", all(n in before for w, before, _ in log if w == "_instantiate_children"
                                                for n in needed))
        V.prove("what is given is kept", z3.And(
            V.eng.str_term(a["name"]) == name.t, V.eng.int_term(a["depth"]) == depth.t,
            z3.BoolVal(a["strategies"] is strategies and a["parent"] is parent and a["data"] is data),
            V.eng.to_val(a["holding_type"]) == core.f_type(data.t)))
        V.prove("imports are shared or new", a["imports"] is shared if is_shared else (
            a["imports"] is not shared and V.call(len, a["imports"].attrs["_set"]) == 0))
        V.cover("made")


constructed("list", KINDS["list"], (list,))
constructed("tuple", KINDS["tuple"], (tuple,))
constructed("set", KINDS["set"], (set, frozenset))
constructed("dict", KINDS["dict"], (dict,), named=False)
constructed("instance", SIMPLE + "instance_data_type_tree.InstanceDataTypeTree", (), any_data=True)


@contract("C18 C08", "DataTypeTree._format_node_strings", covers=("several", "none"), obligations=(
    "raises nothing", "every text once and in order", "apart from empty lines nothing is added"))
def _(V):
    W = World(V)
    texts = V.tuple(STR, "texts")
    view = V.eng.view(texts)
    joined = []
    whole = V.str("joined")

    def join(i, v, args, kw):
        joined.append((i.eng.str_term(v), i.eng.view(i.iterate(args[0])) if not isinstance(i.iterate(args[0]), list)
                       else i.eng.view(tuple(i.iterate(args[0])))))
        return whole

    REG.methods["str", "join"] = join
    k = z3.Int("k!fn")
    arr = V.eng.array_of(view, STR)

    def padded(t, s):
        nl = S("\n")
        return z3.Or(t == s, t == z3.Concat(nl, s), t == z3.Concat(s, nl), t == z3.Concat(nl, s, nl))

    def inv(L):
        now = V.eng.view(L["strs_py"])
        out = V.eng.array_of(now, STR)
        return [("as many texts", now.n == view.n),
                ("only padded", z3.ForAll([k], z3.Implies(ranged(k, view.n), padded(z3.Select(out, k), z3.Select(arr, k))))),
                ("the later ones untouched", z3.ForAll([k], z3.Implies(z3.And(k >= L.i + 2, k < view.n), z3.Select(
                    out, k) == z3.Select(arr, k))))]

    REG.loops["DataTypeTree._format_node_strings", 0] = LoopSpec(lambda L: [("ends with the first", L.i == 0)])
    REG.loops["DataTypeTree._format_node_strings", 1] = LoopSpec(inv)
    r = V.run(tree_class()._format_node_strings, W.self_of("list", ()), texts)
    V.no_exception(r)
    if V.branch(view.n == 0):
        V.prove("nothing of nothing", V.eng.str_term(r) == S(""))
        V.cover("none")
        return
    V.prove("joined once", len(joined) == 1 and r is whole)
    sep, got = joined[0]
    out = V.eng.array_of(got, STR)
    V.prove("every text once and in order", z3.And(got.n == view.n, z3.ForAll([k], z3.Implies(ranged(k, view.n), padded(
        z3.Select(out, k), z3.Select(arr, k))))))
    V.prove("apart from empty lines nothing is added", z3.Or(*(sep == S("\n" * m) for m in (1, 2, 3, 4))))
    V.cover("several")


@contract("C18", "DataTypeTree.get_str_all_nodes", obligations=("raises nothing", "the texts asked for, formatted"))
def _(V):
    W = World(V)
    c = tree_class()
    include, inherit = V.bool("include_imports"), V.bool("make_parent_class_inherit_from_original_type")
    texts, whole = V.any("texts"), V.str("whole")
    asked = []

    def unformatted(i, args, kw):
        b = inspect.signature(c.get_strs_all_nodes_unformatted).bind(*args, **kw)
        b.apply_defaults()
        asked.append(b.arguments)
        return texts

    def layout(i, args, kw):
        asked.append(args[-1] if len(args) > 1 else next(iter(kw.values())))
        return whole

    REG.summaries["DataTypeTree", "get_strs_all_nodes_unformatted"] = unformatted
    REG.summaries["DataTypeTree", "_format_node_strings"] = layout
    node = W.self_of("list", ())
    r = V.run(c.get_str_all_nodes, node, include, inherit)
    V.no_exception(r)
    same = lambda a, b: as_term(V.i.equal(a, b))
    V.prove("the texts asked for, formatted", z3.And(
        z3.BoolVal(len(asked) == 2 and asked[1] is texts and r is whole),
        same(asked[0]["include_imports"], include), same(asked[0]["make_parent_class_inherit_from_original_type"], inherit)))
    V.cover()


@contract("C08 C03", "DataTypeTree.rename", obligations=("raises nothing", "renamed from its own name on"))
def _(V):
    W = World(V)
    c = tree_class()
    node, new = W.self_of("list", ()), V.str("new_name")
    name0 = node.attrs["name"]
    asked = []

    def rename(i, args, kw):
        asked.append(inspect.signature(c._rename).bind(*args, **kw).arguments)

    REG.summaries["DataTypeTree", "_rename"] = rename
    r = V.run(c.rename, node, new)
    V.no_exception(r)
    V.prove("renamed from its own name on", z3.And(
        z3.BoolVal(len(asked) == 1 and asked[0]["self"] is node), V.eng.str_term(asked[0]["new_name"]) == new.t,
        V.eng.int_term(asked[0]["len_old_name"]) == z3.Length(name0.t)))
    V.cover()


@contract("C01 C05", "DictDataTypeTree._restore_children_of_consumed_iterators", prove_ms=20000, obligations=(
    "raises nothing", "the keys stay", "every child stands for data of its type", "no structure of these data is lost",
    "the height is taken of these children"))
def _(V):
    W = World(V)
    D = node_class("dict")
    REG.fields["DictDataTypeTree", "data"] = dictionary(V, f_read)
    REG.fields["DictDataTypeTree", "children"] = dictionary(V, f_kids, NodeK(tree_class()))
    trees = V.tuple(NodeK(D), "trees")
    n, at = trees.n, lambda j: node_at(trees, j)
    data = V.dict(VAL, VAL, "data")
    children = V.dict(VAL, NodeK(tree_class()), "children")
    before = children.state
    node = W.self_of(D, children, data=data)
    x, t, j = z3.Const("x!rc", Val), z3.Int("t!rc"), z3.Int("j!rc")
    key = lambda t, j: z3.Select(f_kids["keyat"](at(t)), j)
    child = lambda t, x: z3.Select(f_kids["value"](at(t)), x)
    has = lambda t, x: z3.Select(f_kids["dom"](at(t)), x)
    count = lambda t: f_kids["n"](at(t))
    datum = lambda t, x: z3.Select(f_read["value"](at(t)), x)
    # The merged dictionary has every key of the others, and so has each its own
    V.assume(FA([t, x], z3.Implies(z3.And(ranged(t, n), has(t, x)), z3.And(
        z3.Select(before.dom, x), z3.Select(data.state.dom, x), z3.Select(f_read["dom"](at(t)), x))), has(t, x)))
    V.assume(FA([x], z3.Implies(z3.Select(before.dom, x), z3.Select(data.state.dom, x)), z3.Select(before.dom, x)))
    fits = lambda t, x: z3.And(ranged(t, n), has(t, x), core.f_type(datum(t, x)) == core.f_type(z3.Select(
        data.state.cols[0], x)))
    heights = []
    height = V.int("height")

    def measure(i, args, kw):
        heights.append((args[0], children.state))
        return height

    REG.summaries["DataTypeTree", "_get_height"] = measure

    def rename(i, args, kw):
        i.touch_heap("name")
        i.eng.heap["name"] = i.eng.new("heap.name", i.eng.heap["name"].sort())

    REG.summaries["DataTypeTree", "rename"] = rename
    R = core.RawK
    box = {}

    def facts(i, j=None):
        """After i trees, and the first j children of the next one."""
        st = children.state
        frm, last = box["from"], box["last"]
        within = lambda t, x: z3.And(t == i, has(t, x), z3.Select(f_kids["pos"](at(t)), x) < j)
        seen = lambda t, x: z3.Or(ranged(t, i), within(t, x)) if j is not None else ranged(t, i)
        now = lambda x: z3.Select(st.cols[0], x)
        return [("the keys stay", z3.And(st.dom == before.dom, st.n == before.n, st.keyat[0] == before.keyat[0])),
                ("children are those before or of a tree", FA([x], z3.Or(now(x) == z3.Select(before.cols[0], x), z3.And(
                    fits(z3.Select(frm, x), x), now(x) == child(z3.Select(frm, x), x))), now(x))),
                ("equal to the last one that fits", FA([t, x], z3.Implies(z3.And(seen(t, x), fits(t, x)), z3.And(
                    fits(z3.Select(last, x), x), core.f_eqc(now(x)) == core.f_eqc(child(z3.Select(last, x), x)))),
                    has(t, x)))]

    def outer(L):
        box.update({"i": L.i, "from": L.ghost["from"], "last": L.ghost["last"]})
        return facts(L.i)

    def inner(L):
        box.update({"from": L.ghost["from"], "last": L.ghost["last"]})
        return facts(box["i"], L.i)

    def here(L):
        k = V.eng.to_val(L.seq.get(L.i)[0])
        return k, box["i"]

    def last(L):
        k, i = here(L)
        return z3.If(fits(i, k), z3.Store(L.ghost["last"], k, i), L.ghost["last"])

    def origin(L):
        k, i = here(L)
        return z3.If(z3.And(fits(i, k), z3.Select(children.state.cols[0], k) == child(i, k)), z3.Store(
            L.ghost["from"], k, i), L.ghost["from"])

    name = "DictDataTypeTree._restore_children_of_consumed_iterators"
    kind, none = core.RawK(z3.ArraySort(Val, Int)), z3.K(Val, z3.IntVal(-1))
    REG.loops[name, 0] = LoopSpec(outer, ghosts={g: (kind, none, lambda L, g=g: box[g]) for g in ("from", "last")})
    REG.loops[name, 1] = LoopSpec(inner, ghosts={
        "from": (kind, lambda i, f: box["from"], origin), "last": (kind, lambda i, f: box["last"], last)})
    r = V.run(D._restore_children_of_consumed_iterators, node, trees)
    V.no_exception(r)
    V.prove("the same dictionary", node.attrs["children"] is children)
    st = children.state
    now = lambda x: z3.Select(st.cols[0], x)
    V.prove("the keys stay", z3.And(st.dom == before.dom, st.n == before.n, st.keyat[0] == before.keyat[0]))
    V.prove("every child stands for data of its type", z3.ForAll([x], z3.Or(
        now(x) == z3.Select(before.cols[0], x), z3.Exists([t], z3.And(fits(t, x), now(x) == child(t, x))))))
    V.prove("no structure of these data is lost", z3.ForAll([t, x], z3.Implies(fits(t, x), z3.Exists([j], z3.And(
        fits(j, x), core.f_eqc(now(x)) == core.f_eqc(child(j, x)))))))
    V.prove("the height is taken of these children", len(heights) == 1 and heights[0][0] is node and heights[0][
        1] is children.state and node.attrs["height"] is height)
    V.cover()


@contract("C01 C05 C13", "DictDataTypeTree.update_data_and_metadata", obligations=(
    "raises nothing", "the metadata of the other are added", "the data are a copy of what the metadata hold"))
def _(V):
    W = World(V)
    D = node_class("dict")
    M = cls(KINDS["dict"].rsplit(".", 1)[0] + ".DictMetadata")
    mine, theirs = V.any("mine", M), V.any("theirs", M)
    node, other = W.self_of(D, (), dict_metadata=mine), W.self_of(D, (), dict_metadata=theirs)
    held = V.dict(VAL, VAL, "held")
    told = []
    REG.summaries["DictMetadata", "update"] = lambda i, args, kw: (told.append((*args, *kw.values())), held)[1]
    r = V.run(D.update_data_and_metadata, node, other)
    V.no_exception(r)
    V.prove("the metadata of the other are added", len(told) == 1 and told[0][0] is mine and told[0][1] is theirs)
    data, h = node.attrs["data"], held.state
    d = V.i.symbolic_dict(data, VAL, VAL)
    x = z3.Const("x!ud", Val)
    V.prove("the data are a copy of what the metadata hold", z3.And(data is not held, d.n == h.n, d.keyat[0] == h.keyat[
        0], z3.ForAll([x], z3.And(z3.Select(d.dom, x) == z3.Select(h.dom, x), z3.Implies(z3.Select(h.dom, x), z3.Select(
            d.cols[0], x) == z3.Select(h.cols[0], x))))))
    V.cover()


OPERATIONS = "SetAndSequenceOperations"


@contract("C01 C05 C13", f"{OPERATIONS}._update_existing_typed_dict_child_from_another_equal_child", obligations=(
    "raises nothing", "exactly the equal dictionaries take over the information"))
def _(V):
    W = World(V)
    D = node_class("dict")
    c = cls("data_type_tree.generic_type.set_and_sequence_operations." + OPERATIONS)
    children = V.list(NodeK(tree_class()), "children")
    view = V.eng.view(children)
    at = lambda j: view.get(j).t
    child = W.node("child", D)
    box, j = {}, z3.Int("j!ue")

    def update(i, args, kw):
        b = inspect.signature(D.update_data_and_metadata).bind(*args, **kw).arguments
        V.prove("information of that child", b["other"] is child)
        box["told"] = z3.Store(box["told"], box["i"], z3.BoolVal(True))
        V.prove("taken over by the child at hand", i.eng.to_val(b["self"]) == at(box["i"]))

    REG.fields["DataTypeTree", "update_data_and_metadata"] = lambda i, v: SummaryOf(update, v)
    due = lambda j: z3.And(core.f_eqc(at(j)) == core.f_eqc(child.t), as_term(V.i.truth_term(V.call(
        isinstance, SVal(at(j), tree_class()), D))))

    def inv(L):
        box.update(told=L.ghost["told"], i=L.i)
        return [("those that are due", FA([j], z3.Implies(ranged(j, L.i), z3.Select(box["told"], j) == due(j)), at(j))),
                ("no other", z3.ForAll([j], z3.Implies(z3.Select(box["told"], j), ranged(j, L.i))))]

    REG.loops[f"{OPERATIONS}._update_existing_typed_dict_child_from_another_equal_child", 0] = LoopSpec(inv, ghosts={
        "told": (core.RawK(z3.ArraySort(Int, Bool)), z3.K(Int, z3.BoolVal(False)), lambda L: box["told"])})
    r = V.run(c._update_existing_typed_dict_child_from_another_equal_child, V.obj(c, data_type_tree=W.self_of("list", ())),
              children, child)
    V.no_exception(r)
    V.prove("exactly the equal dictionaries take over the information", z3.ForAll([j], z3.Select(box["told"], j) == z3.And(
        ranged(j, view.n), due(j))))
    V.cover()


@contract("C01 C16", "SimpleDataTypeTree: no children", obligations=("raises nothing", "none", "iteration ends at once"))
def _(V):
    W = World(V)
    c = cls(SIMPLE + "simple_data_type_tree.SimpleDataTypeTree")
    node = W.self_of(cls(SIMPLE + "instance_data_type_tree.InstanceDataTypeTree"), None)
    r = V.run(c._instantiate_children, node, V.any("data"))
    V.no_exception(r)
    V.prove("none", r is None)
    it = V.run(c.__iter__, node)
    V.no_exception(it)
    r = V.run(c.__next__, it)
    V.prove("iteration ends at once", it is node and isinstance(r, Raised) and r.cls is StopIteration)
    V.cover()


@contract("C16 C04 C03", "NumpyDataTypeTree", obligations=(
    "raises nothing", "the hint names the type of the elements", "what the hint uses is imported",
    "the hash tells the type of the elements"))
def _(V):
    W = World(V)
    c = cls(SIMPLE + "numpy_data_type_tree.NumpyDataTypeTree")
    dtype, text = V.any("dtype"), V.str("text of dtype")
    REG.fields["object", "dtype"] = lambda i, v: dtype
    REG.fields["object", "__str__"] = lambda i, v: text
    node = W.self_of(c, None)
    r = V.run(c._get_str_top_node, node)
    V.no_exception(r)
    shown = V.eng.str_term(V.call(str, dtype))
    V.prove("the hint names the type of the elements", V.eng.str_term(r) == z3.Concat(
        node.attrs["name"].t, S(': TypeAlias = "NDArray[np.'), shown, S(']"')))
    V.prove("what the hint uses is imported", z3.And(W.has("NDArray"), W.has("numpy"), W.has("TypeAlias"), W.imports_kept(
        "NDArray", "numpy", "TypeAlias")))
    r = V.run(c._get_hash, node)
    V.no_exception(r)
    parts = [x for x in r if not isinstance(x, str)] if isinstance(r, tuple) else []
    V.prove("the hash tells the type of the elements", z3.Or(z3.BoolVal(False), *(V.eng.str_term(x) == shown for x in parts)))
    V.cover()


@contract("C16", "data_type_tree_factory", obligations=("raises nothing", "the kind of the data, with all that was given"))
def _(V):
    f = module("data_type_tree.factory").data_type_tree_factory
    given = {k: V.any(k) for k in ("data", "name", "imports", "depth", "strategies", "parent")}
    kind, made, log = V.any("kind"), V.any("node"), []
    REG.summaries["DataTypeTree", "get_subclass"] = lambda i, args, kw: (log.append((*args, *kw.values())), kind)[1]
    REG.summaries["object", "__call__"] = lambda i, args, kw: (log.append((args, kw)), made)[1]
    r = V.run(f, given["data"], given["name"], imports=given["imports"], depth=given["depth"], strategies=given[
        "strategies"], parent=given["parent"])
    V.no_exception(r)
    args, kw = log[-1]
    got = dict(kw)
    for k, a in zip(("data", "name"), [a for a in args if a is not kind]):
        got[k] = a
    V.prove("the kind of the data, with all that was given", r is made and len(log) == 2 and log[0][-1] is given[
        "data"] and set(got) == set(given) and all(got[k] is given[k] for k in given))
    V.cover()


@contract("C03", "MappingDataTypeTree._to_camel_case", covers=("numbers only", "empty", "letters"), obligations=(
    "raises nothing", "made of characters of names only", "characters are taken from their place"))
def _(V):
    from pyvc.models import f_isident, f_upper
    c = node_class("mapping")
    text = V.str("text")
    f_normal, f_digits = z3.Function("normalize", Str, Str), z3.Function("leading_digits", Str, Int)
    REG.summaries["unicodedata", "normalize"] = lambda i, args, kw: SStr(f_normal(i.eng.str_term(args[1])))
    n = f_digits(text.t)
    V.assume(z3.And(n >= 0, n <= z3.Length(text.t)))

    class Match:
        def group(self, number=0):
            return None

    found = V.obj(Match)

    def match(i, args, kw):
        if args[0] not in (r"^\d+", r"\d+"):
            raise core.Unsupported("another pattern")
        V.prove("of the text", i.eng.str_term(args[1]) == text.t)
        return found if i.eng.branch(n > 0) else None

    REG.summaries["re", "match"] = match
    REG.summaries["Match", "group"] = lambda i, args, kw: SStr(z3.SubString(text.t, 0, n))
    joined, whole = [], V.str("joined")

    def join(i, v, args, kw):
        joined.append((v, i.eng.view(args[0])))
        return whole

    REG.methods["str", "join"] = join
    rest = z3.SubString(text.t, n, z3.Length(text.t) - n)
    m = z3.Length(rest)
    k = z3.Int("k!cc")
    char = lambda k: z3.SubString(rest, k, 1)
    good = lambda k: f_isident(z3.Concat(S("_"), char(k)))

    def piece(out, k, times=1):
        """"" or the character at this place of the text, one a name may have, each perhaps in upper case."""
        t, empty, kept = z3.Select(out, k), S(""), char(k)
        blank, taken = [t == empty], [t == kept]
        for _ in range(times):
            empty, kept = f_upper(empty), f_upper(kept)
            blank.append(t == empty)
            taken.append(t == kept)
        return z3.Or(*blank, z3.And(good(k), f_normal(char(k)) == char(k), z3.Or(*taken)))

    def inv(L):
        now = V.eng.view(L["new_string"])
        out = V.eng.array_of(now, STR)
        return [("a place for every character", now.n == m),
                ("pieces", z3.ForAll([k], z3.Implies(ranged(k, L.i), piece(out, k)))),
                ("later ones are empty", z3.ForAll([k], z3.Implies(z3.And(k >= L.i, k < m), z3.Select(out, k) == S(""))))]

    REG.loops["MappingDataTypeTree._to_camel_case", 0] = LoopSpec(inv)
    r = V.run(c._to_camel_case, text)
    V.no_exception(r)
    if not joined:
        V.prove("made of characters of names only", z3.And(V.eng.str_term(r) == z3.If(n > 0, z3.If(
            m == 0, text.t, rest), text.t), m == 0))
        V.cover("numbers only" if V.branch(n > 0) else "empty")
        return
    V.prove("made of characters of names only", r is whole and joined[0][0] == "" and len(joined) == 1)
    out = V.eng.array_of(joined[0][1], STR)
    V.prove("characters are taken from their place", z3.And(joined[0][1].n == m, z3.ForAll([k], z3.Implies(
        ranged(k, m), piece(out, k, 2)))))
    V.cover("letters")
