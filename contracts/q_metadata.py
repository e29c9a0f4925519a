"""C05, C13: which keys a TypedDict has, which of them are required, and how they are documented."""
from contracts.m_children import dict_fields, f_metadata
from contracts.p_merge import DICT, dictionary, metadata_of
from contracts.world import FA, S, World, cls, f_inline, f_needs, f_parent, f_perm, node_at, node_class, tree_class
from pyvc import core
from pyvc.core import STR, VAL, Int, NodeK, RawK, SBool, SStr, Str, SVal, Val, ranged, z3
from pyvc.interp import REG, DictView, LoopSpec
from pyvc.models import f_isident
from pyvc.verify import contract

f_written = z3.Function("written_as_docstring", Str, Str)


def state_of(V, c, vk=VAL):
    return V.i.symbolic_dict(c, VAL, vk)


@contract("C05 C01", "DictMetadata.update", obligations=(
    "raises nothing", "the keys of both", "what it had stays", "what it lacked is taken", "the keys it knew come first",
    "tells which keys the other had to begin with"))
def _(V):
    W = World(V)
    m, data = metadata_of(V, W)
    o, other = metadata_of(V, W)
    first = o.attrs["_initial_keys"] = V.any("initial keys")
    start, theirs = data.state, other.state
    told = []
    REG.summaries["DictMetadata", "_update_key_info"] = lambda i, args, kw: told.append((args, kw))
    x, j = z3.Const("x!up", Val), z3.Int("j!up")
    val = lambda d, x: z3.Select(d.cols[0], x)

    def spec(d, seen):
        new = lambda x: z3.And(z3.Select(theirs.dom, x), seen(x))
        return [("the keys of both", FA([x], z3.Select(d.dom, x) == z3.Or(z3.Select(start.dom, x), new(x)), z3.Select(
                    d.dom, x), z3.Select(theirs.pos, x))),
                ("what it had stays", FA([x], z3.Implies(z3.Select(start.dom, x), val(d, x) == val(start, x)), val(d, x))),
                ("what it lacked is taken", FA([x], z3.Implies(z3.And(new(x), z3.Not(z3.Select(start.dom, x))), val(
                    d, x) == val(theirs, x)), val(d, x))),
                ("the keys it knew come first", z3.And(d.n >= start.n, FA([j], z3.Implies(ranged(j, start.n), z3.Select(
                    d.keyat[0], j) == z3.Select(start.keyat[0], j)), z3.Select(d.keyat[0], j))))]

    REG.loops["DictMetadata.update", 0] = LoopSpec(lambda L: spec(data.state, lambda x: z3.Select(theirs.pos, x) < L.i))
    r = V.run(m.cls.update, m, o)
    V.no_exception(r)
    for label, t in spec(data.state, lambda x: z3.BoolVal(True)):
        V.prove(label, t)
    V.prove("the merged dictionary is returned", r is data)
    V.prove("tells which keys the other had to begin with", [(a[0], V.eng.to_val(a[1]), k) for a, k in told] == [
        (m, V.eng.to_val(first), {})])
    V.cover()


@contract("C15 C13 C14", "DictMetadata.get_key_docstrings", covers=("strings", "other keys"), prove_ms=20000, obligations=(
    "raises nothing", "a text for exactly the keys that have one", "the text of the hidden key of that name"))
def _(V):
    W = World(V)
    m, data = metadata_of(V, W)
    d = data.state
    prefix = m.attrs["hidden_key_prefix"].t
    V.assume(z3.Length(prefix) > 0)
    formatted = V.bool("formatted")
    REG.summaries["docstring_formatter", "format_string_as_docstring"] = lambda i, args, kw: (
        V.prove("indented like the fields", kw == {"indentation": "    "}), SStr(f_written(i.eng.str_term(args[0]))))[1]
    x, j = z3.Const("x!gd", Val), z3.Int("j!gd")
    name = lambda x: Val.VStr(z3.Concat(prefix, Val.s(x)))
    doc = lambda x: z3.Select(d.cols[0], name(x))
    written = lambda x: z3.If(formatted.t, z3.Concat(S("\n"), f_written(Val.s(doc(x))), S("\n")), Val.s(doc(x)))
    has = lambda x: z3.And(z3.Select(d.dom, x), z3.Not(z3.PrefixOf(prefix, Val.s(x))), z3.Select(d.dom, name(x)),
                           core.is_str(doc(x)))
    key = lambda j: z3.Select(d.keyat[0], j)

    def spec(c, i):
        seen = lambda x: z3.And(has(x), z3.Select(d.pos, x) < i)
        if c.items is not None:
            return [("a text for exactly the keys that have one", FA([x], z3.Not(seen(x)), z3.Select(d.pos, x)))]
        out = c.state
        k = Val.s if out.dom.sort().domain() == Str else lambda x: x
        text_of = lambda x: z3.Select(out.cols[0], k(x))
        is_it = lambda x: text_of(x) == (written(x) if text_of(x).sort() == Str else Val.VStr(written(x)))
        return [("a text for exactly the keys that have one", FA([x], z3.Implies(core.is_str(x), z3.Select(
                    out.dom, k(x)) == seen(x)), z3.Select(out.dom, k(x)), z3.Select(d.pos, x))),
                ("the text of the hidden key of that name", FA([x], z3.Implies(z3.And(core.is_str(x), z3.Select(
                    out.dom, k(x))), is_it(x)), text_of(x)))]

    strings = FA([j], z3.Implies(ranged(j, d.n), core.is_str(key(j))), key(j))
    REG.loops["DictMetadata.get_key_docstrings", 0] = LoopSpec(lambda L: spec(L["dct"], L.i))
    r = V.run(m.cls.get_key_docstrings, m, docstring_keys_start_with=m.attrs["hidden_key_prefix"],
              return_formatted_as_docstring=formatted)
    V.no_exception(r)
    if V.branch(strings):
        for label, t in spec(V.i.force(r), d.n):
            V.prove(label, t)
        V.cover("strings")
    else:
        V.prove("nothing if there are other keys", V.i.force(r).items is not None and not V.i.force(r).items)
        V.cover("other keys")


class Infos:
    """The entries of key_info: objects whose attributes can be changed."""

    def __init__(self, V):
        self.V = V
        self.cls = cls(DICT + "KeyInfo")
        heap = V.eng.heap
        self.sorts = {"name": Val, "docstring": Str, "required": core.Bool}
        wrap = {"name": SVal, "docstring": SStr, "required": SBool}
        for a, s in self.sorts.items():
            heap.setdefault(f"info.{a}", z3.Const(f"heap.info.{a}", z3.ArraySort(Val, s)))
            REG.fields["KeyInfo", a] = lambda i, v, a=a: wrap[a](z3.Select(i.eng.heap[f"info.{a}"], v.t))
            REG.setters["KeyInfo", a] = lambda i, v, value, a=a: self.store(i, v.t, a, value)
        REG.summaries["KeyInfo", "__new__"] = self.made
        self.infos = None

    def term(self, a, value):
        eng = self.V.eng
        return {"name": eng.to_val, "docstring": eng.str_term, "required": eng.bool_term}[a](value)

    def store(self, i, t, a, value):
        i.touch_heap(f"info.{a}")
        i.eng.heap[f"info.{a}"] = z3.Store(i.eng.heap[f"info.{a}"], t, self.term(a, value))

    def made(self, i, args, kw):
        """Another object than those that are there."""
        real = i.construct_dataclass(args[0], args[1:], kw)
        r = i.eng.new("info", Val)
        x = z3.Const("x!ki", Val)
        d = self.infos()
        if d is not None:
            i.eng.assume(FA([x], z3.Implies(z3.Select(d.dom, x), z3.Select(d.cols[0], x) != r), z3.Select(d.cols[0], x)))
        for a in self.sorts:
            self.store(i, r, a, real.attrs[a])
        return SVal(r, self.cls)

    def get(self, a, t):
        return z3.Select(self.V.eng.heap[f"info.{a}"], t)

    def snapshot(self):
        heap = {a: self.V.eng.heap[f"info.{a}"] for a in self.sorts}
        return lambda a, t: z3.Select(heap[a], t)


def key_info_contract(forced):
    what = "of a new dictionary" if forced else "after another one was merged"

    @contract("C05 C15", f"DictMetadata._update_key_info: {what}", prove_ms=20000, covers=("some",) if forced else (
        "some", "none"), obligations=(
        "raises nothing", "every key but documentation has an entry", "its own one", "required as it should be",
        "documented by its text"))
    def _(V):
        W = World(V)
        K = Infos(V)
        kind = NodeK(K.cls)
        m, data = metadata_of(V, W)
        d = data.state
        prefix = m.attrs["hidden_key_prefix"].t
        hidden = lambda x: z3.And(core.is_str(x), z3.PrefixOf(prefix, Val.s(x)))
        x, j = z3.Const("x!ku", Val), z3.Int("j!ku")
        docs = V.dict(VAL, STR, "docs")
        D = docs.state
        V.assume(z3.ForAll([x], z3.Implies(z3.Select(D.dom, x), z3.And(z3.Select(d.dom, x), z3.Not(hidden(x))))))
        asked = []
        REG.summaries["DictMetadata", "get_key_docstrings"] = lambda i, args, kw: (asked.append(kw), docs)[1]
        if forced:
            info = V.eng.dict_cell({})
            none = z3.K(Val, z3.BoolVal(False))
            dom0, value0 = lambda x: z3.BoolVal(False), lambda x: x
        else:
            info = V.dict(VAL, kind, "info")
            start = info.state
            dom0, value0 = lambda x: z3.Select(start.dom, x), lambda x: z3.Select(start.cols[0], x)
            V.assume(FA([x], z3.Implies(dom0(x), K.get("name", value0(x)) == x), value0(x)))
            V.assume(FA([x], z3.Implies(dom0(x), z3.And(z3.Select(d.dom, x), z3.Not(hidden(x)))), dom0(x)))
        m.attrs["key_info"] = info
        K.infos = lambda: None if info.items is not None else info.state
        before = K.snapshot()
        pos = lambda x: z3.Select(d.pos, x)

        def spec(i, required, documented=True):
            mine = lambda x: z3.Or(dom0(x), z3.And(z3.Select(d.dom, x), pos(x) < i, z3.Not(hidden(x))))
            if info.items is not None:
                return [("every key but documentation has an entry", FA([x], z3.Not(mine(x)), pos(x)))]
            now = info.state
            has, value = lambda x: z3.Select(now.dom, x), lambda x: z3.Select(now.cols[0], x)
            doc = z3.If(z3.And(z3.Select(D.dom, x), pos(x) < i), z3.Select(D.cols[0], x), z3.If(dom0(x), before(
                "docstring", value0(x)), S("")))
            return [("every key but documentation has an entry", FA([x], has(x) == mine(x), has(x), pos(x))),
                    ("its own one", FA([x], z3.Implies(has(x), K.get("name", value(x)) == x), value(x))),
                    ("required as it should be", FA([x], z3.Implies(has(x), K.get("required", value(x)) == required(
                        x)), value(x))),
                    ("documented by its text", FA([x], z3.Implies(has(x), K.get("docstring", value(x)) == doc), value(x)))]

        was = lambda x: z3.And(dom0(x), before("required", value0(x))) if not forced else z3.BoolVal(True)
        name = "DictMetadata._update_key_info"
        REG.loops[name, 0] = LoopSpec(lambda L: spec(L.i, was))
        box = {}

        def all_of(L):
            at = lambda x: z3.Select(info.state.pos, x) if info.items is None else x
            return spec(d.n, lambda x: z3.And(was(x), z3.Not(at(x) < L.i)))

        REG.loops[name, 1] = LoopSpec(all_of)
        if forced:
            r = V.run(m.cls._update_key_info, m, force_all_required_to_true=True)
            known = lambda x: z3.BoolVal(True)
        else:
            initial, given = V.dict(VAL, VAL, "initial"), V.dict(VAL, VAL, "given")
            I, G = initial.state, given.state
            V.assume(FA([x], z3.Implies(z3.And(z3.Select(I.dom, x), z3.Not(hidden(x))), dom0(x)), z3.Select(I.dom, x)))
            V.assume(FA([x], z3.Implies(z3.And(dom0(x), before("required", value0(x))), z3.Select(I.dom, x)), value0(x)))
            m.attrs["_initial_keys"] = DictView(initial, "keys")
            known = lambda x: z3.Select(G.dom, x)
            lacking = lambda x: z3.And(z3.Select(I.dom, x), z3.Not(z3.Select(G.dom, x)))

            def lost(L):
                place = L.seq.place
                return spec(d.n, lambda x: z3.And(was(x), z3.Not(z3.And(lacking(x), place(x) < L.i))))

            REG.loops[name, 2] = LoopSpec(lost)
            r = V.run(m.cls._update_key_info, m, DictView(given, "keys"))
        V.no_exception(r)
        for label, t in spec(d.n, lambda x: z3.And(was(x), known(x))):
            V.prove(label, t)
        V.prove("only texts of hidden keys", asked == [{"docstring_keys_start_with": m.attrs["hidden_key_prefix"]}])
        V.cover("some" if V.branch(d.n > 0) or forced else "none")


key_info_contract(True)
key_info_contract(False)


@contract("C05 C01", "DictMetadata.__init__", obligations=(
    "raises nothing", "a copy of the dictionary", "its keys are those to begin with", "all keys are required"))
def _(V):
    W = World(V)
    data = V.dict(VAL, VAL, "data")
    m = V.obj(cls(DICT + "DictMetadata"))
    prefix = V.str("prefix")
    told = []

    def update(i, args, kw):
        told.append((V.i.force(m.attrs["key_info"]).items, kw))

    REG.summaries["DictMetadata", "_update_key_info"] = update
    r = V.run(m.cls.__init__, m, data, hidden_key_prefix=prefix, strategies=W.strategies)
    V.no_exception(r)
    x = z3.Const("x!mi", Val)
    copy = V.i.force(m.attrs["_data"])
    d, c = data.state, V.i.symbolic_dict(copy, VAL, VAL)
    V.prove("a copy of the dictionary", z3.And(copy is not data, c.n == d.n, c.keyat[0] == d.keyat[0], z3.ForAll([x], z3.And(
        z3.Select(c.dom, x) == z3.Select(d.dom, x), z3.Implies(z3.Select(d.dom, x), z3.Select(c.cols[0], x) == z3.Select(
            d.cols[0], x))))))
    first = m.attrs["_initial_keys"]
    V.prove("its keys are those to begin with", isinstance(first, DictView) and first.what == "keys" and (
        first.cell is data or first.cell is copy))
    V.prove("all keys are required", len(told) == 1 and not told[0][0] and told[0][0] is not None and told[0][1] == {
        "force_all_required_to_true": True})
    V.prove("strategies and prefix stay", m.attrs["_strategies"] is W.strategies and m.attrs["hidden_key_prefix"] is prefix)
    V.cover()


f_read = {n: z3.Function(f"data_of_node.{n}", Val, s) for n, s in (
    ("n", Int), ("keyat", z3.ArraySort(Int, Val)), ("pos", z3.ArraySort(Val, Int)), ("dom", z3.ArraySort(Val, core.Bool)),
    ("value", z3.ArraySort(Val, Val)))}
f_initial = z3.Function("initial_keys", Val, z3.ArraySort(Val, core.Bool))
f_depth = z3.Function("depth_of", Val, Int)


@contract("C05 C01 C02", "DictDataTypeTree.from_multiple_dict_data_type_trees", prove_ms=20000, obligations=(
    "raises nothing", "every key of every dictionary", "values of the dictionaries", "a float if there is one",
    "the keys of all of them are known", "required exactly if all of them have it", "in the place of the first",
    "children are restored from all of them"))
def _(V):
    W = World(V)
    dict_fields()
    D = node_class("dict")
    heap, eng = V.eng.heap, V.eng
    T = z3.ArraySort(Val, z3.ArraySort(Val, core.Bool))
    for a in ("known", "required"):
        heap.setdefault(f"meta.{a}", z3.Const(f"heap.meta.{a}", T))
    meta = lambda a, t, x: z3.Select(z3.Select(eng.heap[f"meta.{a}"], t), x)
    x, d, j = z3.Const("x!fm", Val), z3.Int("d!fm"), z3.Int("j!fm")
    REG.fields["DictDataTypeTree", "data"] = dictionary(V, f_read)
    REG.fields["DataTypeTree", "depth"] = lambda i, v: core.SInt(f_depth(v.t))
    REG.fields["DataTypeTree", "parent"] = lambda i, v: SVal(f_parent(v.t), tree_class())

    def update(i, args, kw):
        """The contract of DictMetadata.update and _update_key_info."""
        m, o = (i.eng.to_val(a) for a in args)
        known, needed = i.eng.heap["meta.known"], i.eng.heap["meta.required"]
        for a, fn in (("known", lambda x: z3.Or(z3.Select(z3.Select(known, m), x), z3.Select(z3.Select(known, o), x))),
                      ("required", lambda x: z3.And(z3.Select(z3.Select(needed, m), x), z3.Select(f_initial(o), x)))):
            new = i.eng.new("keys", z3.ArraySort(Val, core.Bool))
            i.eng.assume(FA([x], z3.Select(new, x) == fn(x), z3.Select(new, x)))
            i.touch_heap(f"meta.{a}")
            i.eng.heap[f"meta.{a}"] = z3.Store(i.eng.heap[f"meta.{a}"], m, new)

    REG.summaries["DictMetadata", "update"] = update
    made, restored = [], []

    def new(i, args, kw):
        made.append((args, kw))
        return V.obj(D, **kw)

    REG.summaries["DictDataTypeTree", "__new__"] = new
    REG.summaries["DictDataTypeTree", "_restore_children_of_consumed_iterators"] = (
        lambda i, args, kw: restored.append((args[0], V.eng.view(args[1]))))
    trees = V.tuple(NodeK(D), "trees")
    n, at = trees.n, lambda j: node_at(trees, j)
    first = f_metadata(at(z3.IntVal(0)))
    has = lambda d, x: z3.Select(f_read["dom"](at(d)), x)
    val = lambda d, x: z3.Select(f_read["value"](at(d)), x)
    known0, required0 = eng.heap["meta.known"], eng.heap["meta.required"]
    sel = lambda a, t, x: z3.Select(z3.Select(a, t), x)
    V.assume(n > 0)
    V.assume(z3.ForAll([j], z3.Implies(ranged(j, n), f_depth(at(j)) == f_depth(at(z3.IntVal(0))))))
    V.assume(z3.ForAll([j, x], z3.Implies(ranged(j, n), sel(known0, f_metadata(at(j)), x) == has(j, x))))
    V.assume(z3.ForAll([x], sel(required0, first, x) == z3.Select(f_initial(first), x)))
    FLOAT = eng.to_val(float)
    box = {}

    def content(c, i, more=None):
        known = lambda d, x: z3.And(has(d, x), z3.Or(ranged(d, i), more(d, x)) if more else ranged(d, i))
        if c.items is not None:
            return [("every key of every dictionary", z3.Not(z3.Exists([d, x], known(d, x))))]
        now = state_of(V, c)
        who = z3.Select(box["who"], x)
        return [("every key of every dictionary", FA([d, x], z3.Implies(known(d, x), z3.Select(now.dom, x)), has(d, x))),
                ("values of the dictionaries", FA([x], z3.Implies(z3.Select(now.dom, x), z3.And(known(who, x), z3.Select(
                    now.cols[0], x) == val(who, x))), z3.Select(now.dom, x))),
                ("a float if there is one", FA([d, x], z3.Implies(z3.And(known(d, x), core.f_type(val(d, x)) == FLOAT),
                 core.f_type(z3.Select(now.cols[0], x)) == FLOAT), val(d, x)))]

    def outer(L):
        box["i"], box["who"] = L.i, L.ghost["who"]
        return content(L["merged_dict"], L.i)

    def inner(L):
        i = box["i"]
        box["who"] = L.ghost["who"]
        return content(L["merged_dict"], i, lambda d, x: z3.And(d == i, z3.Select(f_read["pos"](at(i)), x) < L.i))

    def step(L):
        key = eng.to_val(L.seq.get(L.i)[0])
        now = state_of(V, L["merged_dict"])
        same = z3.Select(now.cols[0], key) == val(box["i"], key)
        return z3.If(same, z3.Store(L.ghost["who"], key, box["i"]), L.ghost["who"])

    name = "DictDataTypeTree.from_multiple_dict_data_type_trees"
    WHO = RawK(z3.ArraySort(Val, Int))
    REG.loops[name, 0] = LoopSpec(outer, ghosts={"who": (WHO, z3.K(Val, z3.IntVal(0)), lambda L: box["who"])})
    REG.loops[name, 1] = LoopSpec(inner, ghosts={"who": (WHO, lambda i, f: box["who"], step)})

    def merged(i):
        k = lambda j, x: sel(known0, f_metadata(at(j)), x)
        K, R = (eng.heap[f"meta.{a}"] for a in ("known", "required"))
        t = z3.Const("t!fm", Val)
        return [("other metadata stay", FA([t], z3.Implies(t != first, z3.And(z3.Select(K, t) == z3.Select(known0, t),
                    z3.Select(R, t) == z3.Select(required0, t))), z3.Select(K, t), z3.Select(R, t))),
                ("the keys of all of them are known", z3.ForAll([x], sel(K, first, x) == z3.Or(sel(known0, first, x), z3.Exists(
                    [j], z3.And(ranged(j, i), k(j, x)))))),
                ("required exactly if all of them have it", z3.ForAll([x], sel(R, first, x) == z3.And(sel(
                    required0, first, x), z3.ForAll([j], z3.Implies(ranged(j, i), z3.Select(f_initial(f_metadata(at(
                        j))), x))))))]

    def names(L):
        src = L.ghost["src"]
        label = eng.str_term(L["shortest_name"])
        names = eng.heap["name"]
        return merged(L.i) + [("named like one of them", z3.If(L.i == 0, label == S(""), z3.And(ranged(
            src, L.i), label == z3.Select(names, at(src)))))]

    def named(L):
        return z3.If(eng.str_term(L["shortest_name"]) == z3.Select(eng.heap["name"], at(L.i)), L.i, L.ghost["src"])

    REG.loops[name, 2] = LoopSpec(names, ghosts={"src": (RawK(Int), z3.IntVal(0), named)})
    r = V.call_star(D.from_multiple_dict_data_type_trees, trees)
    V.no_exception(r)
    (args, kw), = made
    for label, t in content(V.i.force(kw["data"]), n):
        V.prove(label, t)
    V.prove("in the place of the first", z3.And(
        eng.to_val(kw["parent"]) == f_parent(at(z3.IntVal(0))), eng.int_term(kw["depth"]) == f_depth(at(z3.IntVal(0))),
        kw["imports"] is W.imports, kw["strategies"] is W.strategies))
    j2 = z3.Int("j2!fm")
    V.prove("named like one of them", z3.Exists([j2], z3.And(ranged(j2, n), eng.str_term(kw["name"]) == z3.Select(
        eng.heap["name"], at(j2)))))
    V.prove("knows what was merged", eng.to_val(r.attrs["dict_metadata"]) == first)
    K, R = (eng.heap[f"meta.{a}"] for a in ("known", "required"))
    V.prove("the keys of all of them are known", z3.ForAll([x], sel(K, first, x) == z3.Exists([j], z3.And(ranged(
        j, n), has(j, x)))))
    V.prove("required exactly if all of them have it", z3.ForAll([x], sel(R, first, x) == z3.ForAll([j], z3.Implies(
        ranged(j, n), z3.Select(f_initial(f_metadata(at(j))), x)))))
    V.prove("children are restored from all of them", len(restored) == 1 and restored[0][0] is r and restored[0][1].n is n)
    V.cover()


@contract("C06 C05 C03 C08", "DictDataTypeTree._parse_typed_dict", prove_ms=20000, obligations=(
    "raises nothing", "a field per key, in order", "the text or the name of its value",
    "not required exactly if some dictionary lacks it", "TypedDict is imported", "NotRequired is imported if it is needed",
    "ReadOnly is imported if it is needed", "whatever the values need is imported"))
def _(V):
    W = World(V)
    K = Infos(V)
    children = V.dict(STR, NodeK(tree_class()), "children")
    info = V.dict(VAL, NodeK(K.cls), "info")
    st, I = children.state, info.state
    functional = V.bool("functional")
    m = V.obj(cls(DICT + "DictMetadata"), key_info=info, is_functional_syntax=functional)
    node = W.self_of("dict", children=children, dict_metadata=m)
    built = []
    REG.summaries["DictDataTypeTree", "_build_typed_dict"] = lambda i, args, kw: (built.append((args, kw)), SStr(z3.Const(
        "built", Str)))[1]
    x, j, t = z3.Const("x!pt", Str), z3.Int("j!pt"), z3.Const("t!pt", Str)
    child = lambda x: z3.Select(st.cols[0], x)
    names = V.eng.heap["name"]
    known = lambda x: z3.Select(I.dom, Val.VStr(x))
    lacking = lambda x: z3.And(known(x), z3.Not(K.get("required", z3.Select(I.cols[0], Val.VStr(x)))))
    read_only = W.strategies.attrs["typed_dict_read_only_values"].t
    base = lambda x: z3.If(f_perm(child(x)), z3.Select(names, child(x)), f_inline(child(x)))
    marked = lambda x: z3.If(lacking(x), z3.Concat(S("NotRequired["), base(x), S("]")), base(x))
    text = lambda x: z3.If(z3.And(known(x), read_only), z3.Concat(S("ReadOnly["), marked(x), S("]")), marked(x))

    def imported(L_i):
        seen = lambda x: z3.And(z3.Select(st.dom, x), z3.Select(st.pos, x) < L_i)
        return [("TypedDict is imported", W.has("TypedDict")), ("imports grow", W.imports_grow()),
                ("NotRequired is imported if it is needed", FA([x], z3.Implies(z3.And(seen(x), lacking(x)), W.has(
                    "NotRequired")), z3.Select(st.pos, x))),
                ("ReadOnly is imported if it is needed", FA([x], z3.Implies(z3.And(seen(x), known(x), read_only), W.has(
                    "ReadOnly")), z3.Select(st.pos, x))),
                ("whatever the values need is imported", FA([x, t], z3.Implies(z3.And(seen(x), z3.Not(f_perm(child(
                    x))), z3.Select(f_needs(child(x)), t)), z3.Select(W.imported.dom, t)), z3.Select(f_needs(child(
                        x)), t)))]

    def spec(c, i):
        out = V.i.symbolic_dict(c, STR, STR)
        return [("a field per key, in order", z3.And(out.n == i, FA([j], z3.Implies(ranged(j, i), z3.Select(out.keyat[
                    0], j) == z3.Select(st.keyat[0], j)), z3.Select(out.keyat[0], j)))),
                ("no other fields", FA([x], z3.Select(out.dom, x) == z3.And(z3.Select(st.dom, x), z3.Select(
                    st.pos, x) < i), z3.Select(out.dom, x), z3.Select(st.pos, x))),
                ("the text or the name of its value", FA([x], z3.Implies(z3.Select(out.dom, x), z3.Select(
                    out.cols[0], x) == text(x)), z3.Select(out.cols[0], x)))]

    REG.loops["DictDataTypeTree._parse_typed_dict", 0] = LoopSpec(lambda L: spec(L["content"], L.i) + imported(L.i))
    r = V.run(node.cls._parse_typed_dict, node, children=children)
    V.no_exception(r)
    (args, kw), = built
    V.prove("the text that is built", z3.And(r.t == z3.Const("built", Str), V.eng.str_term(kw["name"]) == node.attrs[
        "name"].t, V.eng.bool_term(kw["functional_syntax"]) == functional.t, V.eng.str_term(kw[
            "key_used_as_class_docstring"]) == W.strategies.attrs["key_used_as_doc"].t))
    for label, term in spec(V.i.force(kw["content"]), st.n) + imported(st.n):
        V.prove(label, term)
    # What the shape of the text says about the field
    text_of = lambda x: z3.Select(V.i.symbolic_dict(V.i.force(kw["content"]), STR, STR).cols[0], x)
    V.prove("not required exactly if some dictionary lacks it", z3.ForAll([x], z3.Implies(z3.And(z3.Select(
        st.dom, x), known(x), z3.Not(read_only)), z3.If(lacking(x), text_of(x) == z3.Concat(
            S("NotRequired["), base(x), S("]")), text_of(x) == base(x)))))
    V.cover()


f_doc = z3.Function("docstring_of", Str, Str, Str)
f_body = z3.Function("fields_text", Int, Str)
f_json = z3.Function("json.dumps", Str, Str)


@contract("C06 C15 C03", "DictDataTypeTree._build_typed_dict", prove_ms=20000, covers=("class", "functional", "documented"),
          obligations=("raises nothing", "a class with a field per key", "a call with an entry per key"))
def _(V):
    W = World(V)
    content, docs = V.dict(STR, STR, "content"), V.dict(STR, STR, "docs")
    C, D = content.state, docs.state
    functional = V.bool("functional")
    name = V.str("typed dict")
    V.assume(f_isident(name.t))
    m = V.obj(cls(DICT + "DictMetadata"), is_functional_syntax=functional)
    data = V.dict(VAL, VAL, "data")
    node = W.self_of("dict", dict_metadata=m, data=data)
    prefix = node.cls.hidden_keys_prefix
    asked = []
    REG.summaries["DictMetadata", "get_key_docstrings"] = lambda i, args, kw: (asked.append(kw), docs)[1]
    REG.summaries["docstring_formatter", "format_string_as_docstring"] = lambda i, args, kw: SStr(f_doc(
        i.eng.str_term(args[0]), i.eng.str_term(kw["indentation"])))
    REG.summaries["json", "dumps"] = lambda i, args, kw: (V.prove("characters stay as they are", kw == {
        "ensure_ascii": False}), SStr(f_json(i.eng.str_term(args[0]))))[1]
    key = lambda j: z3.Select(C.keyat[0], j)
    value = lambda j: z3.Select(C.cols[0], key(j))
    has_doc = lambda j: z3.And(z3.Select(D.dom, key(j)), z3.Select(D.cols[0], key(j)) != S(""))
    line = lambda j: z3.If(functional.t, z3.Concat(S("        "), f_json(key(j)), S(": "), value(j), S(",\n")), z3.Concat(
        S("    "), key(j), S(": "), value(j), z3.If(has_doc(j), z3.Select(D.cols[0], key(j)), S("\n"))))

    def inv(L):
        V.assume(z3.Implies(ranged(L.i, C.n), f_body(L.i + 1) == z3.If(z3.PrefixOf(S(prefix), key(L.i)), f_body(
            L.i), z3.Concat(f_body(L.i), line(L.i)))))
        V.assume(f_body(0) == S(""))
        return [("a field per visible key so far", V.eng.str_term(L["modified_line"]) == f_body(L.i))]

    REG.loops["DictDataTypeTree._build_typed_dict", 0] = LoopSpec(inv)
    doc_key = V.str("doc key")
    r = V.run(node.cls._build_typed_dict, node, name=name, content=content, functional_syntax=functional,
              key_used_as_class_docstring=doc_key)
    V.no_exception(r)
    r = V.eng.str_term(r)
    body = f_body(C.n)
    fields = z3.SubString(body, 0, z3.Length(body) - 1)
    d = data.state
    text = z3.Select(d.cols[0], Val.VStr(doc_key.t))
    documented = z3.And(z3.Length(doc_key.t) > 0, z3.Select(d.dom, Val.VStr(doc_key.t)), core.is_str(text))
    if V.branch(functional.t):
        start = z3.Concat(name.t, S(" = TypedDict(\n    \""), name.t, S("\",\n    {\n"), fields, S("\n    },\n)"))
        V.prove("a call with an entry per key", r == z3.If(documented, z3.Concat(start, S("\n"), f_doc(Val.s(text), S(
            ""))), start))
        V.cover("functional")
    else:
        rest = z3.If(body == S(""), S("    ..."), fields)
        head = z3.Concat(S("class "), name.t, S("(TypedDict):\n"))
        V.prove("a class with a field per key", r == z3.If(documented, z3.Concat(head, f_doc(Val.s(text), S(
            "    ")), S("\n\n"), rest), z3.Concat(head, rest)))
        V.cover("documented" if V.branch(documented) else "class")
    V.prove("texts of the hidden keys", asked == [{"docstring_keys_start_with": prefix, "return_formatted_as_docstring": True}])


@contract("C03 C06", "DictMetadata.is_functional_syntax", covers=("class", "functional"), obligations=(
    "raises nothing", "a class exactly if Python reads every key as it is"))
def _(V):
    W = World(V)
    m, data = metadata_of(V, W)
    d = data.state
    prefix = m.attrs["hidden_key_prefix"].t
    f_compatible = z3.Function("usable_as_name", Str, core.Bool)
    f_nfkc = z3.Function("unicodedata.normalize", Str, Str, Str)
    REG.summaries["utils", "is_string_python_keyword_compatible"] = lambda i, args, kw: SBool(f_compatible(
        i.eng.str_term(args[0])))
    REG.summaries["unicodedata", "normalize"] = lambda i, args, kw: SStr(f_nfkc(*map(i.eng.str_term, args)))
    r = V.run(m.cls.is_functional_syntax, m)
    V.no_exception(r)
    j = z3.Int("j!fs")
    k = z3.Select(d.keyat[0], j)
    s = Val.s(k)
    mangled = z3.And(z3.PrefixOf(S("__"), s), z3.Not(z3.SuffixOf(S("__"), s)))
    plain = z3.And(core.is_str(k), f_compatible(s), z3.Or(z3.PrefixOf(prefix, s), z3.And(
        z3.Not(mangled), f_nfkc(S("NFKC"), s) == s)))
    V.prove("a class exactly if Python reads every key as it is", V.eng.bool_term(r) == z3.Not(z3.ForAll([j], z3.Implies(
        ranged(j, d.n), plain))))
    V.cover("functional" if V.branch(V.eng.bool_term(r)) else "class")


@contract("C06 C08 C05", "DictDataTypeTree: form and definition", covers=("TypedDict", "Dict"), obligations=(
    "raises nothing", "a TypedDict exactly if its metadata say so", "a TypedDict always has a definition"))
def _(V):
    W = World(V)
    typed, other = V.bool("typed"), V.bool("other rule")
    m = V.obj(cls(DICT + "DictMetadata"), is_typed_dict=typed)
    children = V.dict(STR, NodeK(tree_class()), "children")
    node = W.self_of("dict", children=children, dict_metadata=m)
    given = []

    def text(name):
        return lambda i, args, kw: (given.append([*args[1:], *kw.values()]), SStr(z3.Const(name, Str)))[1]

    REG.summaries["DictDataTypeTree", "_parse_typed_dict"] = text("typed dict")
    REG.summaries["MappingDataTypeTree", "_parse_dict"] = text("dict")
    REG.summaries["DataTypeTree", "permission_to_be_created_as_type_alias"] = lambda i, args, kw: other
    r = V.run(node.cls._get_str_top_node, node)
    V.no_exception(r)
    V.prove("a TypedDict exactly if its metadata say so", r.t == z3.If(typed.t, z3.Const("typed dict", Str), z3.Const(
        "dict", Str)))
    V.prove("of all children", len(given) == 1 and given[0] == [children])
    p = V.run(node.cls.permission_to_be_created_as_type_alias, node)
    V.no_exception(p)
    V.prove("a TypedDict always has a definition", V.eng.bool_term(p) == z3.Or(typed.t, other.t))
    V.cover("TypedDict" if V.branch(typed.t) else "Dict")
