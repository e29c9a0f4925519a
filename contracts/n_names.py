"""C03, C08: names of definitions, and the order in which they are written."""
from contracts.c_sets import ordered_set
from contracts.world import FA, S, World, cls, module, tree_class
from pyvc import core
from pyvc.core import INT, STR, VAL, Bool, Int, Raised, SBool, SInt, SStr, Str, SVal, Val, ranged, z3
from pyvc.interp import REG, LoopSpec
from pyvc.verify import contract

f_node_text = z3.Function("text_of_definition", Val, z3.ArraySort(Val, Str), Str)


def texts(V):
    """The text of a definition depends on the node and the names that nodes have at the time."""
    REG.summaries["DataTypeTree", "_get_str_top_node"] = lambda i, args, kw: SStr(
        f_node_text(i.eng.to_val(args[0]), i.eng.heap["name"]))


def name_of(V, node):
    return z3.Select(V.eng.heap["name"], node)


@contract("C03 C08", "DataTypeTree._make_name_unique", covers=("kept", "renamed"), obligations=(
        "raises nothing", "its name stands for its own definition", "no other name changes its definition",
        "a name that is free or already its own is kept", "no other node is renamed", "named after the old name"))
def _(V):
    W = World(V)
    texts(V)
    node = W.node("node")
    defs = V.dict(STR, STR, "definitions")
    dom0, val0 = defs.state.dom, defs.state.cols[0]
    heap0 = V.eng.heap["name"]
    name0 = z3.Select(heap0, node.t)
    x, y = z3.Const("x!mu", Str), z3.Const("y!mu", Val)

    def inv(L):
        h = V.eng.heap["name"]
        now = z3.Select(h, node.t)
        c = V.eng.int_term(L["count"])
        st = L["definitions"].state
        return [("counts", c >= 2),
                ("only this node", h == z3.Store(heap0, node.t, now)),
                ("nothing defined", z3.And(st.dom == dom0, st.cols[0] == val0)),
                ("the name", z3.Or(now == name0, z3.PrefixOf(name0, now))),
                ("only as it has to", z3.Implies(now != name0, z3.And(z3.Select(dom0, name0), z3.Select(
                    val0, name0) != f_node_text(node.t, heap0))))]

    REG.loops["DataTypeTree._make_name_unique", 0] = LoopSpec(inv)
    r = V.run(tree_class()._make_name_unique, node, defs)
    V.no_exception(r)
    h = V.eng.heap["name"]
    now = z3.Select(h, node.t)
    st = defs.state
    V.prove("its name stands for its own definition", z3.And(z3.Select(st.dom, now), z3.Select(
        st.cols[0], now) == f_node_text(node.t, h)))
    V.prove("no other name changes its definition", z3.ForAll([x], z3.Implies(z3.Select(dom0, x), z3.And(
        z3.Select(st.dom, x), z3.Select(st.cols[0], x) == z3.Select(val0, x)))))
    V.prove("only this name is added", z3.ForAll([x], z3.Implies(z3.Select(st.dom, x), z3.Or(
        z3.Select(dom0, x), x == now))))
    V.prove("no other node is renamed", h == z3.Store(heap0, node.t, now))
    V.prove("named after the old name", z3.PrefixOf(name0, now))
    V.prove("a name that is free or already its own is kept", z3.Implies(z3.Or(
        z3.Not(z3.Select(dom0, name0)), z3.Select(val0, name0) == f_node_text(node.t, heap0)), now == name0))
    V.cover("kept" if V.branch(now == name0) else "renamed")


def ordered(V):
    """An ordered set, by its two parts. That the list holds the members is what the contract of `add` keeps."""
    return V.obj(cls("utils.ordered_set.OrderedSet"), _elements_added=V.set(STR, "members"), _lst=V.list(STR, "lst"))


class Written:
    """What was written so far: the texts, and the names that stand for them."""

    def __init__(self, V, types, defs):
        self.V, self.types, self.defs = V, types, defs
        self.by = V.eng.new("name_of_text", z3.ArraySort(Str, Str))

    def now(self):
        lst = self.V.eng.view(self.types.attrs["_lst"])
        st = self.V.i.symbolic_dict(self.defs, STR, STR)
        members = self.types.attrs["_elements_added"]
        dom = members.dom if members.items is None else z3.K(Str, z3.BoolVal(False))
        return dom, lst.n, self.V.eng.array_of(lst, STR), st.dom, st.cols[0]

    def named(self, by, now):
        """Every text that was written is the definition of a name: no name has two."""
        x = z3.Const("x!named", Str)
        mem, _, _, dom, val = now
        return FA([x], z3.Implies(z3.Select(mem, x), z3.And(z3.Select(dom, z3.Select(by, x)), z3.Select(
            val, z3.Select(by, x)) == x)), z3.Select(mem, x))

    def grown(self, a, b):
        """From a to b texts were only added at the end, and no name got another definition."""
        x, k = z3.Const("x!grown", Str), z3.Int("k!grown")
        return [("nothing written is lost", z3.ForAll([x], z3.Implies(z3.Select(a[0], x), z3.Select(b[0], x)))),
                ("only written at the end", z3.And(b[1] >= a[1], z3.ForAll([k], z3.Implies(ranged(k, a[1]), z3.Select(
                    b[2], k) == z3.Select(a[2], k))))),
                ("no name is defined anew", z3.ForAll([x], z3.Implies(z3.Select(a[3], x), z3.And(z3.Select(
                    b[3], x), z3.Select(b[4], x) == z3.Select(a[4], x)))))]

    def havoc(self):
        """Anything that only adds may have been written."""
        V, i = self.V, self.V.i
        before = self.now()
        for c in (self.types.attrs["_elements_added"], self.types.attrs["_lst"], self.defs):
            i.touch(c)
        i.set_dom(self.types.attrs["_elements_added"], V.eng.new("members", z3.ArraySort(Str, Bool)), STR)
        fresh = V.list(STR, "lst")
        self.types.attrs["_lst"].view, self.types.attrs["_lst"].items = fresh.view, None
        self.defs.state, self.defs.items = i.fresh_dict(STR, STR), None
        i.touch_heap("name")
        V.eng.heap["name"] = V.eng.new("heap.name", V.eng.heap["name"].sort())
        by = V.eng.new("name_of_text", z3.ArraySort(Str, Str))
        for _, t in self.grown(before, self.now()):
            V.assume(t)
        V.assume(self.named(by, self.now()))
        return by


def below(V, written, box, what):
    """The contract of the recursive call."""
    def summary(i, args, kw):
        V.prove(f"{what}", z3.And(kw["types"] is written.types, kw["definitions"] is written.defs))
        V.prove("every text defines a name of its own (below)", written.named(box["by"], written.now()))
        box["by"] = written.havoc()
        box["below"] = (i.eng.to_val(args[0]), written.now())

    REG.summaries["DataTypeTree", "_get_strs_all_nodes_unformatted"] = summary


@contract("C03 C08", "DataTypeTree._get_strs_all_nodes_unformatted", covers=("children", "none"), obligations=(
        "raises nothing", "nothing written is lost", "only written at the end", "no name is defined anew",
        "every text defines a name of its own", "a child is written exactly if it is permitted",
        "right after what is below it", "the same set of definitions and names is used below"))
def _(V):
    W = World(V)
    texts(V)
    nodes = W.nodes()
    node = W.self_of("list", nodes)
    types, defs = ordered(V), V.dict(STR, STR, "definitions")
    w = Written(V, types, defs)
    start = w.now()
    V.assume(w.named(w.by, start))
    box = {"by": w.by}
    below(V, w, box, "the same set of definitions and names is used below")
    j = z3.Int("j!wr")
    x = z3.Const("x!wr", Str)
    child = lambda j: node_at_(nodes, j)

    def unique(i, args, kw):
        """The contract of _make_name_unique."""
        t = i.eng.to_val(args[0])
        V.prove("names are made unique among the same definitions", args[1] is defs)
        st = i.symbolic_dict(defs, STR, STR)
        i.touch(defs)
        i.touch_heap("name")
        new = i.eng.new("new_name", Str)
        h0 = i.eng.heap["name"]
        h = i.eng.heap["name"] = z3.Store(h0, t, new)
        text = f_node_text(t, h)
        i.eng.assume(z3.Implies(z3.Select(st.dom, new), z3.Select(st.cols[0], new) == text))
        i.dict_set(defs, SStr(new), SStr(text))
        box["by"] = z3.Store(box["by"], text, new)

    REG.summaries["DataTypeTree", "_make_name_unique"] = unique

    def inv(L):
        now = w.now()
        text = lambda j: z3.Select(L.ghost["text"], j)
        box["by"] = by = L.ghost["by"]
        return [("every text defines a name of its own", w.named(by, now)), *w.grown(start, now),
                ("permitted children are written", FA([j], z3.Implies(z3.And(ranged(j, L.i), f_perm_(child(j))), z3.And(
                    z3.Select(now[0], text(j)))), child(j)))]

    def step(L):
        t = V.eng.to_val(nodes.get(L.i))
        text = f_node_text(t, V.eng.heap["name"])
        at, (mem, n, arr, dom, val) = box["below"]
        mem2, n2, arr2, dom2, val2 = w.now()
        V.prove("what is below a child is written before it", at == t)
        perm = f_perm_(t)
        added = z3.And(n2 == n + 1, z3.Select(arr2, n) == text)
        V.prove("a child is written exactly if it is permitted", z3.If(perm, z3.And(z3.Select(mem2, text), z3.ForAll(
            [x], z3.Implies(z3.And(z3.Select(mem2, x), x != text), z3.Select(mem, x)))), mem2 == mem))
        V.prove("right after what is below it", z3.If(perm, z3.If(z3.Select(mem, text), n2 == n, added), n2 == n))
        return z3.Store(L.ghost["text"], L.i, text)

    R = core.RawK
    REG.loops["DataTypeTree._get_strs_all_nodes_unformatted", 0] = LoopSpec(inv, ghosts={
        "text": (R(z3.ArraySort(Int, Str)), z3.K(Int, S("")), step),
        "by": (R(z3.ArraySort(Str, Str)), w.by, lambda L: box["by"])})
    r = V.run(tree_class()._get_strs_all_nodes_unformatted, node, types=types, definitions=defs)
    V.no_exception(r)
    now = w.now()
    for label, t in w.grown(start, now):
        V.prove(label, t)
    V.prove("every text defines a name of its own", w.named(box["by"], now))
    V.cover("children" if V.branch(nodes.n > 0) else "none")


def node_at_(seq, j):
    return seq.get(j).t


def f_perm_(t):
    from contracts.world import f_perm
    return f_perm(t)


@contract("C03 C08 C18", "DataTypeTree.get_strs_all_nodes_unformatted", covers=("imports", "none"), obligations=(
        "raises nothing", "the name of the root is its own", "definitions of the nodes below come first, in order",
        "the root is defined last", "imports come first, if they are asked for"))
def _(V):
    W = World(V)
    texts(V)
    node = W.node("root")
    V.assume(f_perm_(node.t))
    with_imports = V.bool("include_imports")
    heap0 = V.eng.heap["name"]
    name0 = z3.Select(heap0, node.t)
    box = {}
    formatted = V.str("formatted_imports")
    REG.summaries["ImportManager", "format"] = lambda i, args, kw: formatted

    def run_below(i, args, kw):
        types, defs = kw["types"], kw["definitions"]
        w = Written(V, types, defs)
        mem, n, _, dom, val = w.now()
        V.prove("nothing is written before", n == 0)
        V.prove("the name of the root is its own", z3.And(z3.Select(dom, name0), z3.Select(val, name0) == S("")))
        w.by = w.havoc()
        # A node below never takes the name of the root, and no text is empty
        h = i.eng.heap["name"]
        i.eng.assume(z3.Select(h, node.t) == name0)
        box.update(w=w, now=w.now(), text=f_node_text(node.t, h))
        # The text of the root is another one than those below: its name is not among theirs
        i.eng.assume(z3.Not(z3.Select(box["now"][0], box["text"])))

    REG.summaries["DataTypeTree", "_get_strs_all_nodes_unformatted"] = run_below
    r = V.run(tree_class().get_strs_all_nodes_unformatted, node, include_imports=with_imports)
    V.no_exception(r)
    v = V.eng.view(r)
    out = V.eng.array_of(v, STR)
    _, n, arr, _, _ = box["now"]
    k = z3.Int("k!all")
    extra = z3.If(with_imports.t, z3.IntVal(1), z3.IntVal(0))
    V.prove("the root is defined last", z3.And(v.n == n + extra + 1, z3.Select(out, v.n - 1) == box["text"]))
    V.prove("definitions of the nodes below come first, in order", z3.ForAll([k], z3.Implies(
        ranged(k, n), z3.Select(out, k + extra) == z3.Select(arr, k))))
    V.prove("imports come first, if they are asked for", z3.Implies(with_imports.t, z3.Select(out, 0) == formatted.t))
    V.cover("imports" if V.branch(with_imports.t) else "none")


@contract("C01 C06", "DataTypeTree.get_str_top_node_without_lvalue", obligations=(
    "raises nothing", "what follows the name", "nothing of a text without a name is lost"))
def _(V):
    W = World(V)
    name, body = V.str("name"), V.str("body")
    V.assume(z3.Not(z3.Contains(body.t, S("="))))
    for label, t, rest in (("what follows the name", z3.Concat(name.t, S("="), body.t), body.t),
                           ("nothing of a text without a name is lost", body.t, body.t)):
        REG.summaries["DataTypeTree", "_get_str_top_node"] = lambda i, args, kw: SStr(t)
        r = V.run(tree_class().get_str_top_node_without_lvalue, W.node("node"))
        V.no_exception(r)
        V.prove(label, V.eng.str_term(r) == V.eng.str_term(V.i.call_method(SStr(rest), "strip", (), {})))
    V.cover()


@contract("C03 C08", "DataTypeTree._rename", covers=("below another", "root"), obligations=(
    "raises nothing", "the new name takes the place of the old one", "every child is renamed accordingly"))
def _(V):
    W = World(V)
    nodes = W.nodes()
    parent = V.eng.new("parent", Val)
    root = V.bool("is_root")
    name, new, n = V.str("old_name"), V.str("new_name"), V.int("len_old_name")
    V.assume(z3.And(n.t >= 0, n.t <= z3.Length(name.t)))
    is_root = V.branch(root.t)
    node = W.self_of("list", nodes, name=name, parent=None if is_root else SVal(parent, tree_class()))
    seen = []

    def child(i, args, kw):
        seen.append(1)
        V.prove("every child is renamed accordingly", z3.And(
            i.eng.str_term(kw["new_name"]) == new.t, i.eng.int_term(kw["len_old_name"]) == n.t))
        i.touch_heap("name")
        i.eng.heap["name"] = i.eng.new("heap.name", i.eng.heap["name"].sort())
        box["last"] = i.eng.to_val(args[0])

    box = {}
    j = z3.Int("j!rn")

    def inv(L):
        return [("every child before", FA([j], z3.Implies(ranged(j, L.i), z3.Select(L.ghost["done"], node_at_(
            nodes, j))), node_at_(nodes, j)))]

    R = core.RawK
    REG.loops["DataTypeTree._rename", 0] = LoopSpec(inv, ghosts={
        "done": (R(z3.ArraySort(Val, Bool)), z3.K(Val, z3.BoolVal(False)),
                 lambda L: z3.Store(L.ghost["done"], box["last"], z3.BoolVal(True)) if "last" in box else L.ghost["done"])})
    REG.summaries["DataTypeTree", "_rename"] = child
    r = V.run(tree_class()._rename, node, new, len_old_name=n)
    V.no_exception(r)
    got = V.eng.str_term(node.attrs["name"])
    V.prove("the new name takes the place of the old one", got == (new.t if is_root else z3.Concat(
        new.t, z3.SubString(name.t, n.t, z3.Length(name.t) - n.t))))
    V.cover("root" if is_root else "below another")
