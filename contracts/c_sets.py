"""C03, C08, C19: the ordered set of definitions and the set of imports."""
from contracts.world import FA, S, World, cls, module
from pyvc.core import INT, STR, VAL, Int, ListCell, Raised, SBool, SStr, Str, Val, ranged, z3
from pyvc.interp import REG, LoopSpec
from pyvc.verify import contract


def ordered_set(V):
    """Any ordered set: the list holds the elements of the set, each once."""
    o = cls("utils.ordered_set.OrderedSet")
    xs, st = V.list(STR, "lst"), V.set(STR, "added")
    arr, n = V.eng.array_of(xs.view, STR), xs.view.n
    pos = V.eng.new("pos", z3.ArraySort(Str, Int))
    k, x = z3.Int("k!os"), z3.Const("x!os", Str)
    V.assume(FA([k], z3.Implies(ranged(k, n), z3.And(z3.Select(st.dom, z3.Select(arr, k)), z3.Select(
        pos, z3.Select(arr, k)) == k)), z3.Select(arr, k)))
    V.assume(FA([x], z3.Implies(z3.Select(st.dom, x), z3.And(ranged(z3.Select(pos, x), n), z3.Select(arr, z3.Select(
        pos, x)) == x)), z3.Select(st.dom, x)))
    return V.obj(o, _elements_added=st, _lst=xs), arr, n, st.dom


def same_upto(V, cell, arr, n):
    new = V.eng.view(cell)
    k = z3.Int("k!same")
    return z3.And(new.n >= n, z3.ForAll([k], z3.Implies(ranged(k, n), z3.Select(V.eng.array_of(new, STR), k) == z3.Select(
        arr, k))))


@contract("C03 C08 C18", "OrderedSet.add", covers=("new", "known"), obligations=(
        "raises nothing", "a new element is added at the end", "a known element changes nothing", "earlier ones stay",
        "members are exactly the old ones and the new one"))
def _(V):
    o, arr, n, dom = ordered_set(V)
    x = V.str("element")
    known = z3.Select(dom, x.t)
    r = V.run(type(o) and o.cls.add, o, x)
    V.no_exception(r)
    new = V.eng.view(o.attrs["_lst"])
    narr = V.eng.array_of(new, STR)
    V.prove("earlier ones stay", same_upto(V, o.attrs["_lst"], arr, n))
    V.prove("a new element is added at the end", z3.Implies(z3.Not(known), z3.And(new.n == n + 1, z3.Select(
        narr, n) == x.t)))
    V.prove("a known element changes nothing", z3.Implies(known, new.n == n))
    y = z3.Const("y!m", Str)
    V.prove("members are exactly the old ones and the new one", z3.ForAll([y], z3.Select(
        o.attrs["_elements_added"].dom, y) == z3.Or(z3.Select(dom, y), y == x.t)))
    V.cover("known" if V.branch(known) else "new")


@contract("C03 C08 C18", "OrderedSet.as_list and as_tuple", obligations=("raises nothing", "the elements in order",
                                                                      "the list is a copy"))
def _(V):
    o, arr, n, dom = ordered_set(V)
    r = V.run(o.cls.as_list, o)
    V.no_exception(r)
    V.prove("the elements in order", z3.And(V.eng.view(r).n == n, same_upto(V, r, arr, n)))
    V.prove("the list is a copy", isinstance(r, ListCell) and r is not o.attrs["_lst"])
    t = V.run(o.cls.as_tuple, o)
    V.no_exception(t)
    V.prove("the elements in order", z3.And(V.eng.view(t).n == n, same_upto(V, t, arr, n)))
    V.cover()


@contract("C03", "ImportManager.add, in", obligations=("raises nothing", "adds exactly the keyword", "returns itself"))
def _(V):
    W = World(V)
    x, y = V.str("keyword"), z3.Const("y!i", Str)
    r = V.run(W.imports.cls.add, W.imports, x)
    V.no_exception(r)
    V.prove("returns itself", r is W.imports)
    V.prove("adds exactly the keyword", z3.ForAll([y], z3.Select(W.imported.dom, y) == z3.Or(
        z3.Select(W.imports0, y), y == x.t)))
    z = V.str("asked")
    r = V.run(W.imports.cls.__contains__, W.imports, z)
    V.no_exception(r)
    V.prove("membership", V.eng.bool_term(r) == z3.Select(W.imported.dom, z.t))
    V.cover()


@contract("C03 C08", "ImportManager.provides", obligations=("raises nothing", "exactly the names that imports define"))
def _(V):
    W = World(V)
    package = W.imports.attrs["PACKAGE"]
    y = z3.Const("y!p", Str)
    V.assume(z3.ForAll([y], z3.Implies(z3.Select(W.imported.dom, y), z3.Or(*(y == S(k) for k in package)))))
    name = V.str("name")
    r = V.run(W.imports.cls.provides, W.imports, name)
    V.no_exception(r)
    V.prove("exactly the names that imports define", V.eng.bool_term(r) == z3.Or(*(
        z3.And(z3.Select(W.imports0, S(k)), name.t == S(v[-1])) for k, v in package.items())))
    V.cover()
