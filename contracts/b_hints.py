"""C01, C02, C19: from the children of a container to the alternatives of its hint."""
from contracts.world import (
    FA, GENERIC, S, World, cls, f_inline, f_needs, f_perm, module, node_at, node_class, tree_class,
)
from pyvc.core import INT, STR, VAL, ListK, NodeK, SeqView, SStr, Str, Int, Val, ranged, z3
from pyvc.interp import LoopSpec, REG
from pyvc.models import join_term
from pyvc.verify import contract


def generic():
    return cls(GENERIC + "generic_data_type_tree.GenericDataTypeTree")


def lines(V, n_min=1):
    xs = V.tuple(STR, "types")
    V.assume(xs.n >= n_min)
    return xs


@contract("C01 C02 C03 C06", "GenericDataTypeTree._format_types", covers=("one", "several"), obligations=(
        "raises nothing", "one alternative stands for itself", "several are joined in order", "Union is imported",
        "nothing else is imported"))
def _(V):
    W = World(V)
    types = lines(V)
    r = V.run(generic()._format_types, W.self_of("list", W.nodes()), types)
    V.no_exception(r)
    text = V.eng.str_term(r)
    joined = z3.Concat(S("Union["), join_term(V.i, S(", "), types), S("]"))
    V.prove("one alternative stands for itself", z3.Implies(types.n == 1, text == z3.Select(V.eng.array_of(types, STR), 0)))
    V.prove("several are joined in order", z3.Implies(types.n > 1, text == joined))
    V.prove("Union is imported", z3.And(W.imports_grow(), z3.Implies(types.n > 1, W.has("Union"))))
    V.prove("nothing else is imported", W.imports_kept("Union"))
    V.cover("one" if V.branch(types.n == 1) else "several")


@contract("C01 C02 C03 C06", "TupleDataTypeTree._format_types", covers=("fixed", "any size", "empty"), obligations=(
        "raises nothing", "fixed: one entry per position", "any size: every alternative", "Any for nothing",
        "used names are imported"))
def _(V):
    W = World(V)
    types = lines(V)
    self = W.self_of("tuple", W.nodes())
    first = z3.Select(V.eng.array_of(types, STR), 0)
    r = V.run(node_class("tuple")._format_types, self, types)
    V.no_exception(r)
    text = V.eng.str_term(r)
    fixed = W.strategies.attrs["tuple_size_strategy"].t == S("fixed")
    nothing = z3.And(types.n == 1, first == S("Any"))
    V.prove("Any for nothing", z3.Implies(nothing, z3.And(text == S("Any, ..."), W.has("Any"))))
    V.prove("fixed: one entry per position", z3.Implies(z3.And(fixed, z3.Not(nothing)),
                                                      text == join_term(V.i, S(", "), types)))
    distinct = V.call(set, types)
    several = join_term(V.i, S(", "), V.i.iterate(V.call(sorted, distinct)))
    one = V.call(len, distinct)
    one = V.eng.int_term(one) == 1
    V.prove("any size: every alternative", z3.Implies(z3.And(z3.Not(fixed), z3.Not(nothing)), z3.If(
        one, text == z3.Concat(first, S(", ...")), text == z3.Concat(S("Union["), several, S("], ...")))))
    V.prove("used names are imported", z3.And(W.imports_grow(), W.imports_kept("Any", "Union"), z3.Implies(
        z3.And(z3.Not(fixed), z3.Not(nothing), z3.Not(one)), W.has("Union"))))
    if V.branch(nothing):
        V.cover("empty")
    else:
        V.cover("fixed" if V.branch(fixed) else "any size")


def alternative(W, node):
    """How a container refers to a child."""
    return z3.If(f_perm(node), z3.Select(W.eng.heap["name"], node), f_inline(node))


def inline_needs(seq, upto, x):
    j = z3.Int("j!need")
    c = node_at(seq, j)
    return z3.Exists([j], z3.And(0 <= j, j < upto, z3.Not(f_perm(c)), z3.Select(f_needs(c), x)))


def types_loop(W, seq, fixed_name="child_types"):
    def inv(L):
        j, x = z3.Int("j!inv"), z3.Const("x!inv", Str)
        types = L.eng.view(L[fixed_name])
        arr = L.eng.array_of(types, STR)
        c = node_at(seq, j)
        return [
            ("one entry per child so far", types.n == L.i),
            ("each refers to its child", FA([j], z3.Implies(ranged(j, L.i), z3.Select(arr, j) == alternative(W, c)),
                                              z3.Select(arr, j), c)),
            ("imports grow", W.imports_grow()),
            ("inline texts are imported", z3.ForAll([j, x], z3.Implies(z3.And(ranged(j, L.i), z3.Not(f_perm(
                c)), z3.Select(f_needs(c), x)), z3.Select(W.imported.dom, x)))),
            ("no other imports", z3.ForAll([x], z3.Implies(z3.Select(W.imported.dom, x), z3.Or(
                z3.Select(W.imports0, x), inline_needs(seq, L.i, x))))),
        ]
    return LoopSpec(inv)


@contract("C01 C02 C03 C19", "GenericDataTypeTree._get_types of the children", covers=("distinct", "all", "empty"),
          obligations=("raises nothing", "fixed: one entry per child in order", "every child is covered",
                       "every alternative stems from a child", "sorted and distinct", "Any exactly if empty",
                       "imports what it names", "imports nothing else"), prove_ms=20000)
def _(V):
    W = World(V)
    seq = W.nodes()
    self = W.self_of("list", seq)
    REG.loops["GenericDataTypeTree._get_types", 0] = types_loop(W, seq)
    distinct = V.bool("remove_repeated")
    r = V.run(generic()._get_types, self, remove_repeated=distinct)
    V.no_exception(r)
    r = V.eng.view(r)
    n, arr = r.n, V.eng.array_of(r, STR)
    j, k, x = z3.Int("j!p"), z3.Int("k!p"), z3.Const("x!p", Str)
    at = lambda q: z3.Select(arr, q)
    alt = lambda q: alternative(W, node_at(seq, q))
    V.prove("fixed: one entry per child in order", z3.Implies(z3.And(z3.Not(distinct.t), seq.n > 0), z3.And(
        n == seq.n, z3.ForAll([j], z3.Implies(ranged(j, n), at(j) == alt(j))))))
    some = lambda t: z3.Exists([k], z3.And(ranged(k, n), at(k) == t))
    V.prove("every child is covered", z3.ForAll([j], z3.Implies(ranged(j, seq.n), z3.Or(
        some(alt(j)), z3.And(distinct.t, alt(j) == S("int"), some(S("float")))))))
    stems = z3.Exists([j], z3.And(ranged(j, seq.n), alt(j) == at(k)))
    V.prove("every alternative stems from a child", z3.ForAll([k], z3.Implies(z3.And(ranged(k, n), seq.n > 0), stems)))
    V.prove("sorted and distinct", z3.Implies(distinct.t, z3.ForAll([j, k], z3.Implies(z3.And(
        0 <= j, j < k, k < n), at(j) < at(k)))))
    V.prove("float covers int", z3.Implies(distinct.t, z3.Not(z3.And(some(S("float")), some(S("int"))))))
    V.prove("Any exactly if empty", z3.Implies(seq.n == 0, z3.And(n == 1, at(0) == S("Any"), W.has("Any"))))
    V.prove("imports what it names", z3.And(W.imports_grow(), z3.ForAll([j, x], z3.Implies(z3.And(
        ranged(j, seq.n), z3.Not(f_perm(node_at(seq, j))), z3.Select(f_needs(node_at(seq, j)), x)),
        z3.Select(W.imported.dom, x)))))
    V.prove("imports nothing else", z3.ForAll([x], z3.Implies(z3.Select(W.imported.dom, x), z3.Or(
        z3.Select(W.imports0, x), inline_needs(seq, seq.n, x), z3.And(seq.n == 0, x == S("Any"))))))
    if V.branch(seq.n == 0):
        V.cover("empty")
    else:
        V.cover("distinct" if V.branch(distinct.t) else "all")
