"""C05: comparing and merging dictionaries."""
from contracts.world import FA, GENERIC, S, World, cls, f_nodehash, module, node_at, node_class, tree_class
from contracts.d_trees import find
from pyvc import core
from pyvc.core import (
    BOOL, INT, STR, VAL, ConstK, Int, ListK, NodeK, Raised, SBool, SetK, SInt, SStr, Str, SVal, Val, ranged, z3,
)
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.verify import contract

DICT = GENERIC + "dict_data_type_tree."


def comparison(V, **attrs):
    return V.obj(cls(DICT + "DictMetadataComparison"), **attrs)


@contract("C05", "DictMetadataComparison.percentage_similarity", covers=("keys", "no keys"), obligations=(
    "raises nothing", "reaches a percentage exactly if the share of common keys does"))
def _(V):
    common, rest = V.set(VAL, "common"), V.set(VAL, "rest")
    a, b = (V.eng.int_term(V.call(len, x)) for x in (common, rest))
    r = V.run(cls(DICT + "DictMetadataComparison").percentage_similarity, comparison(
        V, common_keys=common, non_common_keys=rest))
    V.no_exception(r)
    p = V.int("percentage").t
    reached = V.eng.int_term(r) >= p
    V.assume(z3.And(p >= 1, p <= 100))
    V.prove("reaches a percentage exactly if the share of common keys does", z3.If(
        a + b > 0, reached == (100 * a >= p * (a + b)), z3.Not(reached)))
    V.cover("keys" if V.branch(a + b > 0) else "no keys")


@contract("C05", "DictMetadataComparison.all_corresponding_value_types_are_same_type", obligations=(
    "raises nothing", "exactly if no key has several types or structures"))
def _(V):
    types, structures = V.dict(VAL, SetK(VAL), "types"), V.dict(VAL, SetK(VAL), "structures")
    r = V.run(cls(DICT + "DictMetadataComparison").all_corresponding_value_types_are_same_type, comparison(
        V, value_types=types, value_structures=structures))
    V.no_exception(r)
    x = z3.Const("x!key", Val)
    card = z3.Function(f"card_{Val}", z3.ArraySort(Val, core.Bool), Int)
    one = []
    for d in (types, structures):
        st = d.state
        one.append((st.dom, lambda x, st=st: card(z3.Select(st.cols[0], x))))
    V.prove("exactly if no key has several types or structures", V.eng.bool_term(r) == z3.And(*(
        z3.ForAll([x], z3.Implies(z3.Select(dom, x), n(x) == 1)) for dom, n in one)))
    V.cover()
