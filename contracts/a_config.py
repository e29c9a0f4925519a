"""C09: what the configuration accepts, which names are accepted."""
import typing

from pyvc.core import INT, STR, VAL, OptK, Raised, SStr, SInt, f_inst, z3
from pyvc.models import f_isident
from pyvc.interp import REG
from pyvc.verify import contract


def module(name):
    import importlib
    return importlib.import_module(name)


@contract("C09", "is_string_python_keyword_compatible", obligations=("raises nothing", "identifier and no keyword"))
def _(V):
    import keyword
    fn = module("lazy_type_hint.utils.utils").is_string_python_keyword_compatible
    s = V.str("name")
    r = V.run(fn, s)
    V.no_exception(r)
    no_keyword = z3.And(*(s.t != z3.StringVal(k) for k in sorted(keyword.kwlist)))
    V.prove("identifier and no keyword", V.eng.bool_term(r) == z3.And(f_isident(s.t), no_keyword))
    V.cover()


@contract("C09", "ParsingStrategies.__post_init__", covers=("accepted", "rejected"),
          obligations=("accepts only valid values", "rejects only invalid values", "rejects with ValueError"))
def _(V):
    m = module("lazy_type_hint.strategies")
    cls = m.ParsingStrategies
    text = {
        "list_strategy": ("Sequence", "list"),
        "tuple_size_strategy": ("fixed", "any size"),
        "dict_strategy": ("TypedDict", "Mapping", "dict"),
        "pandas_strategies": ("Full type hint", "Type hint only for autocomplete", "Do not type hint columns"),
    }
    attrs = {n: V.str(n) for n in text}
    attrs["min_height_to_define_type_alias"] = V.int("min_height")
    attrs["merge_different_typed_dicts_if_similarity_above"] = V.int("similarity")
    attrs["key_used_as_doc"] = V.str("key_used_as_doc")
    attrs["typed_dict_read_only_values"] = V.bool("read_only")
    n_max = V.fresh(OptK(INT), "n_max")
    attrs["check_max_n_elements_within_container"] = n_max
    valid = [z3.Or(*(attrs[n].t == z3.StringVal(v) for v in values)) for n, values in text.items()]
    valid.append(attrs["min_height_to_define_type_alias"].t >= 0)
    s = attrs["merge_different_typed_dicts_if_similarity_above"].t
    valid += [s > 0, s <= 100, z3.Or(n_max.none, n_max.value.t > 0)]
    r = V.run(cls.__post_init__, V.obj(cls, **attrs))
    if isinstance(r, Raised):
        V.prove("rejects with ValueError", issubclass(r.cls, ValueError))
        V.prove("rejects only invalid values", z3.Not(z3.And(*valid)))
        V.cover("rejected")
    else:
        V.prove("accepts only valid values", z3.And(*valid))
        V.cover("accepted")
