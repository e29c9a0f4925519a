"""Data specifications, the data they stand for, and the reference meaning of a hint.

A spec is a nested tuple (JSON-able as nested lists); `build` makes a fresh value from it (iterators included).
`expected` gives the abstract type that the properties require for it. It is written from the property statements
and knows nothing about trees, names or rendering.
"""
import ast
import random
from types import MappingProxyType

from lib import pool

DEFAULTS = dict(
    list_strategy="list",
    tuple_size_strategy="fixed",
    dict_strategy="TypedDict",
    pandas_strategies="Full type hint",
    min_height_to_define_type_alias=1,
    key_used_as_doc="",
    merge_different_typed_dicts_if_similarity_above=50,
    typed_dict_read_only_values=False,
    check_max_n_elements_within_container=500,
)

SEQ = {"list", "tuple", "set", "frozenset", "iter", "gen", "series", "mylist", "mytuple", "myset", "point"}
MAP = {"dict", "mdict", "proxy"}


def norm_sig(text):
    fn = ast.parse(f"def _{text}: ...").body[0]
    ret = f" -> {ast.unparse(fn.returns)}" if fn.returns is not None else ""
    return f"({ast.unparse(fn.args)}){ret}"


def leaf_type(name):
    t = pool.LEAVES[name][1]
    return ("proto", norm_sig(t[1])) if t[0] == "proto" else t


def totuple(x):
    return tuple(totuple(e) for e in x) if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------------------------------------ build
PREFIX = "___docstring_hidden_key_"  # as written for the comments of YAML files


def key_of(k):
    """Keys are written ('s', text), ('s', text, documentation), ('i', 1), ('leaf', name), ('t', (..))."""
    if k[0] == "leaf":
        return pool.LEAVES[k[1]][0]()
    if k[0] == "t":
        return tuple(key_of(e) for e in k[1])
    return k[1]


def key_type_name(k):
    key = key_of(k)
    if key is None:
        return "None"
    name = type(key).__name__
    import builtins

    return name if isinstance(getattr(builtins, name, None), type) else f'"{name}"'


def build(spec):
    kind = spec[0]
    if kind == "leaf":
        return pool.LEAVES[spec[1]][0]()
    if kind in SEQ:
        items = [build(s) for s in spec[1]]
        if kind == "list":
            return items
        if kind == "mylist":
            return pool.MyList(items)
        if kind == "tuple":
            return tuple(items)
        if kind == "mytuple":
            return pool.MyTuple(items)
        if kind == "point":
            return pool.Point(*items)
        if kind == "set":
            return set(items)
        if kind == "myset":
            return pool.MySet(items)
        if kind == "frozenset":
            return frozenset(items)
        if kind == "iter":
            return iter(items)
        if kind == "gen":
            return (x for x in items)
        if kind == "series":
            import pandas as pd

            if items and len({type(i) for i in items}) == 1 and type(items[0]) in (int, float, str, bool):
                return pd.Series(items)
            return pd.Series(items, dtype=object)
    if kind in MAP:
        dct = {}
        documentable = kind != "proxy" and all(k[0] == "s" for k, _ in spec[1])
        for k, v in spec[1]:
            if documentable and len(k) == 3 and k[2][0] == "<":
                dct[PREFIX + k[1]] = k[2][1:]
            dct[key_of(k)] = build(v)
            if documentable and len(k) == 3 and k[2][0] != "<":
                dct[PREFIX + k[1]] = k[2]
        if kind == "proxy":
            return MappingProxyType(dct)
        return pool.MyDict(dct) if kind == "mdict" else dct
    if kind == "df":
        import pandas as pd

        columns = [key_of(k) for k, _ in spec[1]]
        if spec[2] is None:  # one scalar column each
            if columns and all(isinstance(c, tuple) for c in columns):
                index = pd.MultiIndex.from_tuples(columns)
            else:
                index = pd.Index(columns, dtype=object) if columns else columns
            frame = pd.DataFrame([[None] * len(columns)] * 1, columns=index, dtype=object)
            for i, (_, values) in enumerate(spec[1]):
                frame.isetitem(i, build(("series", values)).iloc[:1].reset_index(drop=True))
            return frame
    raise ValueError(spec)


# ------------------------------------------------------------------------------------------------ types
def absorb(types):
    types = set(types)
    if ("name", "float") in types:
        types.discard(("name", "int"))
    return frozenset(types)


def unordered(kind):
    return kind in {"set", "frozenset", "myset"}


def is_typed(spec, st):
    return spec[0] in ("dict", "mdict") and st["dict_strategy"] == "TypedDict" and all(k[0] == "s" or (
        isinstance(key_of(k), str)) for k, _ in spec[1])


def limit(items, st):
    n = st["check_max_n_elements_within_container"]
    return list(items) if not n else list(items)[:n]


def expected(spec, st):
    """Abstract type of the hint."""
    kind = spec[0]
    if kind == "leaf":
        return leaf_type(spec[1])
    if kind in SEQ:
        items = limit(dedup_order(spec), st)
        types = [expected(s, st) for s in items]
        types = merged(items, types, st)
        if kind in ("tuple", "mytuple", "point"):
            if not types:
                return ("TupleAny",)
            if st["tuple_size_strategy"] == "fixed":
                return ("Tuple", tuple(types))
            return ("TupleAnySize", absorb(types))
        name = {
            "list": "List" if st["list_strategy"] == "list" else "Sequence",
            "mylist": "List" if st["list_strategy"] == "list" else "Sequence",
            "set": "Set",
            "myset": "Set",
            "frozenset": "FrozenSet",
            "iter": "Iterator",
            "gen": "Iterator",
            "series": "Series",
        }[kind]
        return (name, absorb(types))
    if kind in MAP:
        if is_typed(spec, st):
            ro = st["typed_dict_read_only_values"]
            return ("TypedDict", frozenset((key_of(k), True, ro, expected(v, st)) for k, v in spec[1]))
        # Under the TypedDict strategy dictionaries are always read in full
        full = kind != "proxy" and st["dict_strategy"] == "TypedDict"
        items = list(spec[1]) if full else limit(spec[1], st)
        container = "MappingProxyType" if kind == "proxy" else {"TypedDict": "Dict", "dict": "Dict"}.get(
            st["dict_strategy"], "Mapping")
        keys = {key_type_name(k) for k, _ in items}
        if "float" in keys:
            keys.discard("int")
        return (container, frozenset(keys), absorb(expected(v, st) for _, v in items))
    if kind == "df":
        return expected_df(spec, st)
    raise ValueError(spec)


def expected_df(spec, st):
    if st["pandas_strategies"] == "Do not type hint columns":
        return ("DFplain",)
    cols = [key_of(k) for k, _ in spec[1]]
    if not cols:
        return ("DFplain",)
    multi = all(isinstance(c, tuple) for c in cols)
    if multi:
        if not all(isinstance(c[0], (str, int, bool)) for c in cols) or all(len(c) == 1 for c in cols):
            return ("DFplain",)
        out, seen = [], []
        for c in cols:
            if repr(c[0]) in seen:
                continue
            seen.append(repr(c[0]))
            sub = [(("t", k[1][1:]) if len(k[1]) > 2 else k[1][1], v) for k, v in spec[1] if key_of(k)[0] == c[0]]
            out.append((repr(c[0]), expected_df(("df", tuple(sub), None), st)))
        return ("DF", tuple(out))
    if not all(isinstance(c, (str, int, bool)) for c in cols):
        return ("DFplain",)
    out, seen = [], []
    for (k, _), c in zip(spec[1], cols):
        if repr(c) in seen:
            continue
        seen.append(repr(c))
        same = [v for k2, v in spec[1] if key_of(k2) == c]
        if len(same) == 1:
            out.append((repr(c), expected(("series", same[0][:1]), st)))
        elif len(same) == len(cols):
            out.append((repr(c), ("DFplain",)))
        else:
            out.append((repr(c), expected_df(("df", tuple(x for x in spec[1] if key_of(x[0]) == c), None), st)))
    if len(out) == 1 and len(cols) > 1:
        return ("DF", ((out[0][0], ("DFplain",)),))
    return ("DF", tuple(out))


def dedup_order(spec):
    """Elements in iteration order (for sets: the order of the set actually built is not known, see callers)."""
    return list(spec[1])


def merge_info(items, types, st):
    """(should merge, merged type) for the TypedDict based elements of a container."""
    typed = [(s, t) for s, t in zip(items, types) if isinstance(t, tuple) and t[0] == "TypedDict"]
    if not typed:
        return False, None
    key_sets = [{key_of(k) for k, _ in s[1]} for s, _ in typed]
    common = set.intersection(*key_sets)
    total = set.union(*key_sets)
    if not total or 100 * len(common) < st["merge_different_typed_dicts_if_similarity_above"] * len(total):
        return False, None
    per_key = {}
    for _, t in typed:
        for key, required, ro, sub in t[1]:
            per_key.setdefault(key, set()).add(sub)
    pytypes = {}
    for s, _ in typed:
        for k, v in s[1]:
            pytypes.setdefault(key_of(k), set()).add(pytype(v))
    for types_ in pytypes.values():
        if "float" in types_:
            types_.discard("int")
    per_key = {k: absorb(v) for k, v in per_key.items()}
    if any(len(v) > 1 for v in per_key.values()) or any(len(v) > 1 for v in pytypes.values()):
        return False, None
    ro = st["typed_dict_read_only_values"]
    return True, (
        "TypedDict",
        frozenset((k, k in common, ro, next(iter(v))) for k, v in per_key.items()),
    )


def pytype(spec):
    if spec[0] == "leaf":
        return type(pool.LEAVES[spec[1]][0]()).__name__
    return spec[0]


def merged(items, types, st):
    do, new = merge_info(items, types, st)
    if not do:
        return types
    return [new if isinstance(t, tuple) and t[0] == "TypedDict" else t for t in types]


# --------------------------------------------------------------------------------------------- generation
KEYS = ["a", "b", "c", "key", "my_key", "name", "Name"]
ODD_KEYS = ["my key", "a-b", "a_b", "a b", "1a", "11", "class", "None", "", " ", "__x", "__d__", "_p", "ñ", "ﬁ", '"', "'",
            "a\nb", "{x}", "\\", "a:b", "x=1", "a\"\"\"b", "keys", "items", "def", "µ", "ａ", "\t", "€", "True", "x'y\"z"]


class Gen:
    def __init__(self, rng, *, leaves=None, kinds=None, max_depth=3, max_len=4, odd_keys=0.15, dup=0.5):
        self.rng = rng
        self.leaves = leaves or list(pool.LEAVES)
        self.kinds = kinds or ["list", "tuple", "set", "frozenset", "iter", "gen", "dict", "dict", "dict", "proxy",
                               "series", "mylist", "mdict", "mytuple", "point"]
        self.max_depth, self.max_len, self.odd_keys, self.dup = max_depth, max_len, odd_keys, dup

    def leaf(self, hashable=False):
        names = [n for n in self.leaves if not hashable or n in pool.HASHABLE]
        if self.rng.random() < 0.6:
            simple = [n for n in pool.SIMPLE if n in names]
            if simple:
                return ("leaf", self.rng.choice(simple))
        return ("leaf", self.rng.choice(names))

    def key(self):
        r = self.rng
        if r.random() < self.odd_keys:
            return self.documented(("s", r.choice(ODD_KEYS)))
        return self.documented(("s", r.choice(KEYS)))

    def documented(self, key, chance=0.06):
        if key[0] == "s" and self.rng.random() < chance:
            return ("s", key[1], self.rng.choice(["<", ""]) + self.rng.choice(["What it is.", "it's \"so\"", "a\nb"]))
        return key

    def any_key(self):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return self.key()
        if x < 0.6:
            return ("i", r.choice([0, 2, 3, 1.5, 2.5, -1]))
        if x < 0.8:
            return ("t", (("i", r.randint(0, 3)), ("s", "x")))
        return ("leaf", r.choice(["none", "bool", "bytes", "foo", "type_int", "range"]))

    def items(self, depth, hashable):
        r = self.rng
        n = r.choice([0, 1, 1, 2, 2, 3, self.max_len])
        if r.random() < 0.03:  # Long ones, of few different elements
            few = [self.spec(max(depth + 1, self.max_depth - 1), hashable) for _ in range(r.randint(1, 4))]
            return tuple(r.choice(few) for _ in range(r.choice([7, 11, 17, 26, 40])))
        out = []
        for _ in range(n):
            if out and r.random() < self.dup * 0.6:
                out.append(self.vary(r.choice(out), depth))
            else:
                out.append(self.spec(depth + 1, hashable))
        return tuple(out)

    def vary(self, spec, depth):
        """A sibling similar to the given one."""
        r = self.rng
        if spec[0] in MAP and spec[1] and r.random() < 0.8:
            pairs = list(spec[1])
            x = r.random()
            if x < 0.3 and len(pairs) > 1:
                pairs.pop(r.randrange(len(pairs)))
            elif x < 0.6:
                k = self.key()
                if key_of(k) not in [key_of(p[0]) for p in pairs]:
                    pairs.insert(r.randint(0, len(pairs)), (k, self.spec(depth + 2, False)))
            elif x < 0.8:
                i = r.randrange(len(pairs))
                pairs[i] = (pairs[i][0], self.vary(pairs[i][1], depth + 1))
            elif x < 0.9:
                pairs = [(self.documented(k[:2], 0.5) if k[0] == "s" else k, v) for k, v in pairs]
            else:
                r.shuffle(pairs)
            return (spec[0], tuple(pairs))
        if spec == ("leaf", "int") and r.random() < 0.5:
            return ("leaf", "float")
        if spec == ("leaf", "float") and r.random() < 0.5:
            return ("leaf", "int")
        if spec[0] == "leaf" and r.random() < 0.5:  # Another one that is hinted in the same way
            form = pool.LEAVES[spec[1]][1]
            names = self.leaves or list(pool.LEAVES)
            if form[0] != "name":
                return ("leaf", r.choice([k for k in names if pool.LEAVES[k][1][0] == form[0]] or [spec[1]]))
            return ("leaf", r.choice([k for k in names if pool.LEAVES[k][1] == form] or [spec[1]]))
        if spec[0] in SEQ - {"point"} and spec[1] and r.random() < 0.5:
            i = r.randrange(len(spec[1]))
            items = list(spec[1])
            if unordered(spec[0]) or self.hash_ctx(spec):
                return spec
            x = r.random()
            if x < 0.25:
                r.shuffle(items)
            elif x < 0.4:
                items.insert(r.randint(0, len(items)), items[i])
            else:
                items[i] = self.vary(items[i], depth + 1)
            return (spec[0], tuple(items))
        return spec

    def hash_ctx(self, spec):
        return False

    def spec(self, depth=0, hashable=False):
        r = self.rng
        if depth >= self.max_depth or (depth > 0 and r.random() < 0.45):
            return self.leaf(hashable)
        kinds = [k for k in self.kinds if not hashable or k in ("tuple", "frozenset", "mytuple", "point")]
        if not kinds:
            return self.leaf(hashable)
        return self.container(r.choice(kinds), depth, hashable)

    def container(self, kind, depth=0, hashable=False):
        r = self.rng
        if kind == "df":
            return self.frame()
        if kind in SEQ:
            if kind == "point":
                return (kind, (self.spec(depth + 1, hashable), self.spec(depth + 1, hashable)))
            items = self.items(depth, hashable or unordered(kind))
            if unordered(kind):
                items = distinct_hashables(items)
            return (kind, items)
        n = r.choice([0, 1, 2, 2, 3, self.max_len])
        pairs, seen = [], []
        string_keys = kind != "proxy" and r.random() < 0.8
        shared = None
        for _ in range(n):
            k = self.key() if string_keys else self.any_key()
            value = key_of(k)
            if any(value == s for s in seen):
                continue
            seen.append(value)
            if shared is not None and r.random() < 0.3:
                v = self.vary(shared, depth + 1)
            else:
                v = self.spec(depth + 1, False)
            shared = v
            pairs.append((k, v))
        return (kind, tuple(pairs))

    def column(self):
        r = self.rng
        return r.choice([("s", "A"), ("s", "B"), ("s", "my col"), ("s", "it's"), ("s", ""), ("i", 0), ("i", 7),
                         ("s", "class"), ("s", "A b"), ("s", '"'), ("s", "7"), ("s", "0"), ("i", True), ("s", "True"),
                         ("i", -1)])

    def level(self):
        """Second and further levels: pandas treats the empty string in a special way there."""
        while True:
            column = self.column()
            if column != ("s", ""):
                return column

    def frame(self):
        r = self.rng
        n = r.choice([0, 1, 2, 2, 3])
        mode = r.random()
        cols = []
        for _ in range(n):
            if mode < 0.55:
                cols.append(self.column())
            elif mode < 0.85:
                cols.append(("t", (self.column(), self.level())))
            else:
                cols.append(("t", (self.column(), self.level(), self.level())))
        if r.random() < 0.1 and cols and mode < 0.55:
            cols[-1] = ("i", 1.5)
        if r.random() < 0.2 and cols and mode >= 0.55 and all(c[1][-1][0] == "s" for c in cols):
            at = r.randrange(len(cols))  # No other number there: pandas would turn it into a float as well
            cols[at] = ("t", cols[at][1][:-1] + (("i", 1.5),))
        if r.random() < 0.3 and cols:
            cols.append(r.choice(cols))
        return ("df", tuple((c, (("leaf", r.choice(["int", "float", "str", "bool", "none", "foo"])),)) for c in cols),
                None)


def distinct_hashables(items):
    out, values = [], []
    for s in items:
        v = build(s)
        try:
            if any(v == w for w in values):
                continue
            hash(v)
        except Exception:
            continue
        values.append(v)
        out.append(s)
    return tuple(out)


def strategies(rng, **fixed):
    st = dict(
        list_strategy=rng.choice(["list", "list", "Sequence"]),
        tuple_size_strategy=rng.choice(["fixed", "any size"]),
        dict_strategy=rng.choice(["TypedDict", "TypedDict", "TypedDict", "dict", "Mapping"]),
        pandas_strategies=rng.choice(["Full type hint", "Type hint only for autocomplete", "Do not type hint columns"]),
        min_height_to_define_type_alias=rng.choice([0, 0, 1, 1, 2, 3]),
        key_used_as_doc="",
        merge_different_typed_dicts_if_similarity_above=rng.choice([1, 25, 33, 34, 50, 50, 51, 66, 67, 75, 80, 99, 100]),
        typed_dict_read_only_values=rng.random() < 0.2,
        check_max_n_elements_within_container=rng.choice([None, 500, 500, 500, 1, 2, 3]),
    )
    st.update(fixed)
    return st


def valid(spec):
    """No two keys of a mapping are equal (shrinking could produce that)."""
    if spec[0] == "leaf":
        return True
    if spec[0] in MAP:
        keys = [key_of(k) for k, _ in spec[1]]
        if any(a == b for i, a in enumerate(keys) for b in keys[:i]):
            return False
        return all(valid(v) for _, v in spec[1])
    if spec[0] in SEQ:
        return all(valid(v) for v in spec[1])
    return True
