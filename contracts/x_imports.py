"""C03, C19: the import statements that a text needs."""
from contracts.world import S, cls, module
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, Raised, SBool, SInt, SStr, Str, ranged, z3
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.verify import contract

I = "ImportManager"


def manager():
    return module("utils.import_manager").ImportManager


def known(t):
    """Whether the table of imports has a keyword."""
    return z3.Or(*(t == S(k) for k in manager()().PACKAGE))


def casted(t):
    return z3.If(t == S("List"), S("list"), z3.If(t == S("Tuple"), S("tuple"), z3.If(t == S("Set"), S("set"), z3.If(
        t == S("Dict"), S("dict"), t))))


@contract("C03 C16", "ImportManager._import_symbols", covers=("symbols",), obligations=(
    "raises nothing", "takes the text apart", "every symbol of the table is imported", "nothing else is imported"))
def _(V):
    from pyvc.models import f_lower
    words, text = V.list(STR, "words"), V.str("hint")
    for name in ("List", "Tuple", "Set", "Dict"):
        V.assume(f_lower(S(name)) == S(name.lower()))  # what str.lower does to these four
    v = V.eng.view(words)
    word = lambda k: v.get(k).t
    REG.summaries["re", "findall"] = lambda i, args, kw: (V.prove("takes the text apart", z3.And(
        z3.BoolVal(args[0] == r"\b\w+\b"), i.eng.str_term(args[1]) == text.t)), words)[1]
    added = V.set(STR, "added") if hasattr(V, "set") else V.eng.set_cell([])
    before = V.eng.set_array(added, STR)
    self = V.obj(manager(), _set=added, PACKAGE=manager()().PACKAGE)
    j, x = z3.Int("j!is"), z3.Const("x!is", Str)
    has = lambda t: z3.Select(V.eng.set_array(added, STR), t)
    due = lambda t, n: z3.Exists([j], z3.And(ranged(j, n), known(casted(word(j))), casted(word(j)) == t))
    REG.summaries[I, "add"] = lambda i, args, kw: (i.set_add(added, args[1]), args[0])[1]

    def inv(L):
        return [("all so far", z3.ForAll([j], z3.Implies(z3.And(ranged(j, L.i), known(casted(word(j)))), has(casted(word(j)))))),
                ("what was there stays", z3.ForAll([x], z3.Implies(z3.Select(before, x), has(x)))),
                ("nothing else", z3.ForAll([x], z3.Implies(has(x), z3.Or(z3.Select(before, x), due(x, L.i)))))]

    REG.loops[I + "._import_symbols", 0] = LoopSpec(inv)
    r = V.run(manager()._import_symbols, self, text)
    V.no_exception(r)
    V.prove("every symbol of the table is imported", z3.ForAll([j], z3.Implies(z3.And(ranged(j, v.n), known(casted(word(
        j)))), has(casted(word(j))))))
    V.prove("nothing else is imported", z3.ForAll([x], has(x) == z3.Or(z3.Select(before, x), due(x, v.n))))
    V.cover("symbols")


@contract("C03 C16", "ImportManager.import_all_unkown_symbols_from_signature", obligations=(
    "raises nothing", "the hints of the parameters", "the symbols of each hint", "the symbols of the returned hint"))
def _(V):
    text, hints = V.str("signature"), V.list(STR, "hints")
    v = V.eng.view(hints)
    k = z3.IndexOf(text.t, S("->"), 0)
    head = z3.If(k < 0, text.t, z3.SubString(text.t, 0, k))
    tail = z3.If(k < 0, S(""), z3.SubString(text.t, k + 2, z3.Length(text.t) - k - 2))
    REG.summaries["re", "findall"] = lambda i, args, kw: (V.prove("the hints of the parameters", z3.And(
        z3.BoolVal(args[0] == r":\s*([^:=]+)"), i.eng.str_term(args[1]) == head)), hints)[1]
    asked = V.eng.set_cell(kind=STR, dom=z3.K(Str, z3.BoolVal(False)))
    self = V.obj(manager(), _set=asked)  # stands for what was looked at, changed by nothing else
    REG.summaries[I, "_import_symbols"] = lambda i, args, kw: i.set_add(asked, args[1])
    j = z3.Int("j!ia")
    has = lambda t: z3.Select(V.eng.set_array(asked, STR), t)
    each = lambda n: z3.ForAll([j], z3.Implies(ranged(j, n), has(v.get(j).t)))

    def inv(L):
        return [("each so far", z3.ForAll([j], z3.Implies(ranged(j, L.i), has(V.eng.str_term(L.seq.get(j))))))]

    REG.loops[I + ".import_all_unkown_symbols_from_signature", 0] = LoopSpec(inv)
    r = V.run(manager().import_all_unkown_symbols_from_signature, self, text)
    V.no_exception(r)
    V.prove("the symbols of each hint", each(v.n))
    V.prove("the symbols of the returned hint", has(tail))
    V.cover()


@contract("C03 C19", "ImportManager._format_single_package", covers=("pandas", "npt", "numpy", "one line", "several lines"),
          obligations=("raises nothing", "pandas under its alias", "numpy under its alias", "every name, sorted, of that package",
                       "one name a line if it is too long"))
def _(V):
    package, names, limit = V.str("package"), V.list(STR, "names"), V.int("line_length")
    v = V.eng.view(names)
    V.assume(z3.And(v.n > 0, limit.t >= 40))
    first = v.get(z3.IntVal(0)).t
    order, wholes = V.list(STR, "names in order"), {}
    f_join = z3.Function("joined_by", Str, Str)
    REG.models[id(sorted)] = (sorted, lambda i, args, kw: (V.prove("every name, sorted, of that package", z3.BoolVal(
        args[0] is names and not kw)), order)[1])

    def join(i, sep, args, kw):
        V.prove("every name, sorted, of that package", z3.BoolVal(args[0] is order))
        return SStr(f_join(i.eng.str_term(sep)))

    REG.methods["str", "join"] = join
    r = V.run(manager()._format_single_package, V.obj(manager()), package, names, line_length=limit)
    V.no_exception(r)
    t = V.eng.str_term(r)
    for name, text in (("pandas", "import pandas as pd"), ("npt", "import numpy.typing as npt"), ("numpy", "import numpy as np")):
        if V.branch(first == S(name)):
            V.prove(f"{'pandas' if name == 'pandas' else 'numpy'} under its alias", t == S(text))
            V.cover(name)
            return
    cat = lambda *xs: z3.Concat(*(S(x) if isinstance(x, str) else x for x in xs))
    flat = cat("from ", package.t, " import ", f_join(S(", ")))
    if V.branch(z3.Length(flat) <= limit.t):
        V.prove("every name, sorted, of that package", t == flat)
        V.cover("one line")
        return
    tab = module("utils").TAB
    V.prove("one name a line if it is too long", t == cat("from ", package.t, f" import (\n{tab}", f_join(S(f",\n{tab}")), ",\n)"))
    V.cover("several lines")


@contract("C03 C19", "ImportManager.format", covers=("text", "unknown keyword"), obligations=(
    "an error only for a keyword that is not in the table", "statements of each package", "sorted by package",
    "each statement is of its package and its names", "annotations come from the future, on their own", "the statements, line by line"))
def _(V):
    keywords, limit = V.set(STR, "keywords"), V.int("line_length")
    table = manager()().PACKAGE
    asked = V.eng.set_array(keywords, STR)
    code = z3.Function("entry", Str, Str, Str)
    packages, entries = (V.eng.set_cell(kind=STR, dom=z3.K(Str, z3.BoolVal(False))) for _ in range(2))
    self = V.obj(manager(), _set=keywords, PACKAGE=table, packages=packages, entries=entries)

    class Names:
        def append(self, name):
            return None

    class Groups:
        def __getitem__(self, package):
            return None

        def items(self):
            return None

    def append(i, args, kw):
        slot, name = args
        i.set_add(packages, slot.attrs["package"])
        i.set_add(entries, SStr(code(i.eng.str_term(slot.attrs["package"]), i.eng.str_term(name))))

    groups, items, order = V.obj(Groups), [], V.list(STR, "packages in order")
    REG.models[id(__import__("collections").defaultdict)] = (__import__("collections").defaultdict, lambda i, args, kw: groups)
    REG.summaries["Groups", "__getitem__"] = lambda i, args, kw: V.obj(Names, package=args[1])
    REG.summaries["Names", "append"] = append
    marker = V.any("items")
    REG.summaries["Groups", "items"] = lambda i, args, kw: marker
    v = V.eng.view(order)
    j, k, x = z3.Int("j!if"), z3.Int("k!if"), z3.Const("x!if", Str)
    has = lambda cell, t: z3.Select(V.eng.set_array(cell, STR), t)

    def ordered(i, args, kw):
        key = kw.pop("key", None)
        if args[0] is groups and not kw and key is None:
            args = (marker,)
            bare = True
        else:
            bare = False
        V.prove("sorted by package", z3.BoolVal(args[0] is marker and not kw and (
            key is None or V.call(key, ("package", "names")) == "package")))
        i.eng.assume(z3.ForAll([j], z3.Implies(ranged(j, v.n), has(packages, v.get(j).t)), patterns=[v.get(j).t]))
        i.eng.assume(z3.ForAll([x], z3.Implies(has(packages, x), z3.Exists([j], z3.And(ranged(j, v.n), v.get(j).t == x)))))
        if bare:
            return order
        return i.eng.list_cell(view=core.SeqView(v.n, lambda j: (v.get(j), core.SVal(f_names(v.get(j).t)))))

    REG.models[id(sorted)] = (sorted, ordered)
    f_package, f_name = (z3.Function(n, Str, Str) for n in ("package_of", "name_of"))
    f_names, f_text = z3.Function("names_of", Str, core.Val), z3.Function("statement", Str, Str)
    future, end = "__future__", S("\n")
    f_known = z3.Function("in_the_table", Str, core.Bool)
    V.assume(z3.ForAll([x], z3.Implies(f_known(x), known(x)), patterns=[f_known(x)]))
    for word, place in table.items():
        V.assume(f_known(S(word)))
        V.assume(z3.And(f_package(S(word)) == S(".".join(place[:-1])), f_name(S(word)) == S(place[-1])))
    # The contract of _format_single_package: a statement names its package
    V.assume(z3.ForAll([x], z3.Contains(f_text(x), S(future)) == (x == S(future)), patterns=[f_text(x)]))

    def single(i, args, kw):
        import inspect
        b = inspect.signature(manager()._format_single_package).bind(*args, **kw).arguments
        package = i.eng.str_term(b["package"])
        names = b["imports"]
        names = f_names(i.eng.str_term(names.attrs["package"])) if isinstance(names, core.Inst) else i.eng.pack(VAL, names)[0]
        i.eng.prove("ImportManager.format: each statement is of its package and its names", z3.And(names == f_names(
            package), i.eng.int_term(b["line_length"]) == limit.t))
        return SStr(f_text(package))

    REG.summaries[I, "_format_single_package"] = single
    box = {}

    def gathered(word, n):
        return [("their packages and names", z3.ForAll([j], z3.Implies(ranged(j, n), z3.And(f_known(word(j)), has(
                    packages, f_package(word(j))), has(entries, code(f_package(word(j)), f_name(word(j)))))))),
                ("no other package", z3.ForAll([x], z3.Implies(has(packages, x), z3.Exists([j], z3.And(ranged(j, n), f_package(
                    word(j)) == x))))),
                ("no other name", z3.ForAll([x], z3.Implies(has(entries, x), z3.Exists([j], z3.And(ranged(j, n), code(f_package(
                    word(j)), f_name(word(j))) == x)))))]

    def first(L):
        box["seq"] = L.seq
        return gathered(lambda j: V.eng.str_term(L.seq.get(j)), L.i)

    def second(L):
        lst = V.eng.view(L["imports_lst"])
        if lst.get(z3.IntVal(0)) is None:
            return [("one each", lst.n == L.i)]
        return [("one each", z3.And(lst.n == L.i, z3.ForAll([j], z3.Implies(ranged(j, L.i), V.eng.str_term(
            lst.get(j)) == f_text(v.get(j).t)))))]

    REG.loops[I + ".format", 0], REG.loops[I + ".format", 1] = LoopSpec(first), LoopSpec(second)
    joined, whole = [], V.str("joined")
    REG.methods["str", "join"] = lambda i, sep, args, kw: (joined.append((sep, i.eng.view(args[0]) if not isinstance(
        args[0], (tuple, type({}.keys()))) else None)), whole)[1]
    r = V.run(manager().format, self, line_length=limit)
    if isinstance(r, Raised):
        V.prove("an error only for a keyword that is not in the table", z3.And(z3.BoolVal(r.cls is ValueError), z3.Exists(
            [x], z3.And(z3.Select(asked, x), z3.Not(known(x))))))
        V.cover("unknown keyword")
        return
    sep, lst = joined[-1]
    V.prove("the statements, line by line", z3.And(z3.BoolVal(r is whole and sep == "\n"), lst.n == v.n))
    if "seq" in box:
        word = lambda j: V.eng.str_term(box["seq"].get(j))
        for text, t in gathered(word, box["seq"].n):
            V.prove("statements of each package", t)
        V.prove("statements of each package", z3.ForAll([x], z3.Implies(z3.Select(asked, x), z3.And(f_known(x), has(
            packages, f_package(x))))))
    if lst.get(z3.IntVal(0)) is None:
        return
    line = lambda j: V.eng.str_term(lst.get(j))
    V.prove("annotations come from the future, on their own", z3.Implies(v.n > 0, line(z3.IntVal(0)) == z3.If(v.get(
        z3.IntVal(0)).t == S(future), z3.Concat(f_text(S(future)), end), f_text(v.get(z3.IntVal(0)).t))))
    V.prove("the statements, line by line", z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < lst.n), line(j) == f_text(v.get(
        j).t))))
    V.cover("text")
