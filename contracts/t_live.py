"""C09 to C12, C18: the tools themselves and the files they write."""
import inspect
from pathlib import Path, PosixPath

from contracts.files import Files, f_parentdir, f_topath, joined
from contracts.world import FA, S, cls, module, tree_class
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, ListK, NodeK, Raised, SBool, SInt, SStr, Str, SVal, Val, ranged, z3
from pyvc.interp import REG, LoopSpec
from pyvc.verify import contract

LIVE, ABC = "LazyTypeHintLive", "LazyTypeHintABC"
f_valid = z3.Function("valid_class_name", Str, core.Bool)
f_tree = z3.Function("tree_of", Val, Str, Val, Val)
f_text = z3.Function("text_of_tree", Val, core.Bool, core.Bool, Str)
f_bare = z3.Function("without_documentation", Str, Str)


def live_class():
    return cls("generators.lazy_type_hint_live.LazyTypeHintLive")


def text_of_trees():
    real = inspect.signature(tree_class().get_str_all_nodes)

    def text(i, args, kw):
        bound = real.bind(*args, **kw)
        bound.apply_defaults()
        b = i.eng.bool_term
        a = bound.arguments
        return SStr(f_text(i.eng.to_val(args[0]), b(a["include_imports"]), b(a["make_parent_class_inherit_from_original_type"])))

    REG.summaries["DataTypeTree", "get_str_all_nodes"] = text


def names_are_checked():
    REG.summaries["utils", "is_string_python_keyword_compatible"] = lambda i, args, kw: SBool(f_valid(i.eng.str_term(args[0])))


def argument(fn, args, kw, name):
    """What an argument is given, however it is passed."""
    return inspect.signature(fn).bind(*args, **kw).arguments[name]


@contract("C09", f"{ABC}.from_data", covers=("rejected", "accepted"), obligations=(
    "a name that is not valid is rejected", "before anything is read", "the tree of the data, the name and the strategies"))
def _(V):
    names_are_checked()
    made = []
    factory = module("data_type_tree.factory").data_type_tree_factory

    def make(i, args, kw):
        a = inspect.signature(factory).bind(*args, **kw).arguments
        made.append(a)
        return SVal(f_tree(i.eng.to_val(a["data"]), i.eng.str_term(a["name"]), i.eng.to_val(a["strategies"])), tree_class())

    REG.summaries["factory", "data_type_tree_factory"] = make
    c = cls("generators.lazy_type_hint_abc." + ABC)
    strategies, data, name = V.any("strategies"), V.any("data"), V.str("class_name")
    me = V.obj(c, strategies=strategies)
    r = V.run(c.from_data, me, data, class_name=name)
    if isinstance(r, Raised):
        V.prove("a name that is not valid is rejected", z3.Not(f_valid(name.t)))
        V.prove("before anything is read", not made)
        V.cover("rejected")
        return
    V.prove("a name that is not valid is rejected", f_valid(name.t))
    V.prove("the tree of the data, the name and the strategies", z3.And(
        z3.BoolVal(len(made) == 1), V.eng.to_val(r) == f_tree(data.t, name.t, strategies.t)))
    V.prove("nothing else is asked of it", set(made[0]) <= {"data", "name", "strategies"})
    V.cover("accepted")


class Live:
    def __init__(self, V):
        self.V, self.eng, self.files = V, V.eng, Files(V)
        self.cls = live_class()
        self.build = V.eng.const(self.cls._custom_class_dir_path)
        self.pyi = V.eng.const(self.cls._this_file_pyi_path)
        self.mode = V.str("if_type_hint_exists")
        V.assume(z3.Or(self.mode.t == S("overwrite"), self.mode.t == S("validate")))
        self.strategies = V.any("strategies")
        self.modifier = cls("file_modifiers.py_file_modifier.PyFileModifier")
        self.stale = V.obj(self.modifier, lines=V.list(STR, "stale lines"))
        self.current = V.obj(self.modifier, lines=V.list(STR, "lines"))
        self.self = V.obj(self.cls, strategies=self.strategies, if_type_hint_exists=self.mode, this_file_pyi=self.stale)

    def class_file(self, name):
        return joined(self.build, z3.Concat(name, S(".py")))

    def uses_current(self):
        return self.self.attrs["this_file_pyi"] is self.current


@contract("C09 C10 C11 C12", f"{LIVE}.from_data", covers=(
        "bad name", "missing source", "rejected", "validated", "overwritten", "new"), obligations=(
    "an invalid name changes nothing", "rejected exactly if the hints differ", "a rejected call changes nothing",
    "the source is that of the new data", "registered once unless it is already", "the very object is returned",
    "the current interface is used"))
def _(V):
    L = Live(V)
    names_are_checked()
    text_of_trees()
    registered, stale = V.set(STR, "registered"), V.set(STR, "stale names")
    known = registered.dom
    data, name = V.any("data"), V.str("class_name")
    missing = V.bool("a source file is missing")
    calls, trees = [], []

    def load(i, args, kw):
        calls.append("load")
        return L.current

    def classes(i, args, kw):
        if not L.uses_current():
            return stale
        if "registered" not in calls and not any(e[0] == "write" for e in L.files.log) and V.branch(missing.t):
            raise Raised(cls("generators.lazy_type_hint_live.LazyTypeHintLiveError"), ())
        return registered

    def register(i, args, kw):
        what = argument(L.cls._add_new_class_to_loader_pyi, args, kw, "new_class")
        V.prove("the current interface is used", L.uses_current())
        V.prove("registered under its name", i.eng.str_term(what) == name.t)
        calls.append("registered")

    def tree(i, args, kw):
        a = inspect.signature(cls("generators.lazy_type_hint_abc." + ABC).from_data).bind(*args, **kw).arguments
        trees.append(a)
        V.prove("of this data and name", z3.And(i.eng.to_val(a["data"]) == data.t, i.eng.str_term(a["class_name"]) == name.t))
        return SVal(f_tree(data.t, name.t, L.strategies.t), tree_class())

    s = REG.summaries
    s[LIVE, "_load_this_file_pyi"] = load
    s[LIVE, "_get_classes_added"] = classes
    s[LIVE, "_add_new_class_to_loader_pyi"] = register
    s[ABC, "from_data"] = tree
    s[LIVE, "_remove_docstrings"] = lambda i, args, kw: SStr(f_bare(i.eng.str_term(args[-1])))
    r = V.run(L.cls.from_data, L.self, data, name)
    path = L.class_file(name.t)
    text = f_text(f_tree(data.t, name.t, L.strategies.t), z3.BoolVal(True), z3.BoolVal(False))
    is_known = z3.Select(known, name.t)
    validate = z3.And(is_known, L.mode.t == S("validate"))
    differ = f_bare(text) != f_bare(z3.Select(L.files.text0, path))
    if V.branch(z3.Not(f_valid(name.t))):
        V.prove("an invalid name changes nothing", isinstance(r, Raised) and not L.files.log and "registered" not in calls
                and not trees)
        V.cover("bad name")
        return
    if V.branch(missing.t):
        V.prove("a rejected call changes nothing", isinstance(r, Raised) and not L.files.log and "registered" not in calls)
        V.cover("missing source")
        return
    if isinstance(r, Raised):
        V.prove("rejected exactly if the hints differ", z3.And(validate, differ))
        V.prove("a rejected call changes nothing", not L.files.log and "registered" not in calls)
        V.cover("rejected")
        return
    V.prove("rejected exactly if the hints differ", z3.Not(z3.And(validate, differ)))
    V.prove("the current interface is used", L.uses_current())
    wanted = [("write", path, text)]
    if V.branch(z3.Not(L.files.exists(L.build))):
        wanted = [("mkdir", L.build), *wanted]
    V.prove("the source is that of the new data", L.files.did(*wanted))
    V.prove("registered once unless it is already", z3.BoolVal(calls.count("registered") == 1) == z3.Not(is_known))
    V.prove("registered at most once", calls.count("registered") <= 1)
    V.prove("the very object is returned", r is data)
    V.cover("validated" if V.branch(validate) else "overwritten" if V.branch(is_known) else "new")


@contract("C11 C12", f"{LIVE}.reset", covers=("both", "none"), obligations=(
    "raises nothing", "removes every generated file and nothing else"))
def _(V):
    L = Live(V)
    build, pyi = L.files.exists(L.build), L.files.exists(L.pyi)
    r = V.run(L.cls.reset, L.cls)
    V.no_exception(r)
    there_b, there_p = V.branch(build), V.branch(pyi)
    want = ([("rmtree", L.build)] if there_b else []) + ([("unlink", L.pyi)] if there_p else [])
    done = {(k, p.get_id()) for k, p, _ in L.files.log}
    V.prove("removes every generated file and nothing else", done == {(k, p.get_id()) for k, p in want}
            and len(L.files.log) == len(want))
    if there_b and there_p:
        V.cover("both")
    if not there_b and not there_p:
        V.cover("none")


@contract("C11", f"{LIVE}._load_this_file_pyi", covers=("there", "generated"), obligations=(
    "raises nothing", "the lines of the file", "generated only if there is none", "nothing is written"))
def _(V):
    L = Live(V)
    fresh = V.obj(L.modifier, lines=V.list(STR, "generated"))
    REG.summaries[LIVE, "_generate_this_file_pyi"] = lambda i, args, kw: fresh
    split = []
    REG.summaries["PyFileModifier", "__new__"] = lambda i, args, kw: (split.append(args[-1]), V.obj(L.modifier, lines=V.list(
        STR, "lines of a text")))[1]
    r = V.run(L.cls._load_this_file_pyi, L.self)
    V.no_exception(r)
    V.prove("nothing is written", not L.files.log)
    if V.branch(L.files.exists(L.pyi)):
        V.prove("the lines of the file", z3.And(z3.BoolVal(len(split) == 1 and r is not fresh), V.eng.str_term(
            split[0]) == z3.Select(L.files.text0, L.pyi)))
        V.cover("there")
    else:
        V.prove("generated only if there is none", r is fresh)
        V.cover("generated")


f_nnames = z3.Function("number_of_quoted", Str, Int)
f_named = z3.Function("quoted_at", Str, Int, Str)


@contract("C11 C12", f"{LIVE}._get_classes_added", covers=("none", "some", "no list", "missing source"), obligations=(
    "an error only without a list or without a source", "exactly the names of the interface", "each with its source",
    "nothing is written"))
def _(V):
    L = Live(V)
    values = V.list(STR, "values")
    vv = V.eng.view(values)
    text = vv.get(0).t
    asked = []
    REG.summaries["PyFileModifier", "search_assignment"] = lambda i, args, kw: (asked.append(
        inspect.signature(L.modifier.search_assignment).bind(*args, **kw).args[1]), values)[1]

    def findall(i, args, kw):
        if args[0] not in (r'"(.*?)"', r'"([^"]*)"'):
            raise core.Unsupported("another pattern")
        t = i.eng.str_term(args[1])
        i.eng.assume(f_nnames(t) >= 0)
        return i.eng.list_cell(view=core.SeqView(f_nnames(t), lambda j: SStr(f_named(t, j)), "list", STR))

    REG.summaries["re", "findall"] = findall
    n, at = f_nnames(text), lambda j: f_named(text, j)
    j, x = z3.Int("j!gc"), z3.Const("x!gc", Str)
    path = lambda t: L.class_file(t)
    there = lambda t: z3.Select(L.files.there, path(t))

    def inv(F):
        st = V.i.symbolic_dict(F["dct"], STR, VAL)
        return [("the names so far", z3.ForAll([x], z3.Select(st.dom, x) == z3.Exists([j], z3.And(ranged(j, F.i), at(j) == x)))),
                ("with their sources", z3.ForAll([x], z3.Implies(z3.Select(st.dom, x), z3.Select(st.cols[0], x) == path(x)))),
                ("that are there", z3.ForAll([j], z3.Implies(ranged(j, F.i), there(at(j))), patterns=[at(j)]))]

    REG.loops[LIVE + "._get_classes_added", 0] = LoopSpec(inv)
    r = V.run(L.cls._get_classes_added, L.self)
    V.prove("nothing is written", not L.files.log)
    V.prove("of the registry", len(asked) == 1 and asked[0] == "classes_created")
    some = z3.And(vv.n > 0, text != S("Any"))
    lacks = z3.Exists([j], z3.And(ranged(j, n), z3.Not(there(at(j)))))
    if isinstance(r, Raised):
        V.prove("an error only without a list or without a source", z3.Or(vv.n == 0, z3.And(some, lacks)))
        V.cover("no list" if V.branch(vv.n == 0) else "missing source")
        return
    V.prove("an error only without a list or without a source", z3.Not(z3.Or(vv.n == 0, z3.And(some, lacks))))
    st = V.i.symbolic_dict(r, STR, VAL) if not isinstance(r, dict) else None
    if V.branch(text == S("Any")):
        V.prove("exactly the names of the interface", len(r) == 0 if st is None else st.n == 0)
        V.cover("none")
        return
    V.prove("exactly the names of the interface", z3.ForAll([x], z3.Select(st.dom, x) == z3.Exists([j], z3.And(
        ranged(j, n), at(j) == x))))
    V.prove("each with its source", z3.ForAll([x], z3.Implies(z3.Select(st.dom, x), z3.Select(st.cols[0], x) == path(x))))
    V.cover("some")


def stored_interface(V, L):
    """The interface is what the file holds now."""
    lines = L.self.attrs["this_file_pyi"].attrs["lines"]
    return V.eng.str_term(V.call("\n".join, lines))


@contract("C11", f"{LIVE}._add_class_created_to_this_file_pyi", covers=("first", "another"), obligations=(
    "raises nothing", "the first name", "the name is added at the end", "the interface is stored"))
def _(V):
    L = Live(V)
    names, new = V.str("names so far"), V.str("new_class")
    V.assume(z3.Not(z3.Contains(names.t, S("]"))))
    first = V.bool("first")
    value = SStr(S("Any")) if V.branch(first.t) else SStr(z3.Concat(S('Union[Literal["'), names.t, S('"], Any]')))
    L.self.attrs["this_file_pyi"] = L.current
    REG.summaries["PyFileModifier", "search_assignment"] = lambda i, args, kw: i.eng.list_cell([value])
    replaced = []
    after = V.list(STR, "lines afterwards")

    def replace(i, args, kw):
        replaced.append(inspect.signature(L.modifier.replace_assignement).bind(*args, **kw).arguments)
        L.current.attrs["lines"] = after

    REG.summaries["PyFileModifier", "replace_assignement"] = replace
    r = V.run(L.cls._add_class_created_to_this_file_pyi, L.self, new)
    V.no_exception(r)
    V.prove("one assignment is replaced", len(replaced) == 1 and replaced[0]["label"] == "classes_created")
    got = V.eng.str_term(replaced[0]["value"])
    if V.branch(first.t):
        V.prove("the first name", got == z3.Concat(S('Union[Literal["'), new.t, S('"], Any]')))
        V.cover("first")
    else:
        V.prove("the name is added at the end", got == z3.Concat(S('Union[Literal["'), names.t, S('", "'), new.t, S(
            '"], Any]')))
        V.cover("another")
    V.prove("the interface is stored", L.files.did(("write", L.pyi, stored_interface(V, L))))


@contract("C11", f"{LIVE}._add_import_to_this_file_pyi", obligations=(
    "raises nothing", "one import of the class", "the interface is stored"))
def _(V):
    L = Live(V)
    new = V.str("new_class")
    L.self.attrs["this_file_pyi"] = L.current
    added = []
    after = V.list(STR, "lines afterwards")

    def add(i, args, kw):
        bound = inspect.signature(L.modifier.add_imports).bind(*args, **kw)
        bound.apply_defaults()
        added.append(bound.arguments)
        L.current.attrs["lines"] = after

    REG.summaries["PyFileModifier", "add_imports"] = add
    r = V.run(L.cls._add_import_to_this_file_pyi, L.self, new)
    V.no_exception(r)
    V.prove("only once", len(added) == 1 and added[0]["in_type_checking_block"] is False)
    V.prove("one import of the class", V.eng.str_term(added[0]["lines"]) == z3.Concat(
        S("from lazy_type_hint.generators.build."), new.t, S(" import "), new.t))
    V.prove("the interface is stored", L.files.did(("write", L.pyi, stored_interface(V, L))))
    V.cover()


@contract("C11", f"{LIVE}._add_new_class_to_loader_pyi", obligations=(
    "raises nothing", "listed, imported and overloaded once each"))
def _(V):
    L = Live(V)
    new = V.str("new_class")
    log = []

    def note(what, *names):
        fn = getattr(L.cls, what)

        def summary(i, args, kw):
            a = inspect.signature(fn).bind(*args, **kw)
            a.apply_defaults()
            V.prove("under its name", i.eng.str_term(a.arguments["new_class"]) == new.t)
            if "input_argument" in a.arguments:
                V.prove("told apart by the name of the class", a.arguments["input_argument"] == "class_name")
            log.append((what, *(a.arguments[n] for n in names)))
        return summary

    s = REG.summaries
    s[LIVE, "_add_class_created_to_this_file_pyi"] = note("_add_class_created_to_this_file_pyi")
    s[LIVE, "_add_import_to_this_file_pyi"] = note("_add_import_to_this_file_pyi")
    s[LIVE, "_add_overload_to_this_file_pyi"] = note("_add_overload_to_this_file_pyi", "method_name")
    r = V.run(L.cls._add_new_class_to_loader_pyi, L.self, new_class=new)
    V.no_exception(r)
    V.prove("listed, imported and overloaded once each", sorted(log) == sorted([
        ("_add_class_created_to_this_file_pyi",), ("_add_import_to_this_file_pyi",),
        ("_add_overload_to_this_file_pyi", "from_data"), ("_add_overload_to_this_file_pyi", "from_yaml_file")]))
    V.cover()


@contract("C10 C13", f"{LIVE}.from_yaml_file", obligations=(
    "raises nothing", "what the loader yields is returned", "hints are those of the documented data"))
def _(V):
    L = Live(V)
    loader, path, name, where = V.any("loader"), V.any("path"), V.str("class_name"), V.any("comments_are")
    data, documented = V.any("data"), V.any("documented data")
    asked, hinted = [], []
    c = cls("generators.lazy_type_hint_abc." + ABC)

    def load(i, args, kw):
        asked.append(inspect.signature(c._load_yaml_file).bind(*args, **kw).arguments)
        return (data, documented)

    def hint(i, args, kw):
        hinted.append(inspect.signature(L.cls.from_data).bind(*args, **kw).arguments)
        return hinted[-1]["data"]

    REG.summaries[ABC, "_load_yaml_file"] = load
    REG.summaries[LIVE, "from_data"] = hint
    r = V.run(L.cls.from_yaml_file, L.self, loader, path, class_name=name, comments_are=where)
    V.no_exception(r)
    V.prove("what the loader yields is returned", r is data)
    V.prove("of that file", len(asked) == 1 and asked[0]["loader"] is loader and asked[0]["path"] is path
            and asked[0]["comments_are"] is where)
    V.prove("hints are those of the documented data", len(hinted) == 1 and hinted[0]["data"] is documented
            and hinted[0]["class_name"] is name)
    V.cover()


@contract("C11", f"{LIVE}._add_overload_to_this_file_pyi", covers=("first overload", "another"), obligations=(
    "raises nothing", "marked as overload the first time", "the signature for the class", "put above the method",
    "the interface is stored"), prove_ms=30000)
def _(V):
    L = Live(V)
    L.self.attrs["this_file_pyi"] = L.current
    new = V.str("new_class")
    before, hint, more, result, tail = (V.str(n) for n in ("before", "annotation", "more", "returned", "tail"))
    comma = V.bool("comma")
    sep = S(",") if V.branch(comma.t) else S(")")
    no = lambda s, *cs: z3.And(*(z3.Not(z3.Contains(s, S(c))) for c in cs))
    V.assume(no(before.t, "class_name"))
    V.assume(z3.Not(z3.Contains(z3.Concat(before.t, S("class_nam")), S("class_name"))))
    V.assume(no(new.t, "-", ":"))
    V.assume(no(hint.t, ",", ")"))
    V.assume(z3.And(no(result.t, "-", ":"), no(tail.t, ":", "-")))
    parts = [before.t, S("class_name:"), hint.t, sep, more.t, S("-> "), result.t, S(":"), tail.t]
    signature = SStr(z3.Concat(*parts))
    V.eng.split_strings = True
    marked = V.list(VAL, "overloads")
    at = V.list(INT, "places")
    places = V.eng.view(at)
    V.assume(places.n > 0)
    inserted = []
    s = REG.summaries
    s["PyFileModifier", "search_decorator"] = lambda i, args, kw: marked
    s["PyFileModifier", "search_method"] = lambda i, args, kw: at
    s["PyFileModifier", "get_signature"] = lambda i, args, kw: (signature, V.any("slice"))
    s["PyFileModifier", "add_line"] = lambda i, args, kw: inserted.append(inspect.signature(L.modifier.add_line).bind(
        *args, **kw).args[1:])
    first = z3.Length(before.t) + 10
    sig = signature.t
    p, q = z3.Ints("p!ov q!ov")
    end = first + 1 + z3.Length(hint.t)
    char = lambda s, j: z3.SubString(s, j, 1)
    separate = lambda c: z3.Or(c == S(","), c == S(")"))
    part = lambda q: char(sig, first + 1 + q) == char(hint.t, q)
    V.lemma("a part of the signature", [ranged(q, z3.Length(hint.t))], part(q))
    V.lemma("no separator in the annotation", [no(hint.t, ",", ")"), ranged(q, z3.Length(hint.t))], z3.Not(separate(
        char(hint.t, q))))
    instance = lambda q: z3.Implies(ranged(q, z3.Length(hint.t)), z3.And(part(q), z3.Not(separate(char(hint.t, q)))))

    def inv(F):
        here = V.eng.int_term(F["last_idx"])
        V.assume(instance(here - first - 1))  # of the two lemmas
        V.assume(z3.Implies(here == end, char(sig, here) == sep))
        return [("within the annotation", z3.And(first <= here, here <= first + 1 + z3.Length(hint.t)))]

    REG.loops[LIVE + "._add_overload_to_this_file_pyi", 0] = LoopSpec(inv, after=lambda F: [(
        "up to the end of the annotation", V.eng.int_term(F["last_idx"]) == end)])
    r = V.run(L.cls._add_overload_to_this_file_pyi, L.self, new_class=new, method_name="from_data")
    V.no_exception(r)
    none = V.eng.view(marked).n == 0
    last = places.get(places.n - 1).t
    if V.branch(none):
        V.prove("marked as overload the first time", z3.And(V.eng.int_term(inserted[0][0]) == last, V.eng.str_term(
            inserted[0][1]) == S("    @overload")))
        inserted.pop(0)
        V.cover("first overload")
    else:
        V.cover("another")
    V.prove("marked as overload the first time", len(inserted) == 1)
    V.prove("put above the method", V.eng.int_term(inserted[0][0]) == last)
    V.prove("the signature for the class", V.eng.str_term(inserted[0][1]) == z3.Concat(
        before.t, S('class_name: Literal["'), new.t, S('"]'), sep, more.t, S("-> "), new.t, S(":"), tail.t))
    V.prove("the interface is stored", L.files.did(("write", L.pyi, stored_interface(V, L))))
