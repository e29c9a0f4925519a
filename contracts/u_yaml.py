"""C10, C13, C14, C18: loading YAML files with their comments, and writing hints."""
import inspect
from pathlib import Path, PosixPath

from contracts.files import Files, f_parentdir, f_pathname, f_topath, joined
from contracts.t_live import f_text, text_of_trees
from contracts.world import FA, S, cls, module, tree_class
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, ListK, NodeK, Raised, SBool, SInt, SStr, Str, SVal, Val, ranged, z3
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.models import f_replace, f_replace_some, f_strip
from pyvc.verify import contract

Y, ABC = "YamlFileModifier", "LazyTypeHintABC"
f_visible = z3.Function("without_hidden_keys", Val, Val)


def abstract():
    return cls("generators.lazy_type_hint_abc." + ABC)


def modifier():
    return cls("file_modifiers.yaml_file_modifier." + Y)


@contract("C18", "Tree.to_file", covers=("refused", "written", "directory made"), obligations=(
    "refused exactly without directory and permission", "nothing is created then", "exactly the text with imports"))
def _(V):
    files = Files(V)
    text_of_trees()
    c = cls("generators.lazy_type_hint.Tree")
    tree = V.any("tree", tree_class())
    me = V.obj(c, _tree=tree)
    where, allowed = V.any("path"), V.bool("allowed")
    path = f_topath(where.t)
    r = V.run(c.to_file, me, where, create_non_existing_dir=allowed)
    there = files.exists(f_parentdir(path))
    refuse = z3.And(z3.Not(there), z3.Not(allowed.t))
    if isinstance(r, Raised):
        V.prove("refused exactly without directory and permission", refuse)
        V.prove("nothing is created then", r.cls is ValueError and not files.log)
        V.cover("refused")
        return
    V.prove("refused exactly without directory and permission", z3.Not(refuse))
    text = f_text(tree.t, z3.BoolVal(True), z3.BoolVal(False))
    if V.branch(there):
        V.prove("exactly the text with imports", files.did(("write", path, text)))
        V.cover("written")
    else:
        V.prove("exactly the text with imports", files.did(("mkdir", f_parentdir(path)), ("write", path, text)))
        V.cover("directory made")


@contract("C18", "Tree.to_string", obligations=("raises nothing", "the text of the tree with these options"))
def _(V):
    text_of_trees()
    c = cls("generators.lazy_type_hint.Tree")
    tree, imports = V.any("tree", tree_class()), V.bool("include_imports")
    r = V.run(c.to_string, V.obj(c, _tree=tree), include_imports=imports)
    V.no_exception(r)
    V.prove("the text of the tree with these options", V.eng.str_term(r) == f_text(tree.t, imports.t, z3.BoolVal(False)))
    V.cover()


@contract("C13", f"{ABC}._remove_hidden_keys: other values", obligations=(
    "raises nothing", "as it is"))
def _(V):
    data = V.any("data")
    V.assume(z3.Not(core.f_inst(data.t, V.eng.const(list))))
    V.assume(z3.Not(core.f_inst(data.t, V.eng.const(dict))))
    r = V.run(abstract()._remove_hidden_keys, V.obj(abstract()), data)
    V.no_exception(r)
    V.prove("as it is", V.eng.to_val(r) == data.t)
    V.cover()


def cleaned():
    REG.summaries[ABC, "_remove_hidden_keys"] = lambda i, args, kw: SVal(f_visible(i.eng.to_val(args[-1])))


@contract("C13", f"{ABC}._remove_hidden_keys: lists", obligations=("raises nothing", "every element in order", "a new list"))
def _(V):
    cleaned()
    data = V.list(VAL, "data")
    before = V.eng.view(data)
    r = V.run(abstract()._remove_hidden_keys, V.obj(abstract()), data)
    V.no_exception(r)
    v, j = V.eng.view(r), z3.Int("j!rh")
    V.prove("every element in order", z3.And(v.n == before.n, z3.ForAll([j], z3.Implies(ranged(j, v.n), V.eng.to_val(
        v.get(j)) == f_visible(before.get(j).t)))))
    V.prove("a new list", r is not data)
    V.cover()


@contract("C13", f"{ABC}._remove_hidden_keys: dictionaries", obligations=(
    "raises nothing", "exactly the keys that are not hidden", "their values without hidden keys"))
def _(V):
    cleaned()
    data = V.dict(VAL, VAL, "data")
    st = data.state
    r = V.run(abstract()._remove_hidden_keys, V.obj(abstract()), data)
    V.no_exception(r)
    out = V.i.symbolic_dict(r, VAL, VAL)
    k = z3.Const("k!rh", Val)
    hidden = lambda k: z3.And(core.is_str(k), z3.PrefixOf(S(modifier().prefix), Val.s(k)))
    V.prove("exactly the keys that are not hidden", z3.ForAll([k], z3.Select(out.dom, k) == z3.And(
        z3.Select(st.dom, k), z3.Not(hidden(k)))))
    V.prove("their values without hidden keys", z3.ForAll([k], z3.Implies(z3.Select(out.dom, k), z3.Select(
        out.cols[0], k) == f_visible(z3.Select(st.cols[0], k)))))
    V.cover()


@contract("C10 C13", f"{ABC}._load_yaml_file", covers=(
        "no comments wanted", "no such file", "documented", "comments given up"), obligations=(
    "the first value is what the loader yields for the file", "hidden keys only on top of the data", "the file is left alone",
    "the copy is removed", "only errors of the file or the loader"))
def _(V):
    files = Files(V)
    cleaned()
    c, E = abstract(), cls("file_modifiers.yaml_file_modifier.YamlFileModifierError")
    loader, path = V.any("loader"), V.any("path")
    none = V.bool("no comments wanted")
    where = None if V.branch(none.t) else V.any("comments_are")
    if where is not None:
        V.assume(where.t != V.eng.to_val(None))
    loads, made = [], []
    flaws = {}

    def load(i, args, kw):
        f, a = args[0], args[1]
        if f.t.eq(loader.t):
            n = len(loads)
            value = V.any(f"loaded {n}")
            loads.append((i.eng.to_val(a), value, len(made)))
            flaws[n] = V.bool(f"load {n} fails")
            if V.branch(flaws[n].t):
                raise Raised(RuntimeError, ("loader",))
            return value
        return SVal(f_topath(i.eng.to_val(a)))  # type(path)(temporary path)

    REG.summaries["object", "__call__"] = load
    wrong = V.bool("not a YAML file")
    m = V.obj(modifier(), path=V.any("p", PosixPath), lines=V.tuple(STR, "lines"))

    def new(i, args, kw):
        V.prove("of that file", args[1] is path and kw.get("comments_are") is where)
        if V.branch(wrong.t):
            raise Raised(E, ())
        return m

    REG.summaries[Y, "__new__"] = new
    fails = V.bool("cannot add comments")
    temporary = V.any("temporary", PosixPath)
    V.assume(temporary.t != f_topath(path.t))
    V.assume(temporary.t != path.t)

    def copy(i, args, kw):
        if V.branch(fails.t):
            raise Raised(OSError, ())
        made.append(temporary)
        return temporary

    REG.summaries[Y, "create_temporary_file_with_comments_as_keys"] = copy
    r = V.run(c._load_yaml_file, V.obj(c), loader, path, comments_are=where)
    V.prove("the file is left alone", all(k in ("unlink", "rmdir") for k, *_ in files.log))
    if made:
        V.prove("the copy is removed", files.did(("unlink", temporary.t), ("rmdir", f_parentdir(temporary.t))))
    else:
        V.prove("the copy is removed", not files.log)
    if isinstance(r, Raised):
        bad = z3.Or(flaws[0].t if 0 in flaws else z3.BoolVal(False), z3.And(wrong.t, z3.BoolVal(where is not None)))
        V.prove("only errors of the file or the loader", z3.And(bad, z3.BoolVal(not made)))
        V.cover("no such file")
        return
    first, second = V.i.concrete_list(r)
    V.prove("the first value is what the loader yields for the file", z3.And(
        loads[0][0] == path.t, z3.Not(flaws[0].t), V.eng.to_val(first) == loads[0][1].t, z3.BoolVal(first is loads[0][1])))
    if second is first:
        V.cover("no comments wanted" if where is None else "comments given up")
        V.prove("hidden keys only on top of the data", True)
        return
    data, seen = loads[0][1].t, f_visible(V.eng.to_val(second))
    V.prove("hidden keys only on top of the data", z3.And(z3.BoolVal(len(loads) == 2 and second is loads[1][1]), z3.Or(
        as_term(V.i.equal(SVal(seen), SVal(data))), V.eng.str_term(V.call(repr, SVal(seen))) == V.eng.str_term(
            V.call(repr, SVal(data))))))
    V.prove("of the copy", loads[1][0] == f_topath(temporary.t))
    V.cover("documented")


@contract("C10 C13", f"{Y}.create_temporary_file_with_comments_as_keys", obligations=(
    "raises nothing", "a file of its own in a new directory", "with the comments as keys", "the file is left alone"))
def _(V):
    files = Files(V)
    path, text, directory = V.any("path", PosixPath), V.str("text"), V.str("new directory")
    asked = []
    REG.summaries["tempfile", "mkdtemp"] = lambda i, args, kw: (asked.append(args or kw), directory)[1]
    REG.summaries[Y, "_create_temporary_string_with_comments_as_keys"] = lambda i, args, kw: text
    r = V.run(modifier().create_temporary_file_with_comments_as_keys, V.obj(modifier(), path=path, lines=V.tuple(STR, "lines")))
    V.no_exception(r)
    new = f_topath(V.eng.to_val(directory))
    kinds = [k for k, *_ in files.log]
    V.prove("with the comments as keys", z3.And(z3.BoolVal(kinds == ["write"]), files.log[0][2] == text.t))
    V.prove("a file of its own in a new directory", z3.And(z3.BoolVal(len(asked) == 1), V.eng.to_val(r) == files.log[0][1], core.
            f_joinpath(new, z3.Concat(S("_"), f_pathname(path.t))) == files.log[0][1]))
    V.prove("the file is left alone", z3.BoolVal(kinds == ["write"]))
    V.cover()


f_lines_n, f_lines_at = z3.Function("lines_in", Str, Int), z3.Function("line_of", Str, Int, Str)


@contract("C13", f"{Y}.__init__", covers=("both", "no YAML", "accepted"), obligations=(
    "rejected exactly for both sides or another kind of file", "the lines of the file", "the places in the given order",
    "nothing is written"))
def _(V):
    files = Files(V)
    path = V.any("path")
    single = V.bool("one place")
    places = V.str("place") if V.branch(single.t) else V.tuple(STR, "places")
    j = z3.Int("j!yi")
    at = None if isinstance(places, SStr) else V.eng.view(places)
    one = lambda t: z3.Or(*(t == S(x) for x in ("above", "below", "side")))
    if at is None:
        V.assume(one(places.t))
        both = z3.BoolVal(False)
    else:
        V.assume(z3.ForAll([j], z3.Implies(ranged(j, at.n), one(at.get(j).t))))
        given = lambda x: z3.Exists([j], z3.And(ranged(j, at.n), at.get(j).t == S(x)))
        both = z3.And(given("above"), given("below"))
    me = V.obj(modifier())
    r = V.run(modifier().__init__, me, path, comments_are=places)
    p = f_topath(path.t)
    from contracts.files import f_suffix
    suffix = f_suffix(p)
    wrong = z3.Not(z3.Or(z3.SuffixOf(S(".yaml"), suffix), z3.SuffixOf(S(".yml"), suffix)))
    V.prove("nothing is written", not files.log)
    what = "rejected exactly for both sides or another kind of file"
    if isinstance(r, Raised):
        V.prove(what, z3.Or(both, wrong))
        V.cover("both" if V.branch(both) else "no YAML")
        return
    V.prove(what, z3.Not(z3.Or(both, wrong)))
    V.prove("the lines of the file", z3.And(z3.BoolVal(len(files.reads) == 1), files.reads[0] == p))
    text = SStr(z3.Select(files.text0, p))
    want, got = V.eng.view(V.call(text_lines, text)), V.eng.view(me.attrs["lines"])
    V.prove("the lines of the file", z3.And(want.n == got.n, z3.ForAll([j], z3.Implies(ranged(j, got.n), got.get(
        j).t == want.get(j).t))))
    out = V.eng.view(me.attrs["comments_are"])
    if at is None:
        V.prove("the places in the given order", z3.And(out.n == 1, V.eng.str_term(out.get(z3.IntVal(0))) == places.t))
    else:
        V.prove("the places in the given order", z3.And(out.n == at.n, z3.ForAll([j], z3.Implies(ranged(j, at.n), V.eng.str_term(
            out.get(j)) == at.get(j).t))))
    V.cover("accepted")


text_lines = str.splitlines


@contract("C14 C13", f"{Y}._extract_single_block_comment", covers=("a comment", "nothing"), obligations=(
    "raises nothing", "the run of aligned comment lines, in file order", "nothing only without such lines"), prove_ms=20000)
def _(V):
    lines = V.tuple(STR, "lines")
    v = V.eng.view(lines)
    at = lambda j: v.get(j).t
    me = V.obj(modifier(), lines=lines, path=V.any("path", PosixPath))
    here = V.int("line_idx")
    V.assume(ranged(here.t, v.n))
    V.eng.opaque_find = True
    above = V.bool("above")
    up = V.branch(above.t)
    step = -1 if up else 1
    given, found = [], V.bool("there is a key")
    where = V.int("colon")
    V.assume(where.t >= 0)
    REG.summaries[Y, "_find_first_occurrence_that_is_not_between"] = lambda i, args, kw: where if V.branch(found.t) else None
    joined_text = V.str("joined")

    def join(i, args, kw):
        given.append(i.eng.view(args[-1]))
        return joined_text

    REG.summaries[Y, "_join_multi_line_comments"] = join
    key = z3.And(found.t, where.t != 0)
    j = z3.Int("j!bc")
    box = {}

    # By name, so that only the lines that are looked at are unfolded
    aligned = z3.Function("is_comment_aligned_at", Str, Int, core.Bool)
    comment = z3.Function("comment_after", Str, Int, Str)

    def unfold(line, col):
        V.assume(comment(line, col) == f_strip(z3.SubString(line, col + 1, z3.Length(line) - col - 1)))
        V.assume(aligned(line, col) == z3.And(z3.Length(line) > col, z3.SubString(line, col, 1) == S("#"), f_strip(z3.SubString(line, 0, col)) == S("")))

    def inv(L):
        found_lines, n, col = L["multi_line_comments"], V.eng.int_term(L["increment"]), V.eng.int_term(L["idx_first_char"])
        w = V.eng.view(found_lines)
        box.update(n=n, col=col)
        V.assume(col >= 0)  # a character of the line is found in it
        unfold(at(here.t + n), col)
        text = lambda k: V.eng.str_term(w.get(k)) if w.get(k) is not None else S("")
        k = lambda j: here.t + step * (j + 1)
        return [("one line per step", z3.And(w.n == n * step - 1, n * step >= 1)),
                ("aligned lines", z3.ForAll([j], z3.Implies(ranged(j, w.n), z3.And(ranged(k(j), v.n), aligned(at(k(j)), col), text(
                    j) == comment(at(k(j)), col)))))]

    REG.loops[Y + "._extract_single_block_comment", 0] = LoopSpec(inv)
    # A line with a colon has more than dashes and white space
    V.assume(z3.Implies(key, f_strip(f_replace(f_strip(at(here.t)), S("-"), S(""))) != S("")))
    r = V.run(modifier()._extract_single_block_comment, me, here, comments_are="above" if up else "below")
    V.no_exception(r)
    if not given:
        out = V.eng.str_term(r)
        V.prove("nothing only without such lines", out == S(""))
        if box:
            V.prove("nothing only without such lines", z3.Or(z3.Not(ranged(here.t + step, v.n)), z3.Not(aligned(at(
                here.t + step), box["col"]))))
        else:
            V.prove("nothing only without such lines", z3.Not(key))
        V.cover("nothing")
        return
    g, n, col = given[0], box["n"] * step - 1, box["col"]
    place = (lambda j: here.t - n + j) if up else (lambda j: here.t + 1 + j)
    text = lambda j: V.eng.str_term(g.get(j))
    what = "the run of aligned comment lines, in file order"
    V.prove(what, z3.And(g.n == n, n >= 1, z3.ForAll([j], z3.Implies(ranged(j, n), z3.And(aligned(at(place(j)), col), text(
        j) == comment(at(place(j)), col))))))
    beyond = here.t + step * (n + 1)
    V.prove(what, z3.Or(z3.Not(ranged(beyond, v.n)), z3.Not(aligned(at(beyond), col))))
    V.cover("a comment")


f_comment_line = z3.Function("line_of_comment", Val, Int)
f_comment_key = z3.Function("key_of_comment", Val, Str)
f_comment_text = z3.Function("text_of_comment", Val, Str)
f_comment_first = z3.Function("comment_of_first_key", Val, core.Bool)


def comments_by_parts(V):
    """Comments are what they are made of."""
    C = cls("file_modifiers.yaml_file_modifier.Comment")

    def new(i, args, kw):
        a = inspect.signature(C).bind(*args[1:], **kw)
        a.apply_defaults()
        a = a.arguments
        c = V.any("comment", C)
        i.eng.assume(z3.And(f_comment_line(c.t) == i.eng.int_term(a["key_line"]), f_comment_key(c.t) == i.eng.str_term(a[
            "associated_with_key"]), f_comment_text(c.t) == i.eng.str_term(a["full_string"]), f_comment_first(
                c.t) == i.eng.bool_term(a["must_replace_its_key_as_first_element_of_list"])))
        return c

    REG.summaries["Comment", "__new__"] = new
    REG.fields["Comment", "key_line"] = lambda i, v: SInt(f_comment_line(v.t))
    REG.fields["Comment", "associated_with_key"] = lambda i, v: SStr(f_comment_key(v.t))
    REG.fields["Comment", "full_string"] = lambda i, v: SStr(f_comment_text(v.t))
    REG.fields["Comment", "must_replace_its_key_as_first_element_of_list"] = lambda i, v: SBool(f_comment_first(v.t))
    REG.fields["Comment", "spacing_element"] = lambda i, v: V.any("spacing")
    return C


@contract("C13 C14", f"{Y}._extract_comments", covers=("unclear indentation", "comments"), obligations=(
    "raises nothing", "none if the indentation is not clear", "comments of keys, of these very lines", "in the order of the file"),
    prove_ms=20000)
def _(V):
    comments_by_parts(V)
    lines, places = V.tuple(STR, "lines"), V.tuple(STR, "comments_are")
    v, w = V.eng.view(lines), V.eng.view(places)
    at = lambda j: v.get(j).t
    j, k = z3.Ints("j!ec k!ec")
    one = lambda t: z3.Or(*(t == S(x) for x in ("above", "below", "side")))
    V.assume(z3.ForAll([j], z3.Implies(ranged(j, w.n), one(w.get(j).t))))
    f_key, f_side = (z3.Function(n, Str, Str) for n in ("key_of_line", "side_comment_of"))
    f_block = z3.Function("block_comment_at", Int, Str, Str)
    f_capital = z3.Function("capitalised", Str, Str)
    f_bare = z3.Function("without_spacing", Str, Str)
    kind = V.str("indentation")
    V.assume(z3.Or(*(kind.t == S(x) for x in ("spaces", "tabs", "??"))))
    s = REG.summaries
    given = []
    text = lambda i, args: i.eng.str_term(args[-1])
    s[Y, "_detect_indentation"] = lambda i, args, kw: kind
    s[Y, "_remove_spacing"] = lambda i, args, kw: SStr(f_bare(text(i, args)))
    s[Y, "_count_spaces_or_tabs_at_start"] = lambda i, args, kw: V.fresh(core.OptK(INT), "count")
    s[Y, "_extract_key_from_line"] = lambda i, args, kw: SStr(f_key(text(i, args)))
    s[Y, "_extract_side_comment"] = lambda i, args, kw: SStr(f_side(text(i, args)))
    s[Y, "_capitalize_only_first_letter"] = lambda i, args, kw: SStr(f_capital(text(i, args)))
    s[Y, "_extract_single_block_comment"] = lambda i, args, kw: SStr(f_block(i.eng.int_term(args[1]), i.eng.str_term(
        kw["comments_are"])))

    def merge(i, args, kw):
        given.append(i.eng.view(args[-1]))
        return args[-1]

    s[Y, "_merge_comments"] = merge
    t, at_line, key = f_comment_text, f_comment_line, f_comment_key

    def right(c):
        n = at_line(c)
        return z3.And(key(c) == f_key(at(n)), key(c) != S(""), t(c) != S(""), z3.Or(
            t(c) == f_side(at(n)), *(t(c) == f_capital(f_block(n, S(x))) for x in ("above", "below"))),
            f_comment_first(c) == (z3.SubString(f_bare(at(n)), 0, 1) == S("-")))

    def so_far(L, i):
        found = V.eng.view(L["comments"])
        c = lambda j: V.eng.to_val(found.get(j)) if found.get(j) is not None else V.eng.const(int)
        return [("comments of their lines", FA([j], z3.Implies(ranged(j, found.n), z3.And(ranged(at_line(c(j)), i), right(c(j)))),
                                               *([c(j)] if found.get(j) is not None else []))),
                ("in order", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < found.n), at_line(c(j)) <= at_line(c(k)))))]

    REG.loops[Y + "._extract_comments", 0] = LoopSpec(lambda L: so_far(L, L.i))
    REG.loops[Y + "._extract_comments", 1] = LoopSpec(lambda L: so_far(L, V.eng.int_term(L["idx"]) + 1))
    r = V.run(modifier()._extract_comments, V.obj(modifier(), lines=lines, comments_are=places, path=V.any("p")))
    V.no_exception(r)
    if V.branch(kind.t == S("??")):
        V.prove("none if the indentation is not clear", V.eng.view(r).n == 0)
        V.cover("unclear indentation")
        return
    g = given[0]
    c = lambda j: V.eng.to_val(g.get(j)) if g.get(j) is not None else V.eng.const(int)
    V.prove("comments of keys, of these very lines", z3.And(z3.BoolVal(len(given) == 1), z3.ForAll([j], z3.Implies(
        ranged(j, g.n), z3.And(ranged(at_line(c(j)), v.n), right(c(j)))))))
    V.prove("in the order of the file", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < g.n), at_line(
        c(j)) <= at_line(c(k)))))
    V.cover("comments")


@contract("C13", f"{Y}._detect_indentation", covers=("spaces", "tabs", "unclear"), obligations=(
    "raises nothing", "what the lines are indented with"))
def _(V):
    lines = V.tuple(STR, "lines")
    v, j = V.eng.view(lines), z3.Int("j!di")
    used = lambda c: z3.Exists([j], z3.And(ranged(j, v.n), z3.Contains(v.get(j).t, S(c))))
    r = V.run(modifier()._detect_indentation, lines)
    V.no_exception(r)
    tabs, spaces = V.branch(used("\t")), V.branch(used(" "))
    want = "??" if tabs == spaces else "tabs" if tabs else "spaces"
    V.prove("what the lines are indented with", V.eng.str_term(r) == S(want))
    V.cover("unclear" if want == "??" else want)


def sorted_by_key(V):
    """sorted() with a key: a permutation in the order of the keys."""
    def summary(i, args, kw):
        eng = i.eng
        seq, key, reverse = args[0], kw["key"], kw.get("reverse", False)
        view, e = eng.view(seq), V.any("element", getattr(V, "element_class", None))
        if reverse not in (True, False):
            raise core.Unsupported("sorted either way")
        t = eng.int_term(i.call(key, (e,)))
        of = lambda x: z3.substitute(t, (e.t, x))
        arr = eng.new("sorted", z3.ArraySort(Int, Val))
        there, back = (z3.Function(eng.name(n), Int, Int) for n in ("position", "place"))
        j, k, n = z3.Int("j!sorted"), z3.Int("k!sorted"), view.n
        at, was = lambda j: z3.Select(arr, j), lambda j: eng.to_val(view.get(j))
        eng.assume(z3.ForAll([j], z3.Implies(ranged(j, n), z3.And(ranged(there(j), n), back(there(j)) == j, at(j) == was(
            there(j)))), patterns=[at(j)]))
        eng.assume(z3.ForAll([k], z3.Implies(ranged(k, n), z3.And(ranged(back(k), n), there(back(k)) == k, at(back(k)) == was(
            k))), patterns=[was(k)]))
        before = (lambda a, b: a >= b) if reverse else (lambda a, b: a <= b)
        eng.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), before(of(at(j)), of(at(k)))), patterns=[
            z3.MultiPattern(at(j), at(k))]))
        return eng.list_cell(view=core.SeqView(n, lambda j: SVal(at(j), e.cls), "list", VAL if e.cls is None else NodeK(e.cls)))

    REG.summaries["object", "sorted_by_key"] = summary


@contract("C13 C10", f"{Y}._create_temporary_string_with_comments_as_keys", obligations=(
    "raises nothing", "a hidden key right before the line of every comment", "all other lines as they were, in order",
    "only as many lines as there are comments on top"), prove_ms=20000)
def _(V):
    C = comments_by_parts(V)
    V.element_class = C
    sorted_by_key(V)
    lines, comments = V.tuple(STR, "lines"), V.tuple(NodeK(C), "comments")
    v, w = V.eng.view(lines), V.eng.view(comments)
    n = v.n
    j, k, x = z3.Ints("j!ct k!ct x!ct")
    given = lambda j: V.eng.to_val(w.get(j))
    line, first = f_comment_line, f_comment_first
    # One comment at most for a line of the file (the contract of `_merge_comments`)
    V.assume(z3.ForAll([j], z3.Implies(ranged(j, w.n), ranged(line(given(j)), n)), patterns=[given(j)]))
    V.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < w.n), line(given(j)) != line(given(k))), patterns=[
        z3.MultiPattern(given(j), given(k))]))
    f_spacing, f_body = z3.Function("spacing_of", Val, Str), z3.Function("as_block", Val, Str)
    REG.fields["Comment", "spacing"] = lambda i, v: SStr(f_spacing(v.t))
    REG.summaries[Y, "_extract_comments"] = lambda i, args, kw: comments
    REG.summaries[Y, "_format_comment_as_multiline_yaml"] = lambda i, args, kw: SStr(f_body(i.eng.to_val(args[-1])))
    entry = lambda c: z3.Concat(f_spacing(c), S(modifier().prefix), f_comment_key(c), S(": |"), f_body(c))
    f_entry = z3.Function("entry_of", Val, Str)
    f_dash = z3.Function("without_dash", Str, Str)
    count = z3.Function("comments_up_to_line", Int, Int, Int)  # line, how many comments were seen
    dashed = z3.Function("dash_removed", Int, Int, core.Bool)
    V.assume(z3.ForAll([x], z3.And(count(x, 0) == 0, z3.Not(dashed(x, 0))), patterns=[count(x, 0), dashed(x, 0)]))
    box = {}

    def inv(L):
        i = L.i
        new = V.eng.view(L["new_lines"])
        box["new"] = new
        at = lambda j: V.eng.str_term(new.get(j))
        c = lambda j: V.eng.to_val(L.seq.get(j))
        box["c"] = c
        for m in (i, z3.simplify(i - 1)):
            d = c(m)
            V.assume(z3.ForAll([x], z3.And(
                count(x, m + 1) == count(x, m) + z3.If(line(d) <= x, 1, 0),
                dashed(x, m + 1) == z3.Or(dashed(x, m), z3.And(line(d) == x, first(d)))),
                patterns=[count(x, z3.simplify(m + 1)), dashed(x, z3.simplify(m + 1))]))
            V.assume(f_entry(d) == entry(d))
            text = v.get(line(d)).t
            V.assume(f_dash(text) == f_replace_some(text, S("-"), S(" "), z3.IntVal(1)))
        last = line(c(i - 1))
        want = lambda x: z3.If(dashed(x, i), f_dash(v.get(x).t), v.get(x).t)
        return [("one line more per comment", new.n == n + i),
                ("not negative", FA([x], count(x, i) >= 0, count(x, i))),
                ("nothing before the last one", z3.Implies(i > 0, FA([x], z3.Implies(x < last, z3.And(
                    count(x, i) == 0, z3.Not(dashed(x, i)))), count(x, i), dashed(x, i)))),
                ("the lines", FA([x], z3.Implies(ranged(x, n), at(x + count(x, i)) == want(x)), count(x, i), v.get(x).t)),
                ("the entries", FA([k], z3.Implies(ranged(k, i), at(line(c(k)) + count(line(c(k)) - 1, i)) == f_entry(c(k))),
                                   c(k)))]

    REG.loops[Y + "._create_temporary_string_with_comments_as_keys", 0] = LoopSpec(inv)
    r = V.run(modifier()._create_temporary_string_with_comments_as_keys, V.obj(modifier(), lines=lines, path=V.any("p"),
              comments_are=V.any("places")))
    V.no_exception(r)
    new, c = box["new"], box["c"]
    at = lambda j: V.eng.str_term(new.get(j))
    N = w.n
    V.prove("only as many lines as there are comments on top", z3.And(new.n == n + N, V.eng.str_term(r) == V.eng.str_term(
        V.call("\n".join, V.eng.list_cell(view=new)))))
    V.prove("all other lines as they were, in order", z3.ForAll([x], z3.Implies(ranged(x, n), at(x + count(x, N)) == z3.If(
        dashed(x, N), f_dash(v.get(x).t), v.get(x).t))))
    V.prove("a hidden key right before the line of every comment", z3.ForAll([k], z3.Implies(ranged(k, N), z3.And(
        at(line(c(k)) + count(line(c(k)) - 1, N)) == f_entry(c(k))))))
    V.cover()
