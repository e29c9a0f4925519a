"""C13, C14: the text of YAML comments and where they are put."""
import inspect
import re

from contracts.u_yaml import Y, comments_by_parts, f_comment_first, f_comment_key, f_comment_line, f_comment_text, modifier
from contracts.world import FA, S, cls
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, NodeK, Raised, SBool, SInt, SStr, Str, SVal, Val, ranged, z3
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.models import f_leading, f_replace, f_strip, f_upper
from pyvc.verify import contract


def comment():
    return cls("file_modifiers.yaml_file_modifier.Comment")


@contract("C13", "Comment.spacing", covers=("in a list", "elsewhere"), obligations=(
    "raises nothing", "as wide as its key", "the hyphen of the list right before the key"))
def _(V):
    n, first, kind = V.int("width"), V.bool("first of a list"), V.str("kind")
    V.assume(z3.And(n.t >= 0, z3.Implies(first.t, n.t >= 2)))  # a hyphen and a blank come before the key
    joined, whole = [], V.str("joined")
    REG.methods["str", "join"] = lambda i, v, args, kw: (joined.append((v, i.eng.view(args[0]))), whole)[1]
    c = comment()
    self = V.obj(c, spacing_element=(kind, n), must_replace_its_key_as_first_element_of_list=first)
    r = V.i.getattr(self, "spacing") if not isinstance(c.__dict__["spacing"], property) else V.run(c.spacing.fget, self)
    V.no_exception(r)
    sep, out = joined[-1]
    j = z3.Int("j!cs")
    one = z3.If(kind.t == S("tabs"), S("\t"), S(" "))
    hyphen = lambda j: z3.And(first.t, j == n.t - 2)
    V.prove("as wide as its key", z3.And(z3.BoolVal(r is whole and sep == "" and len(joined) == 1), out.n == n.t))
    V.prove("the hyphen of the list right before the key", z3.ForAll([j], z3.Implies(ranged(j, n.t), V.eng.str_term(
        out.get(j)) == z3.If(hyphen(j), S("-"), one))))
    V.cover("in a list" if V.branch(first.t) else "elsewhere")


@contract("C14 C15", f"{Y}._capitalize_only_first_letter", covers=("empty", "text"), obligations=(
    "raises nothing", "its first letter", "the rest as it was"))
def _(V):
    text = V.str("text")
    r = V.run(modifier()._capitalize_only_first_letter, text)
    V.no_exception(r)
    t = V.eng.str_term(r)
    if V.branch(text.t == S("")):
        V.prove("the rest as it was", t == S(""))
        V.cover("empty")
        return
    V.prove("its first letter", z3.PrefixOf(f_upper(z3.SubString(text.t, 0, 1)), t))
    V.prove("the rest as it was", t == z3.Concat(f_upper(z3.SubString(text.t, 0, 1)), z3.SubString(text.t, 1, z3.Length(
        text.t) - 1)))
    V.cover("text")


@contract("C13 C14", f"{Y}._format_comment_as_multiline_yaml", obligations=(
    "raises nothing", "every line of the comment", "one further than its key"))
def _(V):
    c = comment()
    lines, text, kind, n = V.list(STR, "lines"), V.str("text"), V.str("kind"), V.int("width")
    V.assume(n.t >= 0)
    v, asked, joined, whole = V.eng.view(lines), [], [], V.str("joined")
    before, count = (lambda j, v=v: v.get(j).t), v.n
    REG.methods["str", "splitlines"] = lambda i, v, args, kw: (asked.append((v, args, kw)), lines)[1]
    REG.methods["str", "join"] = lambda i, v, args, kw: (joined.append((v, i.eng.view(args[0]))), whole)[1]
    r = V.run(modifier()._format_comment_as_multiline_yaml, V.obj(
        c, full_string=text, spacing_element=(kind, n), associated_with_key=V.str("key"), key_line=V.int("line"),
        must_replace_its_key_as_first_element_of_list=V.bool("first")))
    V.no_exception(r)
    sep, out = joined[-1]
    j = z3.Int("j!fc")
    at = lambda j: V.eng.str_term(out.get(j))
    V.prove("every line of the comment", z3.And(z3.BoolVal(r is whole and asked == [(text, asked[0][1], asked[0][2])] and not
                                                         any(asked[0][1:])), out.n == count + 1))
    V.prove("every line of the comment", at(z3.IntVal(0)) == S(""))
    V.prove("every line of the comment", z3.ForAll([j], z3.Implies(ranged(j, count), at(j + 1) == before(j))))
    sep, one = V.eng.str_term(sep), z3.If(kind.t == S("tabs"), S("\t"), S(" "))
    V.prove("one further than its key", z3.And(z3.Length(sep) == n.t + 2, z3.PrefixOf(S("\n"), sep)))
    if z3.is_app_of(sep, z3.Z3_OP_SEQ_CONCAT) and sep.num_args() == 2:
        blanks = sep.arg(1)
        V.lemma("the blanks follow the line break", [ranged(j, n.t + 1), z3.Length(sep) == n.t + 2, sep == z3.Concat(S(
            "\n"), blanks)], z3.SubString(sep, j + 1, 1) == z3.SubString(blanks, j, 1), [j], [z3.SubString(sep, j + 1, 1)])
    V.prove("one further than its key", z3.ForAll([j], z3.Implies(ranged(j, n.t + 1), z3.SubString(sep, j + 1, 1) == one)))
    V.cover()


@contract("C13 C14", f"{Y}._count_spaces_or_tabs_at_start", covers=("hyphen with tabs", "a number"), obligations=(
    "raises nothing", "no number exactly for a hyphen among tabs", "how far the line is indented"))
def _(V):
    line, kind = V.str("line"), V.str("indentation")
    f_blanks = lambda t: f_leading(t, S("\t "))

    class Pattern:
        def match(self, text):
            return None

    class Match:
        def group(self, *number):
            return None

    pattern, match, seen = V.obj(Pattern), V.obj(Match), []
    REG.summaries["re", "compile"] = lambda i, args, kw: (V.prove("how far the line is indented", z3.BoolVal(args[
        0] == r"^[ \t]*")), pattern)[1]
    REG.summaries["re", "match"] = lambda i, args, kw: (seen.append(args[1]), V.prove("how far the line is indented", z3.BoolVal(
        args[0] in (r"^[ \t]*", r"[ \t]*"))), match)[2]
    REG.summaries["Pattern", "match"] = lambda i, args, kw: (seen.append(args[1]), match)[1]
    REG.summaries["Match", "group"] = lambda i, args, kw: SStr(f_blanks(i.eng.str_term(seen[-1])))
    r = V.run(modifier()._count_spaces_or_tabs_at_start, line, indentation=kind)
    V.no_exception(r)
    none = z3.And(z3.Contains(line.t, S("-")), kind.t == S("tabs"))
    if r is None:
        V.prove("no number exactly for a hyphen among tabs", none)
        V.cover("hyphen with tabs")
        return
    V.prove("no number exactly for a hyphen among tabs", z3.Not(none))
    V.prove("how far the line is indented", V.eng.int_term(r) == z3.Length(f_blanks(f_replace(line.t, S("-"), S(" ")))))
    V.cover("a number")


@contract("C13", f"{Y}._merge_comments", obligations=(
    "raises nothing", "every comment once, with those of its line", "one comment per line of the file", "the place of its first",
    "all texts, in order", "first of a list if one of them is"), prove_ms=20000)
def _(V):
    from collections import defaultdict
    C = comments_by_parts(V)
    f_spacing = z3.Function("spacing_element_of", Val, Val)
    REG.fields["Comment", "spacing_element"] = lambda i, v: SVal(f_spacing(v.t))
    comments = V.tuple(NodeK(C), "comments")
    V.element_class = C
    w = V.eng.view(comments)
    given = lambda j: V.eng.to_val(w.get(j))
    log = V.eng.list_cell([])
    keeper = V.obj(modifier(), log=log)

    class Group:
        def append(self, comment):
            return None

    class Groups:
        def __getitem__(self, line):
            return None

        def values(self):
            return None

    def append(i, args, kw):
        slot, c = args
        V.prove("every comment once, with those of its line", f_comment_line(i.eng.to_val(c)) == i.eng.int_term(slot.attrs["line"]))
        i.call_method(log, "append", (c,), {})

    groups = V.obj(Groups)
    REG.models[id(defaultdict)] = (defaultdict, lambda i, args, kw: (V.prove(
        "every comment once, with those of its line", z3.BoolVal(args == (list,))), groups)[1])
    REG.summaries["Groups", "__getitem__"] = lambda i, args, kw: V.obj(Group, line=args[1])
    REG.summaries["Group", "append"] = append

    # What a dictionary of lists holds then: of each line the comments appended for it, in order
    m = V.int("lines").t
    V.assume(m >= 0)
    f_count, f_at, f_of = (z3.Function(n, *s) for n, s in (("group_size", (Int, Int)), ("group_at", (Int, Int, Int)), (
        "group_line", (Int, Int))))
    g, j, k = z3.Ints("g!mc j!mc k!mc")
    member = lambda g, k: given(f_at(g, k))

    def values(i, args, kw):
        n = w.n
        i.eng.assume(z3.ForAll([g], z3.Implies(ranged(g, m), f_count(g) > 0), patterns=[f_count(g)]))
        i.eng.assume(z3.ForAll([g, k], z3.Implies(z3.And(ranged(g, m), ranged(k, f_count(g))), z3.And(ranged(
            f_at(g, k), n), f_comment_line(member(g, k)) == f_of(g))), patterns=[f_at(g, k)]))
        return i.eng.list_cell(view=core.SeqView(m, lambda g: i.eng.list_cell(view=core.SeqView(
            f_count(g), lambda k: SVal(member(g, k), C), kind=NodeK(C)))))

    REG.summaries["Groups", "values"] = values

    def first(L):
        view = V.eng.view(log)
        if view.get(z3.IntVal(0)) is None:
            return [("each once, in order", view.n == L.i)]
        return [("each once, in order", z3.And(view.n == L.i, z3.ForAll([j], z3.Implies(ranged(j, L.i), V.eng.to_val(
            view.get(j)) == given(j)))))]

    f_whole = z3.Function("texts_of_group", Int, Str)
    box = {}

    def join(i, sep, args, kw):
        part = i.eng.view(args[0])
        g = box["g"]
        V.prove("all texts, in order", z3.And(z3.BoolVal(sep == "\n\n"), part.n == f_count(g), z3.ForAll([k], z3.Implies(
            ranged(k, part.n), i.eng.str_term(part.get(k)) == f_comment_text(member(g, k))))))
        return SStr(f_whole(g))

    REG.methods["str", "join"] = join
    some_first = lambda g: z3.Exists([k], z3.And(ranged(k, f_count(g)), f_comment_first(member(g, k))))

    def merged(out, n):
        if out.get(z3.IntVal(0)) is None:
            return [("one comment per line of the file", out.n == n)]
        c = lambda g: V.eng.to_val(out.get(g))
        each = lambda t: z3.ForAll([g], z3.Implies(ranged(g, n), t))
        return [("one comment per line of the file", z3.And(out.n == n, each(f_comment_line(c(g)) == f_of(g)))),
                ("the place of its first", each(f_comment_key(c(g)) == f_comment_key(member(g, z3.IntVal(0))))),
                ("all texts, in order", each(f_comment_text(c(g)) == f_whole(g))),
                ("first of a list if one of them is", each(f_comment_first(c(g)) == some_first(g)))]

    def second(L):
        box["g"] = L.i
        return merged(V.eng.view(L["merged_comments"]), L.i)

    REG.loops[Y + "._merge_comments", 0], REG.loops[Y + "._merge_comments", 1] = LoopSpec(first), LoopSpec(second)
    r = V.run(modifier()._merge_comments, comments)
    V.no_exception(r)
    for text, t in merged(V.eng.view(r), m):
        V.prove(text, t)
    for text, t in first(type("End", (), {"i": w.n})):
        V.prove("every comment once, with those of its line", t)
    V.cover()


@contract("C14 C13", f"{Y}._join_multi_line_comments", covers=("nothing", "text"), obligations=(
    "raises nothing", "nothing exactly without text", "ends with a full stop", "every line is told"), prove_ms=20000)
def _(V):
    lines = V.tuple(STR, "lines")
    w = V.eng.view(lines)
    at, n = (lambda j: w.get(j).t), w.n
    j, k = z3.Ints("j!jm k!jm")
    name, box = Y + "._join_multi_line_comments", {}
    f_rest = z3.Function("without_first_letter", Str, Str)
    rest = lambda t: z3.SubString(f_strip(t), 1, z3.Length(f_strip(t)) - 1)
    told = lambda text, j: z3.Contains(text, f_rest(at(j)))

    def part(L):
        v = V.eng.view(L["lines"])
        return v, lambda j: V.eng.str_term(v.get(j))

    def front(L):
        v, x = part(L)
        off = box["off"] = n - v.n
        return [("the first ones left out are empty", z3.And(0 <= off, off <= n, z3.ForAll([j], z3.Implies(ranged(j, off), at(
            j) == S(""))), z3.ForAll([j], z3.Implies(ranged(j, v.n), x(j) == at(off + j)))))]

    def back(L):
        v, x = part(L)
        off = box["off"]
        box["n"] = v.n
        return [("the last ones left out are empty", z3.And(0 <= v.n, off + v.n <= n, z3.ForAll([j], z3.Implies(z3.And(
            off + v.n <= j, j < n), at(j) == S(""))), z3.ForAll([j], z3.Implies(ranged(j, v.n), x(j) == at(off + j)))))]

    def body(L):
        text, off = V.eng.str_term(L["result"]), box["off"]
        line = at(off + L.i)
        V.assume(f_rest(line) == rest(line))
        return [("told so far", z3.ForAll([j], z3.Implies(z3.And(off <= j, j < off + L.i), told(text, j))))]

    for i, inv in enumerate((front, back, body)):
        REG.loops[name, i] = LoopSpec(inv)
    V.assume(f_rest(S("")) == S(""))
    r = V.run(modifier()._join_multi_line_comments, lines)
    V.no_exception(r)
    t = V.eng.str_term(r)
    V.prove("ends with a full stop", z3.Or(t == S(""), z3.SuffixOf(S("."), t)))
    V.prove("every line is told", z3.ForAll([j], z3.Implies(ranged(j, n), told(t, j))))
    V.prove("nothing exactly without text", z3.Implies(z3.ForAll([j], z3.Implies(ranged(j, n), at(j) == S(""))), t == S("")))
    V.cover("nothing" if V.branch(t == S("")) else "text")


@contract("C13 C14", f"{Y}._remove_spacing", obligations=("raises nothing", "the parts between tabs, without blanks before them"))
def _(V):
    from pyvc.models import f_lstrip, f_splitat, f_splitn
    line, joined, whole = V.str("line"), [], V.str("joined")
    REG.methods["str", "join"] = lambda i, v, args, kw: (joined.append((v, i.eng.view(args[0]))), whole)[1]
    r = V.run(modifier()._remove_spacing, line)
    V.no_exception(r)
    sep, out = joined[-1]
    j = z3.Int("j!rs")
    V.prove("the parts between tabs, without blanks before them", z3.And(z3.BoolVal(r is whole and sep == ""), out.n == f_splitn(
        line.t, S("\t")), z3.ForAll([j], z3.Implies(ranged(j, out.n), V.eng.str_term(out.get(j)) == f_lstrip(z3.Select(
            f_splitat(line.t, S("\t")), j))))))
    V.cover()


@contract("C13 C14", f"{Y}._extract_key_from_line", covers=("no key", "plain key", "quoted key"), obligations=(
    "raises nothing", "a key exactly with a colon outside of quotes", "from the first character on to the colon",
    "a key between quotes is what they enclose"))
def _(V):
    from pyvc.models import f_lstrip
    line = V.str("line")
    f_spaced, f_colon = z3.Function("without_spacing", Str, Str), z3.Function("first_colon", Str, Int)
    text = f_spaced(line.t)
    dash = z3.PrefixOf(S("-"), text)
    whole = z3.If(dash, z3.Concat(S(" "), z3.SubString(text, 1, z3.Length(text) - 1)), text)
    V.assume(z3.And(z3.Length(text) > 0, z3.Length(f_strip(whole)) > 0))  # only such lines are asked for their key
    REG.summaries[Y, "_remove_spacing"] = lambda i, args, kw: SStr(f_spaced(i.eng.str_term(args[-1])))

    def scan(i, args, kw):
        b = inspect.signature(modifier()._find_first_occurrence_that_is_not_between).bind(*args, **kw).arguments
        t = i.eng.str_term(b["line"])
        i.eng.prove(f"{Y}._extract_key_from_line: looks for the colon of this line", z3.And(t == whole, i.eng.str_term(b[
            "occurrence"]) == S(":")))
        i.eng.assume(z3.And(f_colon(t) >= -1, f_colon(t) < z3.Length(t), z3.Implies(f_colon(t) >= 0, z3.SubString(
            t, f_colon(t), 1) == S(":"))))
        return SInt(f_colon(t)) if i.eng.branch(f_colon(t) >= 0) else None

    REG.summaries[Y, "_find_first_occurrence_that_is_not_between"] = scan
    stripped = []
    inner = z3.Function("stripped_of", Str, Str, Str)
    plain = REG.methods["str", "strip"]

    def strip(i, v, args, kw):
        if not args:
            return plain(i, v, args, kw)
        stripped.append((i.eng.str_term(v), i.eng.str_term(args[0])))
        return SStr(inner(*stripped[-1]))

    REG.methods["str", "strip"] = strip
    r = V.run(modifier()._extract_key_from_line, line)
    V.no_exception(r)
    t, at = V.eng.str_term(r), f_colon(whole)
    if isinstance(r, str) and r == "":
        V.prove("a key exactly with a colon outside of quotes", at <= 0)
        V.cover("no key")
        return
    start = z3.IndexOf(whole, z3.SubString(f_strip(whole), 0, 1), 0)
    key = z3.SubString(whole, start, at - start)
    V.prove("a key exactly with a colon outside of quotes", at > 0)
    quoted = lambda q: z3.And(z3.PrefixOf(S(q), key), z3.SuffixOf(S(q), key))
    if stripped:
        source, q = stripped[-1]
        V.prove("from the first character on to the colon", z3.And(source == key, t == inner(source, q)))
        V.prove("a key between quotes is what they enclose", z3.Or(*(z3.And(q == S(x), quoted(x)) for x in "'\"")))
        V.cover("quoted key")
        return
    V.prove("from the first character on to the colon", t == key)
    V.prove("a key between quotes is what they enclose", z3.Not(z3.Or(quoted("'"), quoted('"'))))
    V.cover("plain key")
