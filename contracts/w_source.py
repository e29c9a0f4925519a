"""C17, C11: the source edits that remove methods and variables, and the searches they rest on."""
import ast

from contracts.i_source import P, S_, Source, f_quoted, listed, modifier
from contracts.world import S
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, Raised, SBool, SInt, SStr, Str, ranged, z3
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.models import f_strip
from pyvc.verify import contract


@contract("C17", "PyFileModifier.__init__, str, repr", obligations=("raises nothing", "the lines of the text", "the text of the lines"))
def _(V):
    c = modifier()
    text, lines, joined, log = V.str("text"), V.list(STR, "lines"), V.str("joined"), []
    f_lines = z3.Function("is_lines_of", Str, Int, core.Bool)
    REG.methods["str", "splitlines"] = lambda i, v, args, kw: (log.append((v, args, kw)), lines)[1]
    self = V.obj(c)
    r = V.run(c.__init__, self, text)
    V.no_exception(r)
    V.prove("the lines of the text", len(log) == 1 and log[0] == (text, log[0][1], log[0][2]) and not any(
        V.eng.branch(as_term(V.i.truth_term(x))) for x in (*log[0][1], *log[0][2].values())) and self.attrs["lines"] is lines)
    seen = []
    REG.methods["str", "join"] = lambda i, v, args, kw: (seen.append((v, args[0])), joined)[1]
    for f in (c.__str__, c.__repr__):
        seen.clear()
        r = V.run(f, self)
        V.prove("the text of the lines", r is joined and seen == [("\n", lines)])
    V.cover()


@contract("C17 C11", "PyFileModifier.search_decorator", obligations=(
    "raises nothing", "a decorator of that name", "in the run above a method", "lines are kept"))
def _(V):
    src = Source(V)
    word, deco = V.str("method_name"), V.str("decorator_name")
    found = V.list(INT, "methods")
    v = V.eng.view(found)
    j, k, d = z3.Int("j!sd"), z3.Int("k!sd"), z3.Int("d!sd")
    V.assume(z3.ForAll([j], z3.Implies(ranged(j, v.n), ranged(v.get(j).t, src.n))))

    def search(i, args, kw):
        import inspect
        b = inspect.signature(modifier().search_method).bind(*args, **kw).arguments
        i.eng.prove(f"{P}.search_decorator: searches the method itself", z3.And(
            S_(i, b["method_name"]) == word.t, z3.Not(as_term(i.truth_term(b.get("return_index_above_decorator", True))))))
        return found

    REG.summaries[P, "search_method"] = search
    is_deco = lambda j: z3.PrefixOf(S("@"), f_strip(src.before(j)))
    named = lambda j: z3.Contains(src.before(j), z3.Concat(S("@"), deco.t))
    above = lambda p, m: z3.And(0 <= p, p < m, z3.ForAll([j], z3.Implies(z3.And(p <= j, j < m), is_deco(j))))
    nearest = lambda p, m: z3.ForAll([j], z3.Implies(z3.And(p < j, j < m), z3.Not(named(j))))

    def good(out):
        if out.get(z3.IntVal(0)) is None:
            return []
        at = lambda k: V.eng.int_term(out.get(k))
        return [("a decorator of that name", z3.ForAll([k], z3.Implies(ranged(k, out.n), z3.And(ranged(at(k), src.n), named(at(k)))))),
                ("in the run above a method", z3.ForAll([k], z3.Implies(ranged(k, out.n), z3.Exists([d], z3.And(
                    ranged(d, v.n), above(at(k), v.get(d).t), nearest(at(k), v.get(d).t))))))]

    REG.loops[P + ".search_decorator", 0] = LoopSpec(lambda L: good(V.eng.view(L["output"])))

    def inner(L):
        at, m = V.eng.int_term(L["decorator_idx"]), V.eng.int_term(L["idx"])
        return good(V.eng.view(L["output"])) + [("decorators down to the method", z3.And(-1 <= at, at < m, z3.ForAll([j], z3.Implies(
            z3.And(at < j, j < m), z3.And(is_deco(j), z3.Not(named(j)))))))]

    REG.loops[P + ".search_decorator", 1] = LoopSpec(inner)
    r = V.run(modifier().search_decorator, src.self, decorator_name=deco, method_name=word)
    V.no_exception(r)
    V.prove("lines are kept", src.same())
    for text, term in good(V.eng.view(r)):
        V.prove(text, term)
    V.cover()


@contract("C17 C11", "PyFileModifier.remove_all_private_methods", obligations=(
    "raises nothing", "reads its own text", "keeps what is no part of a private method", "in order", "removes private methods"),
    prove_ms=20000)
def _(V):
    src = Source(V)
    tree, text = V.any("tree"), V.str("text")
    nodes = V.list(VAL, "nodes")
    v = V.eng.view(nodes)
    node = lambda k: v.get(k).t
    f_line, f_end, f_count = (z3.Function(n, core.Val, Int) for n in ("first_line", "last_line", "decorators"))
    f_name, f_deco = z3.Function("name_of", core.Val, Str), z3.Function("decorator", core.Val, Int, core.Val)
    REG.fields["object", "lineno"] = lambda i, o: SInt(f_line(i.eng.pack(VAL, o)[0]))
    REG.fields["object", "end_lineno"] = lambda i, o: SInt(f_end(i.eng.pack(VAL, o)[0]))
    REG.fields["object", "name"] = lambda i, o: SStr(f_name(i.eng.pack(VAL, o)[0]))

    def decorators(i, o):
        t = i.eng.pack(VAL, o)[0]
        i.eng.assume(f_count(t) >= 0)
        return i.eng.list_cell(view=core.SeqView(f_count(t), lambda k: core.SVal(f_deco(t, k)), kind=VAL))

    REG.fields["object", "decorator_list"] = decorators
    REG.summaries[P, "__str__"] = lambda i, args, kw: text
    REG.summaries["ast", "parse"] = lambda i, args, kw: (V.prove("reads its own text", args[0] is text), tree)[1]
    REG.summaries["ast", "walk"] = lambda i, args, kw: (V.prove("reads its own text", args[0] is tree), nodes)[1]

    j, k, d = z3.Int("j!rp"), z3.Int("k!rp"), z3.Int("d!rp")
    function = lambda t: as_term(V.i.truth_term(V.call(isinstance, core.SVal(t), (ast.FunctionDef, ast.AsyncFunctionDef))))
    name = lambda t: f_name(t)
    private_ = lambda t: z3.And(function(t), z3.PrefixOf(S("_"), name(t)), z3.Not(z3.PrefixOf(S("__"), name(t))))
    # what the parser says about places: lines count from 1, the last line is one of the text
    V.assume(z3.ForAll([j], z3.Implies(ranged(j, v.n), z3.And(
        f_line(node(j)) >= 1, f_line(node(j)) <= f_end(node(j)), f_end(node(j)) <= src.n)), patterns=[node(j)]))
    # a line belongs to a method: from its first decorator or its def line on, to its last line
    f_start, f_which, t = z3.Function("start", core.Val, Int), z3.Function("which", core.Val, Int), z3.Const("t!rp", core.Val)
    V.assume(z3.ForAll([t], z3.And(f_start(t) <= f_line(t), z3.Or(f_start(t) == f_line(t), z3.And(ranged(
        f_which(t), f_count(t)), f_start(t) == f_line(f_deco(t, f_which(t)))))), patterns=[f_start(t)]))
    V.assume(z3.ForAll([t, d], z3.Implies(ranged(d, f_count(t)), f_start(t) <= f_line(f_deco(t, d))), patterns=[
        f_line(f_deco(t, d))]))
    starts = lambda t, l: f_start(t) - 1 <= l
    blank_ = lambda l: f_strip(src.before(l)) == S("")
    # names for the two conditions on texts; their meaning is told where it is needed
    f_private, f_blank = z3.Function("is_private_method", core.Val, core.Bool), z3.Function("is_blank_line", Int, core.Bool)
    private, blank = f_private, f_blank
    part = lambda t, l: z3.And(starts(t, l), l < f_end(t))
    due = lambda t, l: z3.And(private(t), z3.Or(part(t, l), z3.And(l == f_end(t), l < src.n, blank(l))))

    def inv(L):
        gone, one = L["lines_to_remove"], node(L.i)
        V.assume(f_private(one) == private_(one))
        V.assume(f_blank(f_end(one)) == blank_(f_end(one)))
        has = lambda j: as_term(V.i.contains(gone, SInt(j)))
        return [("only lines of private methods", z3.ForAll([j], z3.Implies(has(j), z3.Exists([k], z3.And(
                    ranged(k, L.i), due(node(k), j)))))),
                ("all lines of private methods", z3.ForAll([j, k], z3.Implies(z3.And(ranged(k, L.i), due(node(k), j)),
                                                                            has(j))))]

    REG.loops[P + ".remove_all_private_methods", 0] = LoopSpec(inv)
    r = V.run(modifier().remove_all_private_methods, src.self)
    V.no_exception(r)
    out = V.eng.view(src.self.attrs["lines"])
    line = lambda j: S_(V.i, out.get(j))
    gone = lambda l: z3.Exists([k], z3.And(ranged(k, v.n), due(node(k), l)))
    if out.source is None:
        at, pos = (z3.Function(n, Int, Int) for n in ("at", "pos"))  # no place known: fails
    else:
        _, at, pos, _ = out.source
        at, pos = (lambda j, a=at: a[j]), (lambda j, a=pos: a[j])
    V.prove("keeps what is no part of a private method", z3.ForAll([j], z3.Implies(z3.And(ranged(j, src.n), z3.Not(gone(
        j))), z3.And(ranged(pos(j), out.n), at(pos(j)) == j))))
    V.prove("in order", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < out.n), at(j) < at(k))))
    V.prove("in order", z3.ForAll([j], z3.Implies(ranged(j, out.n), z3.And(ranged(at(j), src.n), line(j) == src.before(
        at(j))))))
    V.prove("removes private methods", z3.ForAll([j, k], z3.Implies(z3.And(ranged(j, out.n), ranged(k, v.n)), z3.Not(due(
        node(k), at(j))))))
    V.cover()


@contract("C17 C11", "PyFileModifier.get_signature", covers=("found", "no end"), obligations=(
    "from the first decorator of the last such method", "to the first line that ends it", "the text of these lines",
    "an error only if no line ends it", "lines are kept"))
def _(V):
    src = Source(V)
    word = V.str("method_name")
    found, joined, whole = V.list(INT, "methods"), [], V.str("joined")
    v = V.eng.view(found)
    j = z3.Int("j!gs")
    V.assume(z3.And(v.n > 0, z3.ForAll([j], z3.Implies(ranged(j, v.n), ranged(v.get(j).t, src.n)), patterns=[v.get(j).t])))

    def search(i, args, kw):
        import inspect
        b = inspect.signature(modifier().search_method).bind(*args, **kw).arguments
        i.eng.prove(f"{P}.get_signature: searches the method with its decorators", z3.And(
            S_(i, b["method_name"]) == word.t, as_term(i.truth_term(b.get("return_index_above_decorator", True)))))
        return found

    REG.summaries[P, "search_method"] = search
    REG.methods["str", "join"] = lambda i, v, args, kw: (joined.append((v, i.eng.view(args[0]))), whole)[1]
    first = v.get(v.n - 1).t
    ends = lambda l: z3.Or(z3.Contains(src.before(l), S(")")), z3.Contains(src.before(l), S(":")))
    # In valid source the signature of a method is followed by its end, which no line before it has
    no_end = lambda l: z3.ForAll([j], z3.Implies(z3.And(first <= j, j < l), z3.Not(ends(j))))

    def inv(L):
        at = V.eng.int_term(L["bottom_idx"])
        return [("no end so far", z3.And(first <= at, at <= src.n, no_end(at)))]

    REG.loops[P + ".get_signature", 0] = LoopSpec(inv)
    r = V.run(modifier().get_signature, src.self, word)
    V.prove("lines are kept", src.same())
    if isinstance(r, Raised):
        V.prove("an error only if no line ends it", z3.And(z3.BoolVal(r.cls is IndexError), no_end(src.n)))
        V.cover("no end")
        return
    text, place = r
    start, stop = V.eng.int_term(place.start if isinstance(place, slice) else V.i.getattr(place, "start")), V.eng.int_term(
        place.stop if isinstance(place, slice) else V.i.getattr(place, "stop"))
    last = stop - 1
    V.prove("from the first decorator of the last such method", start == first)
    V.prove("to the first line that ends it", z3.And(first <= last, last < src.n, ends(last), no_end(last)))
    sep, part = joined[-1]
    V.prove("the text of these lines", z3.And(z3.BoolVal(text is whole and sep == "\n"), part.n == stop - start, z3.ForAll(
        [j], z3.Implies(ranged(j, part.n), S_(V.i, part.get(j)) == src.before(start + j)))))
    V.cover("found")
