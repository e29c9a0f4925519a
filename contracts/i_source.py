"""C17: edits of and searches in Python source."""
from contracts.world import FA, S, cls
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, ListK, Raised, SBool, SInt, SStr, Str, TupK, ranged, z3
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.models import f_replace, f_splitat, f_splitn, f_strip
from pyvc.verify import contract

P = "PyFileModifier"


def modifier():
    return cls("file_modifiers.py_file_modifier.PyFileModifier")


class Source:
    """A modifier with lines nothing is known about."""

    def __init__(self, V, min_lines=0):
        self.V, self.eng = V, V.eng
        self.cell = V.list(STR, "lines")
        self.self = V.obj(modifier(), lines=self.cell)
        v = V.eng.view(self.cell)
        self.n, self.before = v.n, lambda j: v.get(j).t
        V.assume(self.n >= min_lines)

    @property
    def after(self):
        lines = self.self.attrs["lines"]
        v = self.eng.view(lines)
        return v.n, lambda j: self.eng.str_term(v.get(j))

    def same(self):
        n, at = self.after
        j = z3.Int("j!same")
        return z3.And(n == self.n, z3.ForAll([j], z3.Implies(ranged(j, self.n), at(j) == self.before(j))))

    def others_kept(self, k):
        n, at = self.after
        j = z3.Int("j!kept")
        return z3.And(n == self.n, z3.ForAll([j], z3.Implies(z3.And(ranged(j, self.n), j != k),
                                                             at(j) == self.before(j))))

    def inserted(self, k, lines, count):
        """`count` lines were put before line k."""
        n, at = self.after
        j = z3.Int("j!ins")
        return z3.And(n == self.n + count, z3.ForAll([j], z3.Implies(ranged(j, n), at(j) == z3.If(
            j < k, self.before(j), z3.If(j < k + count, lines(j - k), self.before(j - count))))))


def clamp(t, n):
    return z3.If(t < 0, z3.If(n + t > 0, n + t, 0), z3.If(t < n, t, n))


@contract("C17", "PyFileModifier.add_line: a line", obligations=("raises nothing", "only inserts it"))
def _(V):
    src = Source(V)
    k, line = V.int("idx"), V.str("line")
    r = V.run(modifier().add_line, src.self, k, line)
    V.no_exception(r)
    V.prove("only inserts it", src.inserted(clamp(k.t, src.n), lambda j: line.t, 1))
    V.cover()


@contract("C17", "PyFileModifier.add_line: several lines", obligations=("raises nothing", "only inserts them"))
def _(V):
    src = Source(V)
    k, more = V.int("idx"), V.list(STR, "more")
    r = V.run(modifier().add_line, src.self, k, more)
    V.no_exception(r)
    text = V.eng.str_term(V.call("\n".join, more))
    V.prove("only inserts them", src.inserted(clamp(k.t, src.n), lambda j: text, 1))
    V.cover()


@contract("C17", "PyFileModifier.replace_line", covers=("replaced", "no such line"), obligations=(
    "replaces that line only", "only for a line that is not there", "nothing changed then"))
def _(V):
    src = Source(V)
    k, line = V.int("idx"), V.str("line")
    r = V.run(modifier().replace_line, src.self, k, line)
    if isinstance(r, Raised):
        V.prove("only for a line that is not there", z3.Or(k.t >= src.n, k.t < -src.n))
        V.prove("nothing changed then", src.same())
        V.cover("no such line")
        return
    at = z3.If(k.t < 0, src.n + k.t, k.t)
    V.prove("replaces that line only", z3.And(src.others_kept(at), src.after[1](at) == line.t, ranged(at, src.n)))
    V.cover("replaced")


@contract("C17", "PyFileModifier.search_line", covers=("found", "not found"), obligations=(
    "the first line that has it", "an error only if no line has it", "lines are kept"))
def _(V):
    src = Source(V)
    word = V.str("keyword")
    j = z3.Int("j!sl")
    none_before = lambda i: z3.ForAll([j], z3.Implies(ranged(j, i), z3.Not(z3.Contains(src.before(j), word.t))))
    REG.loops[P + ".search_line", 0] = LoopSpec(lambda L: [("no line so far", none_before(L.i))])
    r = V.run(modifier().search_line, src.self, word)
    V.prove("lines are kept", src.same())
    if isinstance(r, Raised):
        V.prove("an error only if no line has it", z3.And(
            r.cls is ValueError, none_before(src.n)))
        V.cover("not found")
        return
    k = V.eng.int_term(r)
    V.prove("the first line that has it", z3.And(ranged(k, src.n), z3.Contains(src.before(k), word.t), none_before(k)))
    V.cover("found")


f_quoted = z3.Function("starts_within_a_literal", Str, Str, core.Bool)


def summarise_quotes(V):
    REG.summaries[P, "it_is_string"] = lambda i, args, kw: SBool(f_quoted(S_(i, args[1]), S_(i, args[2])))


def S_(i, v):
    return i.eng.str_term(v)


@contract("C17", "PyFileModifier.it_is_string", obligations=("raises nothing", "a quote comes before the keyword"))
def _(V):
    src = Source(V)
    line, word = V.str("line"), V.str("keyword")
    V.assume(word.t != S(""))
    r = V.run(modifier().it_is_string, src.self, line, word)
    V.no_exception(r)
    k = z3.IndexOf(line.t, word.t, 0)
    head = z3.If(k < 0, line.t, z3.SubString(line.t, 0, k))
    V.prove("a quote comes before the keyword", V.eng.bool_term(r) == z3.Or(
        z3.Contains(head, S('"')), z3.Contains(head, S("'"))))
    V.cover()


def listed(lst, place, match, i):
    """Invariant: `place(k)` of the k-th element is the k-th of the lines before i that match."""
    n, at = lst
    k, k2, j = z3.Int("k!l"), z3.Int("k2!l"), z3.Int("j!l")
    out = [("no more than the lines", z3.And(n >= 0, n <= i))]
    if place is None:
        return out + [("none found means none", z3.ForAll([j], z3.Implies(ranged(j, i), z3.Not(match(j)))))]
    return out + [
        ("only lines that match", z3.ForAll([k], z3.Implies(ranged(k, n), z3.And(ranged(place(k), i), match(place(k)))))),
        ("in order", z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < n), place(k) < place(k2)))),
        ("every line that matches", z3.ForAll([j], z3.Implies(z3.And(ranged(j, i), match(j)), z3.Exists([k], z3.And(
            ranged(k, n), place(k) == j)))))]


def assigned(line):
    """The value that a line assigns: what follows the last =, without quotes."""
    n, at = f_splitn(line, S("=")), f_splitat(line, S("="))
    value = f_strip(z3.Select(at, n - 1))
    first = z3.SubString(value, 0, 1)
    return z3.If(z3.Or(first == S("'"), first == S('"')), z3.SubString(value, 1, z3.Length(value) - 2), value)


def search_assignment(only):
    @contract("C17", f"PyFileModifier.search_assignment{': values' if only else ''}", obligations=(
        "raises nothing", "only lines that match", "in order", "every line that matches", "its value",
        "lines are kept"), prove_ms=20000)
    def _(V):
        src = Source(V)
        summarise_quotes(V)
        word = V.str("variable")
        match = lambda j: z3.And(z3.Contains(src.before(j), word.t), z3.Contains(src.before(j), S("=")),
                                 z3.Not(f_quoted(src.before(j), word.t)))
        j, k = z3.Int("j!sa"), z3.Int("k!sa")
        f_value = z3.Function("value_assigned", Str, Str)
        V.assume(z3.ForAll([j], z3.Implies(match(j), assigned(src.before(j)) != S("")), patterns=[src.before(j)]))
        V.assume(z3.ForAll([j], z3.Implies(match(j), f_strip(z3.Select(f_splitat(src.before(j), S("=")), f_splitn(
            src.before(j), S("=")) - 1)) != S("")), patterns=[src.before(j)]))

        def inv(L):
            v = V.eng.view(L["lst"])
            if v.get(z3.IntVal(0)) is None:
                return listed((v.n, None), None, match, L.i)
            place = (lambda k: V.eng.int_term(v.get(k)[0]))
            out = listed((v.n, None), place, match, L.i)
            return out + [("its value", z3.ForAll([k], z3.Implies(ranged(k, v.n), V.eng.str_term(v.get(k)[1]) == assigned(
                src.before(place(k))))))]

        REG.loops[P + ".search_assignment", 0] = LoopSpec(inv)
        r = V.run(modifier().search_assignment, src.self, word)
        V.no_exception(r)
        v = V.eng.view(r)
        V.prove("lines are kept", src.same())
        if v.get(z3.IntVal(0)) is None:
            return
        place = lambda k: V.eng.int_term(v.get(k)[0])
        for text, term in listed((v.n, None), place, match, src.n)[1:]:
            V.prove(text, term)
        V.prove("its value", z3.ForAll([k], z3.Implies(ranged(k, v.n), V.eng.str_term(v.get(k)[1]) == assigned(
            src.before(place(k))))))
        V.cover()


search_assignment(False)


@contract("C17", "PyFileModifier.search_method", obligations=(
    "raises nothing", "only lines that match", "in order", "every line that matches", "lines are kept"))
def _(V):
    src = Source(V)
    summarise_quotes(V)
    word = V.str("method_name")
    match = lambda j: z3.And(z3.PrefixOf(z3.Concat(S("def "), word.t), f_strip(src.before(j))),
                             z3.Not(f_quoted(src.before(j), word.t)))

    def inv(L):
        v = V.eng.view(L["lst"])
        place = None if v.get(z3.IntVal(0)) is None else (lambda k: V.eng.int_term(v.get(k)))
        return listed((v.n, None), place, match, L.i)

    REG.loops[P + ".search_method", 0] = LoopSpec(inv)
    REG.loops[P + ".search_method", 1] = LoopSpec()
    r = V.run(modifier().search_method, src.self, word, return_index_above_decorator=False)
    V.no_exception(r)
    v = V.eng.view(r)
    V.prove("lines are kept", src.same())
    if v.get(z3.IntVal(0)) is None:
        return
    place = lambda k: V.eng.int_term(v.get(k))
    for text, term in listed((v.n, None), place, match, src.n)[1:]:
        V.prove(text, term)
    V.cover()


@contract("C17", "PyFileModifier.search_method: above the decorators", obligations=(
    "raises nothing", "the decorators above it", "lines are kept"))
def _(V):
    """Of each method, the first line of the run of decorators directly above it, if there is one."""
    src = Source(V)
    summarise_quotes(V)
    word = V.str("method_name")
    deco = lambda j: z3.PrefixOf(S("@"), f_strip(src.before(j)))
    match = lambda j: z3.And(z3.PrefixOf(z3.Concat(S("def "), word.t), f_strip(src.before(j))),
                             z3.Not(f_quoted(src.before(j), word.t)))
    j, k, d = z3.Int("j!sm"), z3.Int("k!sm"), z3.Int("d!sm")
    top_of = lambda p, m: z3.And(0 <= p, p <= m, z3.ForAll([j], z3.Implies(z3.And(p <= j, j < m), deco(j))),
                                 z3.Or(p == 0, z3.Not(deco(p - 1))))

    def found(v, i):
        if v.get(z3.IntVal(0)) is None:
            return []
        place = lambda k: V.eng.int_term(v.get(k))
        return [("the decorators above it", z3.ForAll([k], z3.Implies(ranged(k, v.n), z3.Exists([d], z3.And(
            ranged(d, i), match(d), top_of(place(k), d))))))]

    REG.loops[P + ".search_method", 0] = LoopSpec(lambda L: found(V.eng.view(L["lst"]), L.i))

    def inner(L):
        at, m = V.eng.int_term(L["idx"]), V.eng.int_term(L.entry["idx"])
        return [("decorators from here on", z3.And(0 <= at, at <= m, z3.ForAll([j], z3.Implies(
            z3.And(at <= j, j < m), deco(j)))))]

    REG.loops[P + ".search_method", 1] = LoopSpec(inner)
    r = V.run(modifier().search_method, src.self, word)
    V.no_exception(r)
    V.prove("lines are kept", src.same())
    for text, term in found(V.eng.view(r), src.n):
        V.prove(text, term)
    V.cover()


@contract("C17", "PyFileModifier.replace_assignement: by line", covers=("replaced", "not an assignment"), obligations=(
    "only that line changes", "keeps what precedes the last =", "an error only for other lines", "nothing changed then"))
def _(V):
    src = Source(V)
    k, value = V.int("idx"), V.str("value")
    V.assume(ranged(k.t, src.n))
    r = V.run(modifier().replace_assignement, src.self, k, value)
    line = src.before(k.t)
    if isinstance(r, Raised):
        V.prove("an error only for other lines", z3.And(r.cls is ValueError, z3.Not(z3.Contains(line, S("=")))))
        V.prove("nothing changed then", src.same())
        V.cover("not an assignment")
        return
    V.prove("only that line changes", src.others_kept(k.t))
    n, at = f_splitn(line, S("=")), f_splitat(line, S("="))
    j = z3.Int("j!ra")
    expected = V.eng.str_term(V.call("=".join, V.eng.list_cell(view=V.eng.array_view(
        n, [z3.Store(at, n - 1, value.t)], STR))))
    V.prove("keeps what precedes the last =", src.after[1](k.t) == expected)
    V.cover("replaced")


@contract("C17", "PyFileModifier.replace_assignement: by name", covers=("replaced", "error"), obligations=(
    "only that line changes", "the line that assigns it", "an error unless one line assigns it", "nothing changed then"))
def _(V):
    src = Source(V)
    label, value = V.str("label"), V.str("value")
    found = V.list(TupK([INT, STR]), "assignments")
    v = V.eng.view(found)
    j = z3.Int("j!rn")
    V.assume(z3.ForAll([j], z3.Implies(ranged(j, v.n), z3.And(
        ranged(v.get(j)[0].t, src.n), z3.Contains(src.before(v.get(j)[0].t), S("="))))))

    def search(i, args, kw):
        i.eng.prove(f"{P}: searches for that name", S_(i, args[1]) == label.t)
        return found

    REG.summaries[P, "search_assignment"] = search
    r = V.run(modifier().replace_assignement, src.self, label, value)
    if isinstance(r, Raised):
        V.prove("an error unless one line assigns it", z3.And(r.cls is ValueError, v.n != 1))
        V.prove("nothing changed then", src.same())
        V.cover("error")
        return
    k = v.get(z3.IntVal(0))[0].t
    V.prove("only that line changes", src.others_kept(k))
    V.prove("the line that assigns it", v.n == 1)
    V.cover("replaced")


def add_imports(block, many):
    @contract("C17", f"PyFileModifier.add_imports: {'several' if many else 'one'}{' for type checking' if block else ''}",
              obligations=("raises nothing", "only inserts them, in order"), prove_ms=20000)
    def _(V):
        src = Source(V)
        at = V.int("found")
        V.assume(ranged(at.t, src.n))
        REG.summaries[P, "search_line"] = lambda i, args, kw: (
            i.eng.prove("PyFileModifier.add_imports: looks for the block", i.eng.str_term(args[1]) == S(
                "if TYPE_CHECKING:")), at)[1]
        tab = S(module_tab()) if block else S("")
        k = at.t + 1 if block else z3.IntVal(0)
        given = V.list(STR, "imports") if many else V.str("import")
        gv = V.eng.view(given) if many else None
        m = gv.n if many else z3.IntVal(1)
        line = (lambda j: z3.Concat(tab, gv.get(j).t) if block else gv.get(j).t) if many else (
            lambda j: z3.Concat(tab, given.t) if block else given.t)

        def inv(L):
            n, now = src.after
            j = z3.Int("j!ai")
            return [("the last ones are in place", z3.And(n == src.n + L.i, z3.ForAll([j], z3.Implies(
                ranged(j, n), now(j) == z3.If(j < k, src.before(j), z3.If(
                    j < k + L.i, line(m - L.i + j - k), src.before(j - L.i)))))))]

        REG.loops[P + ".add_imports", 0] = LoopSpec(inv)
        r = V.run(modifier().add_imports, src.self, given, in_type_checking_block=block)
        V.no_exception(r)
        V.prove("only inserts them, in order", src.inserted(k, line, m))
        V.cover()


def module_tab():
    import importlib
    return importlib.import_module("lazy_type_hint.utils").TAB


for b in (False, True):
    for several in (False, True):
        add_imports(b, several)
