"""C15: documentation keeps every word."""
from contracts.world import FA, S, module
from pyvc import core
from pyvc.core import INT, STR, Int, Raised, RawK, SInt, SStr, Str, ranged, z3
from pyvc.interp import REG, LoopSpec
from pyvc.models import f_splitat, f_splitn, f_wordat, f_wordn
from pyvc.verify import contract

IntMap = z3.ArraySort(Int, Int)
f_run = z3.Function("words_joined", z3.ArraySort(Int, Str), Int, Int, Str)  # words a, ..., b - 1 with blanks between


def docs():
    return module("utils.docstring_formatter")


def run_facts(V, words, a, b):
    """What `words_joined` means, between these places."""
    V.assume(f_run(words, a, a) == S(""))
    V.assume(f_run(words, b, b) == S(""))
    V.assume(f_run(words, b, b + 1) == z3.Select(words, b))
    V.assume(z3.Implies(a < b, f_run(words, a, b + 1) == z3.Concat(f_run(words, a, b), S(" "), z3.Select(words, b))))


@contract("C15", "_split_string", obligations=(
    "raises nothing", "every line is spread over its own lines", "each has the next words, in order",
    "the first starts with the first word", "no word is missing",
    "no longer than the limit unless a single word"), prove_ms=20000)
def _(V):
    text, limit = V.str("text"), V.int("limit")
    V.assume(limit.t > 0)
    n, lines = f_splitn(text.t, S("\n")), f_splitat(text.t, S("\n"))
    line = lambda l: z3.Select(lines, l)
    p, l = z3.Int("p!ss"), z3.Int("l!ss")
    box = {}

    def out(L):
        v = V.eng.view(L["substrings"])
        known = v.get(z3.IntVal(0)) is not None
        return v.n, (lambda p: V.eng.str_term(v.get(p))) if known else None

    def spread(at, first, cut, i, size):
        """Lines before i are done: line l was spread over the places first[l], ..., first[l + 1] - 1."""
        F, C = (lambda l: z3.Select(first, l)), (lambda p: z3.Select(cut, p))
        words, m = f_wordat(line(l)), f_wordn(line(l))
        q = F(l + 1)
        mine = z3.And(ranged(l, i), F(l) <= p, p < q)
        real = m > 0
        terms = [
            ("every line is spread over its own lines", z3.And(F(0) == 0, F(i) == size, z3.ForAll([l], z3.Implies(
                ranged(l, i), z3.And(0 <= F(l), F(l) <= q, q <= size)))))]
        if at is not None:
            terms += [
                ("each has the next words, in order", z3.ForAll([l, p], z3.Implies(z3.And(mine, real), z3.And(
                    C(p) < z3.If(p + 1 < q, C(p + 1), m), at(p) == f_run(words, C(p), z3.If(p + 1 < q, C(p + 1), m)))))),
                ("no longer than the limit unless a single word", z3.ForAll([l, p], z3.Implies(
                    z3.And(mine, real), z3.Or(z3.Length(at(p)) <= limit.t,
                                              z3.If(p + 1 < q, C(p + 1), m) == C(p) + 1)))),
                ("nothing but empty lines for lines without words", z3.ForAll([l, p], z3.Implies(
                    z3.And(mine, m == 0), at(p) == S("")))),
            ]
        terms += [
            ("the first starts with the first word", z3.ForAll([l], z3.Implies(z3.And(
                ranged(l, i), real), C(F(l)) == 0))),
            ("no word is missing", z3.ForAll([l], z3.Implies(z3.And(ranged(l, i), real), F(l) < q)))]
        return terms

    def outer(L):
        box["outer"] = L
        size, at = out(L)
        return spread(at, L.ghost["first"], L.ghost["cut"], L.i, size)

    def inner(L):
        """The words before i: in places base, ..., size - 1 and, from word `start` on, in the current text."""
        box["inner"] = L
        O = box["outer"]
        F = O.ghost["first"]
        oi = box["outer_i"]
        size, at = out(L)
        if "base" not in box or box["base_of"] is not L.entry:
            box["base"], box["base_of"], box["before"] = box["entry_size"], L.entry, box["entry_at"]
        base, before = box["base"], box["before"]
        words = f_wordat(line(oi))
        cut, start = L.ghost["cut"], L.ghost["start"]
        C = lambda p: z3.Select(cut, p)
        run_facts(V, words, start, L.i)
        now = V.eng.str_term(L["current_substring"])
        terms = [("grows", z3.And(size >= base, z3.Implies(L.i == 0, size == base))),
                 ("where the current text starts", z3.And(start >= 0, z3.If(L.i == 0, start == 0, start < L.i))),
                 ("the current text", now == f_run(words, start, L.i)),
                 ("it is empty only at first", z3.Implies(L.i > 0, now != S(""))),
                 ("first place", z3.If(size > base, C(base) == 0, start == 0)),
                 ("the current text fits", z3.Or(z3.Length(now) <= limit.t, start + 1 == L.i)),
                 ("earlier cuts are kept", z3.ForAll([p], z3.Implies(p < base, C(p) == z3.Select(box["entry_cut"], p))))]
        if before is not None:
            terms.append(("earlier lines are kept", z3.ForAll([p], z3.Implies(ranged(p, base), at(p) == before(p)))))
        if at is not None:
            end = lambda p: z3.If(p + 1 < size, C(p + 1), start)
            terms.append(("each has the next words", z3.ForAll([p], z3.Implies(z3.And(base <= p, p < size), z3.And(
                0 <= C(p), C(p) < end(p), at(p) == f_run(words, C(p), end(p)),
                z3.Or(z3.Length(at(p)) <= limit.t, end(p) == C(p) + 1))))))
        return terms

    # The ghosts of the inner loop start from those of the outer one
    def start_inner(i, frame):
        O = box["outer"]
        box["outer_i"] = box["now"]
        v = V.eng.view(frame.lookup("substrings"))
        box["entry_size"] = v.n
        box["entry_at"] = (lambda p: V.eng.str_term(v.get(p))) if v.get(z3.IntVal(0)) is not None else None
        box["entry_cut"] = O.ghost["cut"]
        return O.ghost["cut"]

    def grown(L):
        return out(L)[0] > L.ghost["size"]

    def outer_with_place(L):
        box["now"] = L.i
        return outer(L)

    def next_cut(L):
        return z3.If(grown(L), z3.Store(L.ghost["cut"], L.ghost["size"], L.ghost["start"]), L.ghost["cut"])

    inner_spec = LoopSpec(inner, ghosts={
        "cut": (RawK(IntMap), start_inner, next_cut),
        "start": (RawK(Int), z3.IntVal(0), lambda L: z3.If(grown(L), L.i, L.ghost["start"])),
        "size": (RawK(Int), lambda i, frame: V.eng.view(frame.lookup("substrings")).n, lambda L: out(L)[0]),
    })
    inner_inv = inner_spec.inv
    inner_spec.inv = lambda L: [("size", L.ghost["size"] == out(L)[0])] + inner_inv(L)

    def outer_cut(L):
        I = box["inner"]
        # What is left over at the end of a line is appended after the loop
        left = z3.Store(I.ghost["cut"], I.ghost["size"], I.ghost["start"])
        return left

    REG.loops["_split_string", 0] = LoopSpec(outer_with_place, ghosts={
        "first": (RawK(IntMap), z3.K(Int, z3.IntVal(0)), lambda L: z3.Store(L.ghost["first"], L.i + 1, out(L)[0])),
        "cut": (RawK(IntMap), z3.K(Int, z3.IntVal(0)), outer_cut)})
    REG.loops["_split_string", 1] = inner_spec
    r = V.run(docs()._split_string, text, max_line_length=limit)
    V.no_exception(r)
    v = V.eng.view(r)
    if v.get(z3.IntVal(0)) is None:
        return
    O = box["outer"]
    at = lambda p: V.eng.str_term(v.get(p))
    for label, term in spread(at, O.ghost["first"], O.ghost["cut"], n, v.n):
        V.prove(label, term)
    V.cover()


f_escape = z3.Function("escaped", Str, Str)
f_parts_n = z3.Function("split_lines.n", Str, Int, Int)
f_parts_at = z3.Function("split_lines.at", Str, Int, z3.ArraySort(Int, Str))


@contract("C15", "format_string_as_docstring", covers=("one line", "several lines"), obligations=(
    "raises nothing", "one line: the text in quotes, indented", "one line: within the limit",
    "splits the text", "a single word on one line, or the lines of the text, indented, between the quotes"))
def _(V):
    from pyvc.models import f_rstrip
    text, limit, tab = V.str("text"), V.int("limit"), V.str("indentation")
    V.assume(limit.t > 0)
    m = docs()
    escaped, parts = [], []

    def escape(i, args, kw):
        escaped.append(f_escape(i.eng.str_term(args[0])))
        return SStr(escaped[-1])

    def split(i, args, kw):
        s, k = i.eng.str_term(args[0]), i.eng.int_term(kw["max_line_length"])
        i.eng.prove("format_string_as_docstring: splits at the limit given", k == limit.t)
        n, at = f_parts_n(s, k), f_parts_at(s, k)
        i.eng.assume(n >= 0)
        parts.append((s, n, at))
        return i.eng.array_view(n, [at], STR, "tuple")

    REG.summaries["docstring_formatter", "_escape"] = escape
    REG.summaries["docstring_formatter", "_split_string"] = split
    r = V.run(m.format_string_as_docstring, text, max_line_length=limit, indentation=tab)
    V.no_exception(r)
    out = V.eng.str_term(r)
    Q = S('"""')
    e = f_escape(z3.Function("str.rstrip.chars", Str, Str, Str)(text.t, S("\n")))
    full = z3.If(z3.SuffixOf(S("."), e), e, z3.Concat(e, S(".")))
    one = z3.Concat(tab.t, Q, full, Q)
    if not parts:
        V.prove("one line: the text in quotes, indented", out == one)
        V.prove("one line: within the limit", z3.And(
            z3.Length(full) + 6 <= limit.t, z3.Not(z3.Contains(full, S("\n")))))
        V.cover("one line")
        return
    s, n, at = parts[0]
    j = z3.Int("j!doc")
    lines = V.eng.array_view(n, [z3.Lambda([j], z3.Concat(tab.t, z3.Select(at, j)))], STR)
    body = V.eng.str_term(V.call("\n".join, V.eng.list_cell(view=lines)))
    V.prove("splits the text", s == full)
    V.prove("a single word on one line, or the lines of the text, indented, between the quotes", z3.Or(
        z3.And(out == one, n == 1, f_wordn(full) == 1, z3.Not(z3.Contains(full, S("\n")))),
        out == z3.Concat(tab.t, S('"""\n'), body, S("\n"), tab.t, Q)))
    V.cover("several lines")
