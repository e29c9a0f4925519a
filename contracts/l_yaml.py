"""C14: where the comments of a YAML file are found."""
from contracts.world import FA, S, cls
from pyvc import core
from pyvc.core import BOOL, INT, STR, Bool, Int, ListK, Opt, Raised, SBool, SInt, SStr, Str, ranged, z3
from pyvc.interp import REG, LoopSpec
from pyvc.models import f_strip
from pyvc.verify import contract

Y = "YamlFileModifier"
f_open = z3.Function("within_quotes", Str, Int, Bool)  # before that character
f_found = z3.Function("first_unquoted.is", Str, Str, Bool)
f_at = z3.Function("first_unquoted.at", Str, Str, Int)


def modifier():
    return cls("file_modifiers.yaml_file_modifier.YamlFileModifier")


def char(s, j):
    return z3.SubString(s, j, 1)


def quote(s, j):
    return z3.Or(char(s, j) == S("'"), char(s, j) == S('"'))


def next_open(s, j):
    return f_open(s, j + 1) == z3.If(quote(s, j), z3.Not(f_open(s, j)), f_open(s, j))


def quotes_of(V, s):
    """Within quotes after every other quote."""
    j = z3.Int("j!quotes")
    V.assume(z3.Not(f_open(s, 0)))
    step = z3.ForAll([j], z3.Implies(j >= 0, next_open(s, j)), patterns=[f_open(s, j + 1)])
    V.assume(step)
    return step


def unquoted(s, j, c):
    return z3.And(ranged(j, z3.Length(s)), char(s, j) == c, z3.Not(f_open(s, j)))


def first_unquoted(s, c, found, at, upto=None):
    """The contract of the scanner."""
    j = z3.Int("j!first")
    none = lambda n: z3.ForAll([j], z3.Implies(ranged(j, n), z3.Not(unquoted(s, j, c))))
    return z3.If(found, z3.And(unquoted(s, at, c), none(at)), none(z3.Length(s)))


@contract("C14", "YamlFileModifier._find_first_occurrence_that_is_not_between", covers=("found", "none"),
          obligations=("raises nothing", "the first one outside of quotes", "none only if there is none"))
def _(V):
    line, c = V.str("line"), V.str("character")
    V.assume(z3.And(z3.Length(c.t) == 1, c.t != S("'"), c.t != S('"')))
    V.assume(z3.Not(f_open(line.t, 0)))
    j = z3.Int("j!ff")

    def inv(L):
        V.assume(z3.Implies(L.i >= 0, next_open(line.t, L.i)))
        return [("quotes so far", V.eng.bool_term(L["between_quotes"]) == f_open(line.t, L.i)),
                ("none so far", z3.ForAll([j], z3.Implies(ranged(j, L.i), z3.Not(unquoted(line.t, j, c.t)))))]

    name = Y + "._find_first_occurrence_that_is_not_between"
    REG.loops[name, 0] = LoopSpec(inv)
    r = V.run(modifier()._find_first_occurrence_that_is_not_between, line, c)
    V.no_exception(r)
    if r is None:
        V.prove("none only if there is none", first_unquoted(line.t, c.t, z3.BoolVal(False), z3.IntVal(0)))
        V.cover("none")
        return
    V.prove("the first one outside of quotes", first_unquoted(line.t, c.t, z3.BoolVal(True), V.eng.int_term(r)))
    V.cover("found")


def summarise_scanner(V, facts=None):
    """The scanner by its contract."""
    def scan(i, args, kw):
        line = i.eng.str_term(args[0] if args else kw["line"])
        c = i.eng.str_term(args[1] if len(args) > 1 else kw["occurrence"])
        i.eng.prove(f"{V.c.name}: looks for one character that is no quote", z3.And(
            z3.Length(c) == 1, c != S("'"), c != S('"')))
        text = i.eng.new("text", Str)
        i.eng.assume(text == line)
        step = quotes_of(V, text)
        if facts:
            facts(text, line, step)
        found, at = i.eng.new("found", Bool), i.eng.new("at", Int)
        i.eng.assume(first_unquoted(text, c, found, at))
        if i.eng.branch(found):
            return SInt(at)
        return None

    REG.summaries[Y, "_find_first_occurrence_that_is_not_between"] = scan


@contract("C14", "YamlFileModifier._extract_side_comment", covers=("a comment", "nothing"), obligations=(
    "raises nothing", "the first comment", "the text after it, ended with a full stop", "nothing only if there is none"), prove_ms=20000)
def _(V):
    line = V.str("line")
    s = line.t
    quotes = quotes_of(V, s)
    j = z3.Int("j!sc")
    opens = lambda j: z3.And(unquoted(s, j, S("#")), j > 0, char(s, j - 1) == S(" "))
    none_before = lambda n: z3.ForAll([j], z3.Implies(ranged(j, n), z3.Not(opens(j))))
    box = {}

    def facts(text, term, step):
        """A line whose beginning, up to an unquoted character, is blanked has the same quotes from there on."""
        if "at" not in box or not z3.is_app_of(term, z3.Z3_OP_SEQ_CONCAT) or term.num_args() != 2:
            return
        n, r, tail, j, k = box["at"] + 1, term.arg(0), term.arg(1), z3.Int("j!mask"), z3.Int("k!repeat")
        blank = z3.ForAll([k], z3.Implies(ranged(k, n), z3.SubString(r, k, 1) == S(" ")), patterns=[z3.SubString(r, k, 1)])
        size = z3.And(z3.Length(r) == n, n >= 0, n <= z3.Length(s))
        V.prove("size of the mask", size)
        same = text == z3.Concat(r, tail)
        given = [same, size, tail == z3.SubString(s, n, z3.Length(s) - n)]
        V.lemma("as long", given, z3.Length(text) == z3.Length(s))
        at = char(text, j)
        rest = V.lemma("the rest is the same", [*given, j >= n, j < z3.Length(s)], at == char(s, j), [j], [at])
        head = V.lemma("the beginning is that of the mask", [*given, j >= 0, j < n], at == char(r, j), [j], [at])
        blanks = V.lemma("blanks only", [*given, j >= 0, j < n], at == S(" "), [j], [at], using=[head, blank])
        none = V.induction("no quotes within the blanks", lambda j: z3.Not(f_open(text, j)), z3.IntVal(0), lambda j: [
            next_open(text, j), char(text, j) == S(" ")], n, using=[step, blanks, *given])
        V.induction("the same quotes from there on", lambda j: f_open(text, j) == f_open(s, j), n, lambda j: [
            next_open(text, j), next_open(s, j), char(text, j) == char(s, j)], z3.Length(s),
            using=[step, quotes, rest, *given])

    summarise_scanner(V, facts)

    def inv(L):
        v = L["idx"]
        if v is None:
            return [("no comment before", none_before(z3.Length(s)))]
        none, at = (v.none, v.value.t) if isinstance(v, Opt) else (z3.BoolVal(False), V.eng.int_term(v))
        box["at"] = at
        return [("no comment before", z3.If(none, none_before(z3.Length(s)), z3.And(
            none_before(at), unquoted(s, at, S("#")))))]

    REG.loops[Y + "._extract_side_comment", 0] = LoopSpec(inv)
    r = V.run(modifier()._extract_side_comment, line)
    V.no_exception(r)
    out = V.eng.str_term(r)
    p = z3.Int("p!sc")
    if z3.is_string_value(z3.simplify(out)) or "at" not in box:
        p0 = z3.Int("p0!sc")
        V.prove("nothing only if there is none", z3.And(out == S(""), z3.Or(
            none_before(z3.Length(s)), unquoted(s, z3.IntVal(0), S("#")))))
        V.cover("nothing")
        return
    at = box["at"]
    text = f_strip(z3.SubString(s, at + 1, z3.Length(s)))
    V.prove("the first comment", z3.And(opens(at), none_before(at)))
    V.prove("the text after it, ended with a full stop", out == z3.If(z3.Or(text == S(""), z3.SuffixOf(
        S("."), text)), text, z3.Concat(text, S("."))))
    V.cover("a comment")
