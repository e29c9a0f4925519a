"""C03, C09, C11, C12, C16, C20: entry points, docstrings in validation, functions without hints, hashes of DataFrames."""
import ast

from contracts.world import FA, S, World, cls, module
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, NodeK, Raised, SBool, SInt, SStr, Str, SVal, Val, ranged, z3
from pyvc.interp import REG, LoopSpec, as_term
from pyvc.verify import contract

LIVE, ABC = "LazyTypeHintLive", "LazyTypeHintABC"


def live():
    return cls("generators.lazy_type_hint_live." + LIVE)


def plain():
    return cls("generators.lazy_type_hint.LazyTypeHint")


def val(i, o):
    return i.eng.pack(VAL, o)[0]


@contract("C12", f"{LIVE}._is_docstring", obligations=("raises nothing", "an expression that is a text constant"))
def _(V):
    statement = V.any("statement")
    f_value, f_constant = z3.Function("value_of", Val, Val), z3.Function("constant_of", Val, Val)
    inner = f_value(statement.t)
    REG.fields["object", "value"] = lambda i, o: SVal(f_value(val(i, o)))
    r = V.run(live()._is_docstring, statement)
    V.no_exception(r)
    kind = lambda t, c: as_term(V.i.truth_term(V.call(isinstance, SVal(t), c)))
    V.prove("an expression that is a text constant", V.eng.bool_term(r) == z3.And(
        kind(statement.t, ast.Expr), kind(inner, ast.Constant), kind(f_value(inner), str)))
    V.cover()


@contract("C12", f"{LIVE}._remove_docstrings", obligations=(
    "raises nothing", "the parts of the text", "statements that are no docstring stay, in order", "of every class and the module",
    "the text of what is left"))
def _(V):
    text, tree, left = V.str("text"), V.any("tree"), V.str("left")
    nodes = V.list(VAL, "nodes")
    v = V.eng.view(nodes)
    f_size, f_at = z3.Function("statements", Val, Int), z3.Function("statement", Val, Int, Val)
    f_doc = z3.Function("is_docstring", Val, core.Bool)
    what = "the parts of the text"
    REG.summaries["ast", "parse"] = lambda i, args, kw: (V.prove(what, i.eng.str_term(args[0]) == text.t), tree)[1]
    REG.summaries["ast", "walk"] = lambda i, args, kw: (V.prove(what, val(i, args[0]) == tree.t), nodes)[1]
    log = []
    REG.summaries["ast", "unparse"] = lambda i, args, kw: (log.append(val(i, args[0])), left)[1]
    REG.summaries[LIVE, "_is_docstring"] = lambda i, args, kw: SBool(f_doc(val(i, args[-1])))
    done = V.eng.set_cell(kind=VAL, dom=z3.K(Val, z3.BoolVal(False)))
    V.obj(live(), done=done)

    def body(i, o):
        t = val(i, o)
        i.eng.assume(f_size(t) >= 0)
        return i.eng.list_cell(view=core.SeqView(f_size(t), lambda k: SVal(f_at(t, k)), kind=VAL))

    j, k = z3.Ints("j!rd k!rd")
    keeps = "statements that are no docstring stay, in order"

    def change(i, o, value):
        t, out = val(i, o), i.eng.view(value)
        n = f_size(t)
        if out.source is None:
            V.prove(keeps, z3.BoolVal(False))
            return
        _, at, pos, _ = out.source
        V.prove(keeps, z3.ForAll([j], z3.Implies(ranged(j, out.n), z3.And(ranged(at[j], n), z3.Not(f_doc(f_at(t, at[
            j]))), val(i, out.get(j)) == f_at(t, at[j])))))
        V.prove(keeps, z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < out.n), at[j] < at[k])))
        V.prove(keeps, z3.ForAll([k], z3.Implies(z3.And(ranged(k, n), z3.Not(f_doc(f_at(t, k)))), z3.And(ranged(
            pos[k], out.n), at[pos[k]] == k))))
        i.set_add(done, SVal(t))

    REG.fields["object", "body"] = body
    REG.setters["object", "body"] = change
    kind = lambda t: as_term(V.i.truth_term(V.call(isinstance, SVal(t), (ast.Module, ast.ClassDef))))
    has = lambda t: z3.Select(V.eng.set_array(done, VAL), t)
    each = lambda n: z3.ForAll([j], z3.Implies(z3.And(ranged(j, n), kind(v.get(j).t)), has(v.get(j).t)))
    REG.loops[LIVE + "._remove_docstrings", 0] = LoopSpec(lambda L: [("of every class and the module", each(L.i))])
    r = V.run(live()._remove_docstrings, text)
    V.no_exception(r)
    V.prove("of every class and the module", each(v.n))
    V.prove("the text of what is left", z3.And(z3.BoolVal(r is left and len(log) == 1), log[0] == tree.t))
    V.cover()


@contract("C15", "docstring_formatter._escape", obligations=("raises nothing", "backslashes first, then quotes and null"))
def _(V):
    from pyvc.models import f_replace
    f = module("utils.docstring_formatter")._escape
    text = V.str("text")
    r = V.run(f, text)
    V.no_exception(r)
    t = text.t
    for a, b in (("\\", "\\\\"), ('"""', '\\"\\"\\"'), ("\0", "\\x00")):
        t = f_replace(t, S(a), S(b))
    V.prove("backslashes first, then quotes and null", V.eng.str_term(r) == t)
    V.cover()


@contract("C16 C03", "FunctionDataTypeTree._can_be_evaluated", obligations=(
    "raises nothing", "the names of the signature", "exactly if all of them are known"))
def _(V):
    W = World(V)
    c = cls("data_type_tree.simple_data_type_tree.function_data_type_tree.FunctionDataTypeTree")
    args, tree, nodes = V.str("args"), V.any("tree"), V.list(VAL, "nodes")
    v = V.eng.view(nodes)
    f_id, f_builtin, f_given = z3.Function("id_of", Val, Str), z3.Function("is_builtin", Str, core.Bool), z3.Function(
        "is_imported", Str, core.Bool)
    what = "the names of the signature"
    REG.summaries["ast", "parse"] = lambda i, a, kw: (V.prove(what, z3.And(z3.PrefixOf(S("def _"), i.eng.str_term(
        a[0])), i.eng.str_term(a[0]) == z3.Concat(S("def _"), args.t, S(": ...")))), tree)[1]
    REG.summaries["ast", "walk"] = lambda i, a, kw: (V.prove(what, val(i, a[0]) == tree.t), nodes)[1]
    REG.fields["object", "id"] = lambda i, o: SStr(f_id(val(i, o)))
    import builtins

    def known(i, a, kw):
        if a[0] is not builtins:
            raise core.Unsupported("attribute of something else")
        return SBool(f_builtin(i.eng.str_term(a[1])))

    REG.models[id(hasattr)] = (hasattr, known)
    REG.summaries["ImportManager", "provides"] = lambda i, a, kw: SBool(f_given(i.eng.str_term(a[1])))
    r = V.run(c._can_be_evaluated, W.self_of(c, None), args)
    V.no_exception(r)
    j = z3.Int("j!ce")
    is_name = lambda t: as_term(V.i.truth_term(V.call(isinstance, SVal(t), ast.Name)))
    V.prove("exactly if all of them are known", V.eng.bool_term(r) == z3.ForAll([j], z3.Implies(z3.And(ranged(
        j, v.n), is_name(v.get(j).t)), z3.Or(f_builtin(f_id(v.get(j).t)), f_given(f_id(v.get(j).t))))))
    V.cover()


@contract("C16", "FunctionDataTypeTree._has_return", covers=("source", "no source"), obligations=(
    "raises nothing", "unknown exactly without source", "whether its source returns something"))
def _(V):
    import inspect
    import textwrap
    W = World(V)
    c = cls("data_type_tree.simple_data_type_tree.function_data_type_tree.FunctionDataTypeTree")
    data, source, dedented, tree, nodes = V.any("function"), V.str("source"), V.str("dedented"), V.any("tree"), V.list(VAL, "nodes")
    there = V.bool("source is there")
    v = V.eng.view(nodes)

    def get(i, a, kw):
        V.prove("whether its source returns something", val(i, a[0]) == data.t)
        if i.eng.branch(there.t):
            return source
        raise Raised(OSError, ())

    what = "whether its source returns something"
    REG.summaries["inspect", "getsource"] = get
    REG.summaries["textwrap", "dedent"] = lambda i, a, kw: (V.prove(what, i.eng.str_term(a[0]) == source.t), dedented)[1]
    REG.summaries["ast", "parse"] = lambda i, a, kw: (V.prove(what, i.eng.str_term(a[0]) == dedented.t), tree)[1]
    REG.summaries["ast", "walk"] = lambda i, a, kw: (V.prove(what, val(i, a[0]) == tree.t), nodes)[1]
    node = W.self_of(c, None)
    node.attrs["data"] = data
    r = V.run(c._has_return, node)
    V.no_exception(r)
    if r is None:
        V.prove("unknown exactly without source", z3.Not(there.t))
        V.cover("no source")
        return
    V.prove("unknown exactly without source", there.t)
    j = z3.Int("j!hr")
    V.prove(what, V.eng.bool_term(r) == z3.Exists([j], z3.And(ranged(j, v.n), as_term(V.i.truth_term(V.call(
        isinstance, v.get(j), ast.Return))))))
    V.cover("source")


def entry(kind):
    @contract("C09 C10" if kind is live else "C09", f"{'LazyTypeHintLive' if kind is live else 'LazyTypeHint'}.__init__", obligations=(
        "raises nothing", "the strategies that were given"))
    def _(V):
        c, strategies, mode, source = kind(), V.any("strategies"), V.str("mode"), V.any("source")
        REG.summaries[LIVE, "_load_this_file_pyi"] = lambda i, a, kw: source
        self = V.obj(c)
        r = V.run(c.__init__, self, strategies, **({"if_type_hint_exists": mode} if kind is live else {}))
        V.no_exception(r)
        V.prove("the strategies that were given", z3.BoolVal(self.attrs.get("strategies") is strategies and (
            kind is plain or (self.attrs.get("if_type_hint_exists") is mode and self.attrs.get("this_file_pyi") is source))))
        V.cover()


entry(plain)
entry(live)


@contract("C09 C18", "LazyTypeHint.from_data", covers=("hints", "rejected"), obligations=(
    "the tree of that data under that name", "an error of the parent's passes through"))
def _(V):
    c = plain()
    data, name, tree, good, log = V.any("data"), V.str("class_name"), V.any("tree"), V.bool("accepted"), []

    def build(i, a, kw):
        import inspect
        b = inspect.signature(c.__mro__[1].from_data).bind(*a, **kw).arguments
        log.append((b["data"], b["class_name"]))
        if i.eng.branch(good.t):
            return tree
        raise Raised(ValueError, ())

    REG.summaries[ABC, "from_data"] = build
    r = V.run(c.from_data, V.obj(c, strategies=V.any("s")), data, class_name=name)
    V.prove("the tree of that data under that name", z3.BoolVal(log == [(data, name)]))
    if isinstance(r, Raised):
        V.prove("an error of the parent's passes through", z3.Not(good.t))
        V.cover("rejected")
        return
    V.prove("the tree of that data under that name", z3.BoolVal(r.attrs["_tree"] is tree))
    V.cover("hints")


@contract("C13 C10", "LazyTypeHint.from_yaml_file", obligations=(
    "raises nothing", "the documented data of that file", "its hints under that name"))
def _(V):
    c = plain()
    loader, path, name, places = V.any("loader"), V.any("path"), V.str("class_name"), V.any("comments_are")
    data, documented, hints, log = V.any("data"), V.any("documented"), V.any("hints"), []

    def load(i, a, kw):
        import inspect
        b = inspect.signature(c._load_yaml_file).bind(*a, **kw).arguments
        log.append((b["loader"], b["path"], b["comments_are"]))
        return data, documented

    def build(i, a, kw):
        import inspect
        b = inspect.signature(c.from_data).bind(*a, **kw).arguments
        log.append((b["data"], b["class_name"]))
        return hints

    REG.summaries[ABC, "_load_yaml_file"] = load
    REG.summaries["LazyTypeHint", "from_data"] = build
    r = V.run(c.from_yaml_file, V.obj(c, strategies=V.any("s")), loader, path, class_name=name, comments_are=places)
    V.no_exception(r)
    V.prove("the documented data of that file", z3.BoolVal(len(log) == 2 and log[0] == (loader, path, places) and log[1][
        0] is documented))
    V.prove("its hints under that name", z3.BoolVal(r is hints and log[-1][1] is name))
    V.cover()


@contract("C11", f"{LIVE}._generate_this_file_pyi", obligations=("raises nothing", "of its own source", "without what is private"))
def _(V):
    from pathlib import Path
    c = live()
    text, log, made, P = V.str("source"), [], [], "PyFileModifier"
    REG.summaries["Path", "read_text"] = REG.summaries["PosixPath", "read_text"] = lambda i, a, kw: (log.append("read"), text)[1]

    def new(i, a, kw):
        made.append(V.obj(cls("file_modifiers.py_file_modifier." + P), text=a[1]))
        return made[-1]

    REG.summaries[P, "__new__"] = new
    for name in ("remove_all_method_bodies", "remove_all_private_methods", "remove_all_instance_variables"):
        REG.summaries[P, name] = lambda i, a, kw, name=name: log.append((name, *(kw.values()), *a[1:]))
    r = V.run(c._generate_this_file_pyi, V.obj(c))
    V.no_exception(r)
    V.prove("of its own source", z3.BoolVal(len(made) == 1 and r is made[0] and made[0].attrs["text"] is text))
    V.prove("without what is private", z3.BoolVal(("remove_all_method_bodies",) in log and (
        "remove_all_private_methods",) in log and ("remove_all_instance_variables", LIVE) in log))
    V.cover()


@contract("C08 C20", "permission to be defined: frame", covers=("columns", "none"), obligations=("raises nothing", "as documented"))
def _(V):
    from contracts.world import node_class, tree_class
    W = World(V)
    node = W.self_of("frame", children=V.dict(VAL, NodeK(tree_class()), "columns"))
    parent = V.fresh(core.OptK(NodeK(tree_class())), "parent")
    node.attrs["parent"] = parent
    r = V.run(node.cls.permission_to_be_created_as_type_alias, node)
    V.no_exception(r)
    some = V.eng.view(V.call(list, node.attrs["children"])).n > 0
    rule = z3.Or(parent.none, node.attrs["height"].t > W.strategies.attrs["min_height_to_define_type_alias"].t, some)
    V.prove("as documented", as_term(V.i.truth_term(r)) == rule)
    V.cover("columns" if V.branch(some) else "none")


@contract("C04 C20", "hash of a DataFrame", obligations=(
    "raises nothing", "equal only if the columns and their hints are", "equal if the columns and their hints are"),
    prove_ms=20000)
def _(V):
    from contracts.f_hashes import f_text, induction_hypothesis, use_child_hashes
    from contracts.world import node_class, tree_class
    W = World(V)
    use_child_hashes()
    views, hashes = [], []
    for n in "ab":
        children = V.dict(VAL, NodeK(tree_class()), "columns_" + n)
        node = W.self_of("frame", children=children)
        views.append(V.eng.view(V.call(list, V.i.call_method(children, "items", (), {}))))
        r = V.run(node.cls._get_hash, node)
        V.no_exception(r)
        hashes.append(r)
    eq = as_term(V.i.equal(*hashes))
    induction_hypothesis(V)
    a, b = views
    j = z3.Int("j!hd")
    column = lambda v, j: core.f_repr(V.eng.to_val(v.get(j)[0]))
    hint = lambda v, j: f_text(V.eng.to_val(v.get(j)[1]))
    agree = z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(ranged(j, a.n), z3.And(column(a, j) == column(b, j), hint(a, j) == hint(
        b, j)))))
    V.prove("equal only if the columns and their hints are", z3.Implies(eq, agree))
    V.prove("equal if the columns and their hints are", z3.Implies(agree, eq))
    V.cover()


@contract("C11", "PyFileModifier.remove_all_method_bodies", obligations=(
    "raises nothing", "the parts of its own text", "every function, and nothing else", "the lines of what is left"))
def _(V):
    from contracts.i_source import P, modifier
    text, tree, left, lines = V.str("text"), V.any("tree"), V.str("left"), V.list(STR, "lines left")
    nodes = V.list(VAL, "nodes")
    v = V.eng.view(nodes)
    what, log = "the parts of its own text", []
    REG.summaries[P, "__str__"] = lambda i, a, kw: text
    REG.summaries["ast", "parse"] = lambda i, a, kw: (V.prove(what, i.eng.str_term(a[0]) == text.t), tree)[1]
    REG.summaries["ast", "walk"] = lambda i, a, kw: (V.prove(what, val(i, a[0]) == tree.t), nodes)[1]
    REG.summaries["ast", "unparse"] = lambda i, a, kw: (log.append(val(i, a[0])), left)[1]
    REG.summaries["ast", "Ellipsis"] = lambda i, a, kw: SVal(z3.Const("ellipsis", Val))
    REG.methods["str", "splitlines"] = lambda i, v, a, kw: lines
    REG.methods["str", "strip"] = lambda i, v, a, kw: v
    done = V.eng.set_cell(kind=VAL, dom=z3.K(Val, z3.BoolVal(False)))
    function = lambda t: as_term(V.i.truth_term(V.call(isinstance, SVal(t), ast.FunctionDef)))
    REG.setters["object", "body"] = lambda i, o, value: (V.prove("every function, and nothing else", z3.And(function(val(
        i, o)), i.eng.view(value).n == 1)), i.set_add(done, o))[1]
    j = z3.Int("j!mb")
    has = lambda t: z3.Select(V.eng.set_array(done, VAL), t)
    each = lambda n: z3.ForAll([j], z3.Implies(z3.And(ranged(j, n), function(v.get(j).t)), has(v.get(j).t)))
    REG.loops[P + ".remove_all_method_bodies", 0] = LoopSpec(lambda L: [("every function", each(L.i))])
    self = V.obj(modifier(), lines=V.list(STR, "lines"))
    r = V.run(modifier().remove_all_method_bodies, self)
    V.no_exception(r)
    V.prove("every function, and nothing else", each(v.n))
    V.prove("the lines of what is left", z3.And(z3.BoolVal(self.attrs["lines"] is lines and len(log) == 1), log[0] == tree.t))
    V.cover()
