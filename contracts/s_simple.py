"""C16: which kind of node a value gets, and what functions look like."""
from contracts.d_trees import find, function_class
from contracts.world import FA, S, World, tree_class
from pyvc import core
from pyvc.core import BOOL, INT, STR, VAL, Int, OptK, NodeK, SBool, SInt, SStr, Str, SVal, Val, f_type, ranged, z3
from pyvc.interp import REG, LoopSpec, SummaryOf
from pyvc.verify import contract

f_sub = z3.Function("subclass", Val, Val, core.Bool)


@contract("C16", "DataTypeTree.get_subclass", covers=("own class", "base class", "neither"), obligations=(
    "raises nothing", "the kind of its own class first", "else that of the most specific class it is an instance of",
    "else that of custom instances"))
def _(V):
    D = tree_class()
    kinds = V.dict(VAL, VAL, "kinds")
    st = kinds.state
    REG.fields["type:DataTypeTree", "subclasses"] = lambda i, v: kinds
    data = V.any("data")
    own = f_type(data.t)
    default = V.eng.const(int)
    V.assume(z3.Select(st.dom, default))
    inst = lambda t: core.f_inst(data.t, t)
    candidate = lambda t: z3.And(z3.Select(st.dom, t), inst(t))
    t, u = z3.Const("t!gs", Val), z3.Const("u!gs", Val)
    most = lambda t: z3.And(candidate(t), z3.ForAll([u], z3.Implies(candidate(u), f_sub(t, u))))
    box = {}

    def inv(L):
        v = V.eng.view(L["candidates"])
        k, j = z3.Int("k!gs"), z3.Int("j!gs")
        box["last"] = v.get(L.i).t
        return [("none of those so far is the most specific one", FA([k], z3.Implies(ranged(k, L.i), z3.Not(
            z3.ForAll([j], z3.Implies(ranged(j, v.n), f_sub(v.get(k).t, v.get(j).t))))), v.get(k).t))]

    REG.loops["DataTypeTree.get_subclass", 0] = LoopSpec(inv)
    r = V.call(V.i.getattr(D, "get_subclass"), data)
    V.no_exception(r)
    kind = lambda t: z3.Select(st.cols[0], t)
    if V.branch(z3.Select(st.dom, own)):
        V.prove("the kind of its own class first", r.t == kind(own))
        V.cover("own class")
        return
    w = box["last"]
    V.prove("else that of the most specific class it is an instance of", z3.Or(z3.And(most(w), r.t == kind(w)), z3.ForAll(
        [t], z3.Not(most(t)))))
    V.prove("else that of custom instances", z3.Implies(z3.Not(z3.Exists([t], candidate(t))), r.t == kind(default)))
    V.prove("always that of a class it is an instance of", z3.Implies(z3.Exists([t], candidate(t)), z3.Exists([t], z3.And(
        candidate(t), r.t == kind(t)))))
    V.cover("base class" if V.branch(z3.Exists([t], candidate(t))) else "neither")


FN = "FunctionDataTypeTree"


class Signature:
    def replace(self, *, parameters):
        ...


class Parameter:
    def replace(self, *, default):
        ...


def function_node(V, W, **attrs):
    return W.self_of(function_class(), None, parent=V.fresh(OptK(NodeK(tree_class())), "parent"), **attrs)


def maybe_raises(V, error, value):
    """A function of the standard library that may raise."""
    fails = V.bool("fails")

    def summary(i, args, kw):
        if V.branch(fails.t):
            raise core.Raised(error, ("no",))
        return value(args)

    return fails, summary


@contract("C16", f"{FN}.can_be_inspected", covers=("yes", "no"), obligations=(
    "raises nothing", "exactly with a signature, and never what is built in"))
def _(V):
    from types import BuiltinFunctionType
    W = World(V)
    node = function_node(V, W, data=V.any("data"))
    which = ValueError if V.branch(V.bool("which").t) else TypeError
    fails, REG.summaries["inspect", "signature"] = maybe_raises(V, which, lambda args: V.any("signature"))
    r = V.run(node.cls.can_be_inspected, node)
    V.no_exception(r)
    builtin = core.f_inst(node.attrs["data"].t, V.eng.const(BuiltinFunctionType))
    V.prove("exactly with a signature, and never what is built in", V.eng.bool_term(r) == z3.And(
        z3.Not(builtin), z3.Not(fails.t)))
    V.cover("yes" if V.branch(V.eng.bool_term(r)) else "no")


@contract("C16 C03", f"{FN}._get_str_top_node", covers=("plain", "lambda", "protocol"), obligations=(
    "raises nothing", "a plain Callable exactly if it cannot be inspected", "parameters of lambdas, signatures of others"))
def _(V):
    W = World(V)
    node = function_node(V, W)
    known, is_lambda = V.bool("known"), V.bool("lambda")
    lam, pro = V.str("lambda text"), V.str("protocol text")
    REG.summaries[FN, "can_be_inspected"] = lambda i, args, kw: known
    REG.summaries[FN, "is_lambda"] = lambda i, args, kw: is_lambda
    REG.summaries[FN, "_get_lambda_str"] = lambda i, args, kw: lam
    REG.summaries[FN, "_get_protocol_str"] = lambda i, args, kw: pro
    r = V.run(node.cls._get_str_top_node, node)
    V.no_exception(r)
    r = V.eng.str_term(r)
    if V.branch(z3.Not(known.t)):
        V.prove("a plain Callable exactly if it cannot be inspected", z3.And(W.has("Callable"), W.has(
            "TypeAlias"), W.imports_grow(), r == z3.Concat(node.attrs["name"].t, S(": TypeAlias = Callable"))))
        V.cover("plain")
    else:
        V.prove("parameters of lambdas, signatures of others", r == z3.If(is_lambda.t, lam.t, pro.t))
        V.cover("lambda" if V.branch(is_lambda.t) else "protocol")


@contract("C16 C03", f"{FN}._get_lambda_str", covers=("reached",), obligations=(
    "raises nothing", "an Any per parameter", "imports what it uses"))
def _(V):
    W = World(V)
    node = function_node(V, W)
    parameters = V.dict(STR, VAL, "parameters")
    REG.summaries[FN, "can_be_inspected"] = lambda i, args, kw: True
    REG.summaries[FN, "get_func_params"] = lambda i, args, kw: parameters
    r = V.run(node.cls._get_lambda_str, node)
    V.no_exception(r)
    anys = V.eng.view(V.tuple(STR, "anys"))
    j = z3.Int("j!la")
    V.assume(z3.And(anys.n == parameters.state.n, z3.ForAll([j], V.eng.str_term(anys.get(j)) == S("Any"))))
    text = V.i.call_method(", ", "join", (anys,), {})
    V.prove("an Any per parameter", V.eng.str_term(r) == z3.Concat(node.attrs["name"].t, S(": TypeAlias = Callable[["), V.eng.str_term(
        text), S("], Any]")))
    V.prove("imports what it uses", z3.And(*(W.has(x) for x in ("Callable", "Any", "TypeAlias")), W.imports_grow()))
    V.cover()


@contract("C16 C03", f"{FN}._get_protocol_str", covers=("evaluated", "not evaluated"), obligations=(
    "raises nothing", "the signature of the function", "imports what it uses"))
def _(V):
    W = World(V)
    node = function_node(V, W)
    args_text = V.str("signature")
    signature = V.any("signature object")
    evaluated, ret = V.bool("can be evaluated"), V.str("inferred")
    asked = []
    REG.summaries[FN, "_get_signature"] = lambda i, args, kw: signature
    REG.summaries["object", "__str__"] = lambda i, args, kw: args_text
    REG.summaries["ImportManager", "import_all_unkown_symbols_from_signature"] = lambda i, args, kw: asked.append(args[1])
    REG.summaries[FN, "_can_be_evaluated"] = lambda i, args, kw: evaluated
    REG.summaries[FN, "_get_inferred_return"] = lambda i, args, kw: ret
    V.assume(z3.Const("str!", Str) == args_text.t)
    r = V.run(node.cls._get_protocol_str, node)
    V.no_exception(r)
    shown = V.eng.str_term(V.i.call(str, (signature,)))
    V.prove("the signature of the function", V.eng.str_term(r) == z3.Concat(
        S("class "), node.attrs["name"].t, S("(Protocol):\n    def __call__"), shown, ret.t, S(": ...")))
    V.prove("imports what it uses", z3.And(
        W.has("Protocol"), z3.Implies(z3.Not(evaluated.t), W.has("annotations")), z3.Implies(z3.Contains(
            ret.t, S("Any")), W.has("Any")), W.imports_grow(), z3.And(*(V.eng.str_term(a) == shown for a in asked)),
        z3.BoolVal(len(asked) == 1)))
    V.cover("evaluated" if V.branch(evaluated.t) else "not evaluated")


@contract("C16", f"{FN}._get_inferred_return", covers=("annotated", "nothing", "unknown"), obligations=(
    "raises nothing", "nothing if the function says it", "None only if it never returns a value"))
def _(V):
    from inspect import Signature as Real
    W = World(V)
    node = function_node(V, W)
    annotation = V.any("annotation")
    REG.summaries[FN, "_get_signature"] = lambda i, args, kw: V.obj(Signature, return_annotation=annotation)
    has = V.fresh(OptK(BOOL), "has return")
    REG.summaries[FN, "_has_return"] = lambda i, args, kw: has
    r = V.run(node.cls._get_inferred_return, node)
    V.no_exception(r)
    r = V.eng.str_term(r)
    said = annotation.t != V.eng.const(Real.empty)
    never = z3.And(z3.Not(has.none), z3.Not(has.value.t))
    V.prove("nothing if the function says it", (r == S("")) == said)
    V.prove("None only if it never returns a value", z3.Implies(z3.Not(said), r == z3.If(never, S(" -> None"), S(" -> Any"))))
    V.cover("annotated" if V.branch(said) else "nothing" if V.branch(never) else "unknown")


f_default, f_unset = z3.Function("default_of", Val, Val), z3.Function("with_ellipsis_as_default", Val, Val)
f_literal = z3.Function("can_be_written", Val, core.Bool)


@contract("C16 C03", f"{FN}._get_signature", obligations=(
    "raises nothing", "nothing but the default changes", "of the function", "every parameter in order", "a default that cannot be written is an ellipsis"))
def _(V):
    W = World(V)
    node = function_node(V, W, data=V.any("data"))
    parameters = V.dict(STR, VAL, "parameters")
    st = parameters.state
    replaced = []
    signature = V.obj(Signature, parameters=parameters)
    asked = []
    REG.summaries["inspect", "signature"] = lambda i, args, kw: (asked.append(args), signature)[1]
    REG.summaries["Signature", "replace"] = lambda i, args, kw: (replaced.append(kw), V.any("replaced"))[1]
    REG.fields["object", "default"] = lambda i, v: SVal(f_default(v.t))

    def replace(i, args, kw):
        V.prove("nothing but the default changes", kw == {"default": ...} and len(args) == 1)
        return SVal(f_unset(i.eng.to_val(args[0])))

    REG.fields["object", "replace"] = lambda i, v: SummaryOf(replace, v)
    REG.summaries["function_data_type_tree", "_is_literal"] = lambda i, args, kw: SBool(f_literal(i.eng.to_val(args[0])))
    r = V.run(node.cls._get_signature, node)
    V.no_exception(r)
    given = V.eng.view(replaced[0]["parameters"])
    p = lambda j: z3.Select(st.cols[0], z3.Select(st.keyat[0], j))
    j = z3.Int("j!sg")
    V.prove("every parameter in order", z3.And(z3.BoolVal(set(replaced[0]) == {"parameters"}), given.n == st.n))
    V.prove("a default that cannot be written is an ellipsis", z3.ForAll([j], z3.Implies(ranged(j, st.n), V.eng.to_val(
        given.get(j)) == z3.If(f_literal(f_default(p(j))), p(j), f_unset(p(j))))))
    V.prove("of the function", len(asked) == 1 and asked[0][0] is node.attrs["data"])
    V.cover()


@contract("C16 C03", "_is_literal", covers=("no default", "yes", "no"), obligations=(
    "raises nothing", "exactly if it can be read back from its text"))
def _(V):
    from inspect import Parameter as Real
    from contracts.world import module
    m = module("data_type_tree.simple_data_type_tree.function_data_type_tree")
    x = V.any("default")
    fails, REG.summaries["ast", "literal_eval"] = maybe_raises(V, ValueError, lambda args: V.any("value"))
    r = V.run(m._is_literal, x)
    V.no_exception(r)
    none = x.t == V.eng.const(Real.empty)
    V.prove("exactly if it can be read back from its text", V.eng.bool_term(r) == z3.Or(none, z3.Not(fails.t)))
    V.cover("no default" if V.branch(none) else "no" if V.branch(fails.t) else "yes")


@contract("C16 C04", f"{FN}._get_hash", covers=("lambda", "function", "plain"), obligations=(
    "raises nothing", "tells what the text of the hint tells"))
def _(V):
    W = World(V)
    node = function_node(V, W)
    known, is_lambda = V.bool("known"), V.bool("lambda")
    signature, ret = V.any("signature object"), V.str("inferred")
    parameters = V.dict(STR, VAL, "parameters")
    REG.summaries[FN, "can_be_inspected"] = lambda i, args, kw: known
    REG.summaries[FN, "is_lambda"] = lambda i, args, kw: is_lambda
    REG.summaries[FN, "get_func_params"] = lambda i, args, kw: parameters
    REG.summaries[FN, "_get_signature"] = lambda i, args, kw: signature
    REG.summaries[FN, "_get_inferred_return"] = lambda i, args, kw: ret
    r = V.run(node.cls._get_hash, node)
    V.no_exception(r)
    r = V.eng.str_term(r)
    what = "tells what the text of the hint tells"
    if V.branch(z3.Not(known.t)):
        V.prove(what, r == S("Callable"))
        V.cover("plain")
    elif V.branch(is_lambda.t):
        V.cover("lambda")
        V.prove(what, z3.PrefixOf(S("Callable[["), r))
    else:
        V.prove(what, r == z3.Concat(V.eng.str_term(V.i.call(str, (signature,))), ret.t))
        V.cover("function")
