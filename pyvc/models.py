"""What is known about built-in functions and the methods of built-in types. All of it is part of the trusted base."""
import builtins
import dataclasses
import itertools
import typing
from collections import defaultdict
from types import MappingProxyType

from pyvc import core, interp
from pyvc.core import (
    BOOL, EMPTY, INT, STR, VAL, Bool, Cell, ConstK, DictCell, Inst, Int, ListCell, NodeK, Opt, OptK, Raised, SBool,
    SeqView, SetCell, SetK, SInt, SStr, Str, SVal, Sym, TupK, Unsupported, VNone, VStr, Val, join_kinds, ranged, z3,
)
from pyvc.interp import MISSING, REG, DictView, StarArgs, as_term, conj, contains_sym, disj

f_upper = z3.Function("str.upper", Str, Str)
f_capital = z3.Function("str.capitalize", Str, Str)
f_lower = z3.Function("str.lower", Str, Str)
f_strip = z3.Function("str.strip", Str, Str)
f_lstrip = z3.Function("str.lstrip", Str, Str)
f_rstrip = z3.Function("str.rstrip", Str, Str)
f_isident = z3.Function("str.isidentifier", Str, Bool)
f_isalnum = z3.Function("str.isalnum", Str, Bool)
f_isspace = z3.Function("str.isspace", Str, Bool)
f_replace = z3.Function("str.replace", Str, Str, Str, Str)
f_join = z3.Function("str.join", Str, Int, z3.ArraySort(Int, Str), Str)
f_splitn = z3.Function("str.split.n", Str, Str, Int)
f_wordn = z3.Function("str.words.n", Str, Int)
f_wordat = z3.Function("str.words.at", Str, z3.ArraySort(Int, Str))
f_splitat = z3.Function("str.split.at", Str, Str, z3.ArraySort(Int, Str))


def plain_const(i, x):
    return not contains_sym(x)


# ------------------------------------------------------------------------------------------------ types
def isinstance_term(i, v, cls):
    """Condition or bool."""
    eng = i.eng
    v = i.force(v)
    if isinstance(cls, tuple):
        return disj([isinstance_term(i, v, c) for c in cls])
    if isinstance(cls, SVal):
        real = eng.concrete_of(cls.t)
        if real is not None:
            return isinstance_term(i, v, real)
        return core.f_inst(eng.to_val(v), cls.t)
    known = {SStr: str, SInt: int, SBool: bool, ListCell: list, DictCell: dict}.get(type(v))
    if isinstance(v, SetCell):
        known = frozenset if v.frozen else set
    if isinstance(v, SeqView):
        known = tuple if v.sort == "tuple" else list if v.sort == "list" else type(iter([]))
    if isinstance(v, (Inst, interp.ExcVal)):
        known = v.cls
    if known is not None:
        return issubclass(known, cls)
    if isinstance(v, SVal):
        if v.cls is not None and issubclass(v.cls, cls):
            return True
        if v.cls is not None and interp.is_ours(v.cls) and isinstance(cls, type) and not any(
                issubclass(c, cls) for c in (v.cls, *interp.descendants(v.cls))):
            return False
        t = v.t
        if v.cls is None:
            simple = {str: core.is_str(t), bool: core.is_bool(t), type(None): core.is_none(t),
                      int: z3.Or(core.is_int(t), core.is_bool(t))}.get(cls)
            if simple is not None:
                return simple
        return core.f_inst(t, eng.const(cls))
    return isinstance(v, cls)


@REG.model(isinstance)
def m_isinstance(i, args, kw):
    r = isinstance_term(i, *args)
    return r if isinstance(r, bool) else SBool(r)


def type_value(i, v):
    v = i.force(v)
    known = {SStr: str, SInt: int, SBool: bool, ListCell: list, DictCell: dict}.get(type(v))
    if known:
        return known
    if isinstance(v, SetCell):
        return frozenset if v.frozen else set
    if isinstance(v, SeqView):
        return {"tuple": tuple, "list": list}.get(v.sort, type(iter([])))
    if isinstance(v, (Inst, interp.ExcVal)):
        return v.cls
    if isinstance(v, SVal):
        return SVal(core.f_type(v.t), type)
    return type(v)


@REG.model(type)
def m_type(i, args, kw):
    if len(args) != 1:
        raise Unsupported("class made at run time")
    return type_value(i, args[0])


REG.fields["type", "__name__"] = lambda i, v: SStr(core.f_tname(v.t))


@REG.model(callable)
def m_callable(i, args, kw):
    return not isinstance(args[0], (Sym, Cell))


# ------------------------------------------------------------------------------------------------ len, str, id, hash
def length(i, v):
    eng = i.eng
    v = i.force(v)
    if isinstance(v, StarArgs):
        v = v.view
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    known = i.concrete_list(v) if not isinstance(v, (SetCell, set, frozenset)) else None
    if known is not None:
        return len(known)
    if isinstance(v, SeqView):
        return SInt(v.n)
    if isinstance(v, ListCell):
        return SInt(v.view.n)
    if isinstance(v, SetCell):
        if v.items is not None and not contains_sym(tuple(v.items)):
            return len(v.items)
        return SInt(i.card(eng.set_array(v, eng.set_kind(v) if eng.set_kind(v) != EMPTY else VAL)))
    if isinstance(v, DictCell):
        return SInt(v.state.n)
    if isinstance(v, DictView):
        return length(i, v.cell)
    if isinstance(v, (Inst, SVal)) and v.cls is not None:
        return i.call(i.getattr(v, "__len__"))
    if isinstance(v, SVal):
        p = i.plain(v)
        if isinstance(p, SStr):
            return length(i, p)
        hook = REG.summaries.get(("object", "__len__"))
        if hook:
            return hook(i, (v,), {})
    raise Unsupported(f"len of {v!r}")


@REG.model(len)
def m_len(i, args, kw):
    if not contains_sym(args[0]):
        return i.real_call(len, args, kw)
    return length(i, args[0])


def int_text(t):
    return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))


@REG.model(str)
def m_str(i, args, kw):
    if not args:
        return ""
    v = i.force(args[0])
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, SInt):
        return SStr(int_text(v.t))
    if isinstance(v, SBool):
        return SStr(z3.If(v.t, z3.StringVal("True"), z3.StringVal("False")))
    if isinstance(v, SVal):
        f = core.f_strint
        if v.cls is None:
            return SStr(z3.If(core.is_str(v.t), Val.s(v.t), f(v.t)))
        return SStr(f(v.t))
    if isinstance(v, Inst) and i.class_attr(v.cls, "__str__") is not object.__str__:
        return i.call(i.getattr(v, "__str__"))
    if isinstance(v, interp.ExcVal) and len(v.args) == 1:
        return m_str(i, (v.args[0],), {})
    if not contains_sym(v):
        return i.real_call(str, (v,), {})
    return SStr(i.eng.new("text", Str))


@REG.model(repr)
def m_repr(i, args, kw):
    v = i.force(args[0])
    if not contains_sym(v):
        return i.real_call(repr, (v,), {})
    if isinstance(v, Inst) and i.class_attr(v.cls, "__repr__") is not object.__repr__:
        return i.call(i.getattr(v, "__repr__"))
    if isinstance(v, SInt):
        return SStr(int_text(v.t))
    return SStr(core.f_repr(i.eng.to_val(v)))


@REG.model(id)
def m_id(i, args, kw):
    t = i.eng.to_val(i.force(args[0]))
    n = core.f_id(t)
    i.eng.assume(core.f_unid(n) == t)
    return SInt(n)


@REG.model(hash)
def m_hash(i, args, kw):
    v = i.force(args[0])
    if isinstance(v, (Inst, SVal)) and v.cls is not None and i.class_attr(v.cls, "__hash__") is not object.__hash__:
        return i.call(i.getattr(v, "__hash__"))
    t = i.eng.to_val(v)
    n = core.f_hash(t)
    i.eng.assumed.add("no two different `_get_hash` values have the same hash()")
    i.eng.assume(core.f_unhash(n) == t)
    return SInt(n)


@REG.model(bool)
def m_bool(i, args, kw):
    r = i.truth_term(args[0]) if args else False
    return r if isinstance(r, bool) else SBool(r)


@REG.model(int)
def m_int(i, args, kw):
    v = i.force(args[0]) if args else 0
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(i.eng.int_term(v))
    if not contains_sym(v):
        return i.real_call(int, args, kw)
    raise Unsupported("int()")


# ------------------------------------------------------------------------------------------------ containers
def as_view(i, v):
    seq = i.iterate(v)
    return i.eng.view(tuple(seq)) if isinstance(seq, list) else seq


@REG.model(list)
def m_list(i, args, kw):
    if not args:
        return i.eng.list_cell([])
    seq = i.iterate(args[0])
    return i.eng.list_cell(seq) if isinstance(seq, list) else i.eng.list_cell(
        view=SeqView(seq.n, seq.get, "list", seq.kind))


@REG.model(tuple)
def m_tuple(i, args, kw):
    if not args:
        return ()
    seq = i.iterate(args[0])
    return tuple(seq) if isinstance(seq, list) else SeqView(seq.n, seq.get, "tuple", seq.kind)


def make_set(i, args, frozen):
    cell = i.eng.set_cell([], frozen=frozen)
    if args:
        src = i.force(args[0])
        if isinstance(src, SetCell) and src.items is None:
            cell.items, cell.kind, cell.dom_ = None, src.kind, src.dom
        elif isinstance(src, SetCell):
            cell.items = list(src.items)
        else:
            set_update(i, cell, src)
    return cell


REG.models[id(set)] = (set, lambda i, args, kw: make_set(i, args, False))
REG.models[id(frozenset)] = (frozenset, lambda i, args, kw: make_set(i, args, True))


def image_set(i, seq, kind):
    """Characteristic array of the elements of a sequence."""
    eng = i.eng
    sort = kind.sorts[0]
    j, x = z3.Int(eng.name("im")), z3.Const(eng.name("xm"), sort)
    if getattr(seq, "interval", None) and sort in (Int, Val):
        (a, b), n = seq.interval, x if sort == Int else Val.i(x)
        return z3.Lambda([x], z3.And(a <= n, n < b, z3.BoolVal(True) if sort == Int else Val.is_VInt(x)))
    if not isinstance(kind, NodeK) and not eng.bound:
        # A function of the sequence
        arr = eng.array_of(seq, kind)
        dom = z3.Function(f"image_{sort}", Int, z3.ArraySort(Int, sort), z3.ArraySort(sort, Bool))(seq.n, arr)
        at = z3.Function(f"source_{sort}", Int, z3.ArraySort(Int, sort), z3.ArraySort(sort, Int))(seq.n, arr)
        if ("image", dom.get_id()) in eng.memo:
            return eng.memo["image", dom.get_id()]
        eng.memo["image", dom.get_id()] = dom
        if has_interpreted(seq.n) or has_interpreted(arr):  # Could not be part of a trigger
            named, place = eng.new("image", dom.sort()), eng.new("source", at.sort())
            eng.assume(z3.And(named == dom, place == at))
            eng.memo["image", dom.get_id()] = named
            dom, at = named, place
        t = z3.Select(arr, j)
        eng.assume(z3.Implies(seq.n <= 0, dom == z3.K(sort, z3.BoolVal(False))))
    else:
        value, _ = eng.evaluate(lambda: SVal(eng.key(kind, seq.get(j))), [j], ranged(j, seq.n))
        if value is None:
            return z3.K(sort, z3.BoolVal(False))
        dom = eng.new("image", z3.ArraySort(sort, Bool))
        at = eng.new("source", z3.ArraySort(sort, Int))
        t = value.t
    eng.assume(z3.ForAll([j], z3.Implies(ranged(j, seq.n), z3.Select(dom, t)), **pattern(t, j)))
    eng.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.And(ranged(at[x], seq.n),
                                                                  z3.substitute(t, (j, at[x])) == x)),
                         patterns=[z3.Select(dom, x)]))
    return dom


def pattern(t, j):
    """Trigger for a term with variable j, if it can be one."""
    ok = core.occurs(j, t) and not z3.is_var(t) and t.num_args() > 0 and z3.is_app(t) and (
        t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_CONSTRUCTOR))
    if not ok:
        return {}
    if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        # The term itself may be nowhere: its parts are enough
        parts = {}
        for c in subterms(t):
            if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and core.occurs(
                    j, c) and not c.eq(j) and not has_interpreted(c):
                parts[c.get_id()] = c
        if parts:
            return {"patterns": list(parts.values())}
    return {"patterns": [t]} if not has_interpreted(t) else {}


def has_interpreted(t):
    for c in [t, *subterms(t)]:
        if z3.is_quantifier(c):
            return True
        if z3.is_app(c) and c.num_args() > 0 and c.decl().kind() not in (
                z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR,
                z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            return True
    return False


def subterms(t):
    out, stack = [], list(t.children())
    while stack:
        c = stack.pop()
        out.append(c)
        stack += c.children()
    return out


def set_update(i, cell, src):
    eng = i.eng
    src = i.force(src)
    if not cell.link:
        i.touch(cell)
    if isinstance(src, (SetCell, set, frozenset)):
        if isinstance(src, SetCell) and src.items is None:
            k = i.set_symbolic(cell, src.kind) if cell.items is not None else cell.kind
            k2 = join_kinds(k, src.kind)
            if k2 != k:
                i.learn(cell, k2)
            x = z3.Const(eng.name("xu"), k2.sorts[0])
            a, b = eng.set_array(cell, k2), eng.set_array(src, k2)
            i.set_dom(cell, z3.Lambda([x], z3.Or(z3.Select(a, x), z3.Select(b, x))), k2)
            return
        for x in (src.items if isinstance(src, SetCell) else src):
            i.set_add(cell, x)
        return
    seq = i.iterate(src)
    if isinstance(seq, list):
        for x in seq:
            i.set_add(cell, x)
        return
    kind = eng.elem_kind(seq)
    if isinstance(kind, (TupK, ConstK, OptK, SetK)):
        kind = VAL
    dom = image_set(i, seq, kind)
    if cell.items == []:
        i.set_dom(cell, dom, kind)
        return
    set_update(i, cell, eng.set_cell(kind=kind, dom=dom))


@REG.model(dict)
def m_dict(i, args, kw):
    cell = i.eng.dict_cell([])
    if args:
        dict_update(i, cell, args[0])
    for k, v in kw.items():
        i.setitem(cell, k, v)
    return cell


@REG.model(MappingProxyType)
def m_proxy(i, args, kw):
    return args[0]


@REG.model(defaultdict)
def m_defaultdict(i, args, kw):
    cell = i.eng.dict_cell([])
    cell.default = args[0] if args else None
    return cell


def dict_update(i, cell, src):
    src = i.force(src)
    if isinstance(src, dict):
        src = i.from_real(src)
    if isinstance(src, DictCell):
        if src.items is not None:
            for k, v in src.items:
                i.setitem(cell, k, v)
            return
        if cell.items == []:
            i.touch(cell)
            cell.state, cell.items = src.state, None
            return
        raise Unsupported("update of a dictionary")
    seq = i.iterate(src)
    if isinstance(seq, list):
        for kv in seq:
            k, v = i.concrete_list(i.force(kv))
            i.setitem(cell, k, v)
        return
    if cell.items == [] and getattr(seq, "of_dict", None):
        cell.state, cell.items = seq.of_dict, None
        return
    if cell.items != []:
        raise Unsupported("dictionary updated with an unknown number of pairs")
    dict_of_pairs(i, cell, seq)


def dict_of_pairs(i, cell, seq):
    """The last value of every key, in the order in which the keys come first."""
    eng = i.eng
    pair = lambda j: i.concrete_list(i.force(seq.get(j)))
    j, j2, x = z3.Int(eng.name("jp")), z3.Int(eng.name("jq")), eng.name("xp")
    k, v = pair(j)
    kk, vk = eng.kind_of(k), eng.kind_of(v)
    if isinstance(kk, (core.TupK, core.ConstK, core.OptK)):
        kk = VAL
    key, packed = eng.key(kk, k), eng.pack(kk, k)
    values = eng.pack(vk, v)
    at = lambda t, n: z3.substitute(t, (j, n if z3.is_expr(n) else z3.IntVal(n)))
    x = z3.Const(x, key.sort())
    a, b = eng.new("a", Int), eng.new("b", Int)
    distinct = eng.check_with(z3.Not(z3.And(0 <= a, a < b, b < seq.n, at(key, a) == at(key, b))), 2000) == z3.unsat
    i.touch(cell)
    st = i.fresh_dict(kk, vk)
    got = lambda n: [z3.Select(c, n) for c in st.keyat]
    if distinct:
        eng.assume(st.n == seq.n)
        body = z3.Implies(ranged(j, seq.n), z3.And(
            *(g == p for g, p in zip(got(j), packed)), z3.Select(st.dom, key), z3.Select(st.pos, key) == j,
            *(z3.Select(c, key) == w for c, w in zip(st.cols, values))))
        for p in (z3.Select(st.keyat[0], j), packed[0]):
            try:
                eng.assume(z3.ForAll([j], body, patterns=[p]))
            except z3.Z3Exception:
                pass
    else:
        first, last = (eng.new(n, z3.ArraySort(key.sort(), Int)) for n in ("first", "last"))
        f, e = z3.Select(first, x), z3.Select(last, x)
        eng.assume(z3.ForAll([x], z3.Implies(z3.Select(st.dom, x), z3.And(
            ranged(f, seq.n), ranged(e, seq.n), f <= e, at(key, f) == x, at(key, e) == x,
            *(z3.Select(c, x) == at(w, e) for c, w in zip(st.cols, values)))), patterns=[z3.Select(st.dom, x)]))
        body = z3.Implies(ranged(j, seq.n), z3.And(z3.Select(st.dom, key), z3.Select(first, key) <= j, z3.Select(
            last, key) >= j))
        try:
            eng.assume(z3.ForAll([j], body, patterns=[packed[0]]))
        except z3.Z3Exception:
            eng.assume(z3.ForAll([j], body))
        eng.assume(st.n <= seq.n)
        k1, k2 = i.key_at(st, j), i.key_at(st, j2)
        eng.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < st.n), z3.Select(first, k1) < z3.Select(
            first, k2)), patterns=[z3.MultiPattern(z3.Select(st.keyat[0], j), z3.Select(st.keyat[0], j2))]))
    cell.state, cell.items = st, None


# ------------------------------------------------------------------------------------------------ sorted
def bases(dom, x):
    out = []
    while z3.is_store(dom):
        dom = dom.arg(0)
        out.append(z3.Select(dom, x))
    return [t for t in out if not z3.is_quantifier(t.arg(0)) and not z3.is_K(t.arg(0))]


def sorted_view(i, dom, kind):
    """The elements of a set in increasing order: a function of the set."""
    eng = i.eng
    sort = kind.sorts[0]
    n = i.card(dom)
    at = z3.Function(f"sorted_{sort}", z3.ArraySort(sort, Bool), Int, sort)
    pos = z3.Function(f"rank_{sort}", z3.ArraySort(sort, Bool), sort, Int)
    key = ("sorted", n.get_id())
    if key not in eng.memo:
        eng.memo[key] = (n, dom)
        others = eng.memo.setdefault(("sorted", sort), [])
        y = z3.Const("y!sort", sort)
        for other in others:
            eng.assume(z3.Implies(z3.ForAll([y], z3.Select(dom, y) == z3.Select(other, y)), dom == other))
        others.append(dom)
        a, b, x = z3.Int("a!sort"), z3.Int("b!sort"), z3.Const("x!sort", sort)
        eng.assume(z3.ForAll([a], z3.Implies(ranged(a, n), z3.And(z3.Select(dom, at(dom, a)), pos(dom, at(dom, a)) == a)),
                             patterns=[at(dom, a)]))
        eng.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.And(ranged(pos(dom, x), n), at(dom, pos(dom, x)) == x)),
                             patterns=[pos(dom, x)] if z3.is_quantifier(dom) else [z3.Select(dom, x), *bases(dom, x)]))
        if sort in (Int, Str):
            eng.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), at(dom, a) < at(dom, b)),
                                 patterns=[z3.MultiPattern(at(dom, a), at(dom, b))]))
    v = SeqView(n, lambda j: eng.unpack(kind, [at(dom, j if z3.is_expr(j) else z3.IntVal(j))]), "list", kind)
    v.sorted_of = (dom, kind)
    return v


@REG.model(sorted)
def m_sorted(i, args, kw):
    eng = i.eng
    v = i.force(args[0])
    if "key" in kw:
        hook = REG.summaries.get(("object", "sorted_by_key"))
        if hook:
            return hook(i, args, kw)
        raise Unsupported("sorted with a key")
    if not contains_sym(v):
        return i.real_call(sorted, args, kw)
    if isinstance(v, SetCell):
        kind = eng.set_kind(v)
        dom = eng.set_array(v, kind)
        if kind not in (STR, INT):
            raise Unsupported("sorted objects")
        return eng.list_cell(view=sorted_view(i, dom, kind))
    seq = i.iterate(v)
    if isinstance(seq, list):
        if len(seq) <= 1:
            return eng.list_cell(seq)
        seq = eng.view(tuple(seq))
    if getattr(seq, "sorted_of", None):
        return eng.list_cell(view=seq)
    kind = eng.elem_kind(seq)
    if kind not in (STR, INT):
        raise Unsupported("sorted objects")
    # Some permutation of the elements that does not decrease
    src, back = eng.new("perm", z3.ArraySort(Int, Int)), eng.new("perm_back", z3.ArraySort(Int, Int))
    a, b = z3.Int("a!perm"), z3.Int("b!perm")
    el = lambda j: eng.pack(kind, seq.get(src[j]))[0]
    eng.assume(z3.ForAll([a], z3.Implies(ranged(a, seq.n), z3.And(ranged(src[a], seq.n), back[src[a]] == a)),
                         patterns=[src[a]]))
    eng.assume(z3.ForAll([a], z3.Implies(ranged(a, seq.n), z3.And(ranged(back[a], seq.n), src[back[a]] == a)),
                         patterns=[back[a]]))
    eng.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < seq.n), el(a) <= el(b)),
                         patterns=[z3.MultiPattern(src[a], src[b])]))
    return eng.list_cell(view=SeqView(seq.n, lambda j: seq.get(src[j]), "list", kind))


# ------------------------------------------------------------------------------------------------ iteration
@REG.model(enumerate)
def m_enumerate(i, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    seq = i.iterate(args[0])
    if isinstance(seq, list):
        return tuple((i.binop(interp.ast.Add(), start, k), x) for k, x in enumerate(seq))
    s = i.eng.int_term(start)
    return SeqView(seq.n, lambda j: (SInt(z3.simplify(s + j)), seq.get(j)), "iter")


@REG.model(map)
def m_map(i, args, kw):
    if len(args) != 2:
        raise Unsupported("map of several sequences")
    seq = i.iterate(args[1])
    if isinstance(seq, list):
        out = tuple(i.call(args[0], (x,)) for x in seq)
        return SeqView(z3.IntVal(len(out)), i.eng.view(out).get, "iter")
    r = i.mapped(seq, lambda x: i.call(args[0], (x,)))
    return SeqView(r.n, r.get, "iter", r.kind)


@REG.model(filter)
def m_filter(i, args, kw):
    seq = i.iterate(args[1])
    holds = (lambda x: i.truth(x)) if args[0] is None else (lambda x: i.truth(i.call(args[0], (x,))))
    if isinstance(seq, list):
        out = tuple(x for x in seq if holds(x))
        return SeqView(z3.IntVal(len(out)), i.eng.view(out).get, "iter")
    r = i.filtered(seq, holds)
    return SeqView(r.n, r.get, "iter", r.kind)


@REG.model(zip)
def m_zip(i, args, kw):
    seqs = [i.iterate(a) for a in args]
    if all(isinstance(s, list) for s in seqs):
        return tuple(zip(*seqs))
    views = [i.eng.view(tuple(s)) if isinstance(s, list) else s for s in seqs]
    n = views[0].n
    for v in views[1:]:
        n = z3.If(v.n < n, v.n, n)
    return SeqView(n, lambda j: tuple(v.get(j) for v in views), "iter")


@REG.model(range)
def m_range(i, args, kw):
    if not contains_sym(args):
        return range(*args)
    if len(args) == 3:
        raise Unsupported("range with a step")
    a, b = (z3.IntVal(0), i.eng.int_term(args[0])) if len(args) == 1 else map(i.eng.int_term, args)
    n = z3.If(b - a > 0, b - a, 0)
    out = SeqView(n, lambda j: SInt(z3.simplify(a + j)), "list", INT)
    out.interval = (a, b)
    return out


@REG.model(slice)
def m_slice(i, args, kw):
    return slice(*args)


@REG.model(reversed)
def m_reversed(i, args, kw):
    seq = i.iterate(args[0])
    if isinstance(seq, list):
        return tuple(reversed(seq))
    return SeqView(seq.n, lambda j: seq.get(seq.n - 1 - j), "iter", seq.kind)


def quantify(i, v, exists):
    seq = i.iterate(v)
    if isinstance(seq, list):
        for x in seq:
            if i.truth(x) == exists:
                return exists
        return not exists
    eng = i.eng
    if hasattr(seq, "parts"):
        both = [as_term(i.truth_term(quantify(i, p, exists))) for p in seq.parts]
        return SBool(z3.Or(*both) if exists else z3.And(*both))
    cond = i.predicate(seq, lambda x: x)
    j = z3.Int(eng.name("q"))
    if exists:
        return SBool(z3.Exists([j], z3.And(ranged(j, seq.n), cond(j))))
    return SBool(z3.ForAll([j], z3.Implies(ranged(j, seq.n), cond(j))))


REG.models[id(any)] = (any, lambda i, args, kw: quantify(i, args[0], True))
REG.models[id(all)] = (all, lambda i, args, kw: quantify(i, args[0], False))


def extreme(i, args, kw, least):
    if kw:
        raise Unsupported("min or max with a key")
    seq = list(args) if len(args) > 1 else i.iterate(args[0])
    eng = i.eng
    if isinstance(seq, list):
        if not seq:
            raise Raised(ValueError, ())
        out = seq[0]
        texts = all(isinstance(x, (str, SStr)) for x in seq)
        for x in seq[1:]:
            if texts:
                a, b = eng.str_term(out), eng.str_term(x)
                out = SStr(z3.If(b < a if least else a < b, b, a))
                continue
            a, b = eng.int_term(out), eng.int_term(x)
            out = SInt(z3.If(b < a, b, a) if least else z3.If(b > a, b, a))
        return out
    if not eng.branch(seq.n > 0):
        raise Raised(ValueError, ())
    m, at, j = eng.new("extreme", Int), eng.new("where", Int), z3.Int(eng.name("m"))
    el = lambda k: eng.int_term(seq.get(k))
    eng.assume(z3.And(ranged(at, seq.n), el(at) == m))
    pieces = [seq]
    while pieces:
        piece = pieces.pop()
        parts = getattr(piece, "parts", None)
        if parts:
            pieces.extend(parts)
            continue
        el = lambda k, piece=piece: eng.int_term(piece.get(k))
        count = z3.simplify(piece.n)
        if z3.is_int_value(count) and count.as_long() < 4:
            for k in range(count.as_long()):
                eng.assume(el(z3.IntVal(k)) >= m if least else el(z3.IntVal(k)) <= m)
            continue
        eng.assume(z3.ForAll([j], z3.Implies(ranged(j, piece.n), el(j) >= m if least else el(j) <= m)))
    return SInt(m)


REG.models[id(min)] = (min, lambda i, args, kw: extreme(i, args, kw, True))
REG.models[id(max)] = (max, lambda i, args, kw: extreme(i, args, kw, False))


@REG.model(abs)
def m_abs(i, args, kw):
    t = i.eng.int_term(args[0])
    return SInt(z3.If(t < 0, -t, t))


@REG.model(sum)
def m_sum(i, args, kw):
    seq = i.iterate(args[0])
    if isinstance(seq, list):
        out = args[1] if len(args) > 1 else 0
        for x in seq:
            out = i.binop(interp.ast.Add(), out, x)
        return out
    # Number of the elements that hold, for conditions
    kind = i.eng.elem_kind(seq)
    raise Unsupported("sum of an unknown number of elements")


@REG.model(iter)
def m_iter(i, args, kw):
    v = i.force(args[0])
    if isinstance(v, (Inst, SVal)) and v.cls is not None and i.class_attr(v.cls, "__iter__") is not MISSING:
        return i.call(i.getattr(v, "__iter__"))
    seq = i.iterate(v)
    view = i.eng.view(tuple(seq)) if isinstance(seq, list) else seq
    return i.eng.inst(interp.Iteration, {"seq": view, "pos": SInt(z3.IntVal(0))}, "iterator")


@REG.model(next)
def m_next(i, args, kw):
    v = i.force(args[0])
    if isinstance(v, Inst) and v.cls is interp.Iteration:
        view, pos = v.attrs["seq"], i.eng.int_term(v.attrs["pos"])
        if i.eng.branch(pos < view.n):
            i.setattr(v, "pos", SInt(z3.simplify(pos + 1)))
            return view.get(pos)
        if len(args) > 1:
            return args[1]
        raise Raised(StopIteration)
    if isinstance(v, SeqView):
        # (Only for iterators that are used once)
        if i.eng.branch(v.n > 0):
            return v.get(z3.IntVal(0))
        if len(args) > 1:
            return args[1]
        raise Raised(StopIteration)
    if isinstance(v, Inst):
        try:
            return i.call(i.getattr(v, "__next__"))
        except Raised as error:
            if issubclass(error.cls, StopIteration) and len(args) > 1:
                return args[1]
            raise
    raise Unsupported("next")


@REG.model(itertools.islice)
def m_islice(i, args, kw):
    if len(args) != 2:
        raise Unsupported("islice")
    stop = i.force(args[1])
    return SliceOf(i, args[0], stop)


class SliceOf:
    """islice(x, stop): the first elements of whatever x yields."""

    def __init__(self, i, source, stop):
        self.source, self.stop = source, stop

    def __pyvc_iter__(self, i):
        seq = i.iterate(self.source)
        if self.stop is None:
            return seq
        if isinstance(seq, list) and not contains_sym(self.stop):
            return seq[:self.stop]
        view = i.eng.view(tuple(seq)) if isinstance(seq, list) else seq
        s = i.eng.int_term(self.stop)
        return SeqView(z3.If(s < view.n, z3.If(s > 0, s, 0), view.n), view.get, "iter", view.kind)


@REG.model(typing.cast)
def m_cast(i, args, kw):
    return args[1]


f_builtin_name = z3.Function("is_name_of_builtin", core.Str, core.Bool)
f_builtin_class = z3.Function("is_name_of_builtin_class", core.Str, core.Bool)
f_builtin = z3.Function("builtin_named", core.Str, core.Val)


def getattr_symbolic(i, obj, name):
    """getattr(builtins, name)"""
    if obj is not builtins:
        raise Unsupported("getattr with a name that is not known")
    t = i.eng.str_term(name)
    if not i.eng.branch(f_builtin_name(t)):
        i.eng.assume(z3.Not(f_builtin_class(t)))
        raise Raised(AttributeError, (name,))
    v = f_builtin(t)
    i.eng.assume(core.f_inst(v, i.eng.const(type)) == f_builtin_class(t))
    return SVal(v)


@REG.model(getattr)
def m_getattr(i, args, kw):
    name = i.to_real(args[1])
    try:
        if name is MISSING:
            return getattr_symbolic(i, args[0], args[1])
        return i.getattr(args[0], name)
    except Raised as error:
        if issubclass(error.cls, AttributeError) and len(args) > 2:
            return args[2]
        raise


@REG.model(hasattr)
def m_hasattr(i, args, kw):
    v, name = i.force(args[0]), i.to_real(args[1])
    if isinstance(v, SVal) and ("object", "hasattr") in REG.summaries:
        return REG.summaries["object", "hasattr"](i, (v, name), {})
    try:
        i.getattr(v, name)
        return True
    except Raised as error:
        if issubclass(error.cls, AttributeError):
            return False
        raise


@REG.model(setattr)
def m_setattr(i, args, kw):
    i.setattr(args[0], i.to_real(args[1]), args[2])


@REG.model(issubclass)
def m_issubclass(i, args, kw):
    if contains_sym(args):
        a, b = (i.eng.to_val(x) for x in args)
        return SBool(z3.Function("subclass", Val, Val, Bool)(a, b))
    return i.real_call(issubclass, args, kw)


@REG.model(print)
def m_print(i, args, kw):
    return None


# ------------------------------------------------------------------------------------------------ str
def S(i, v):
    v = i.plain(i.force(v))
    return i.eng.str_term(v)


@REG.method("str", "startswith", "endswith")
def s_startswith(i, v, args, kw):
    raise Unsupported("replaced below")


def _affix(fn):
    def model(i, v, args, kw):
        a = args[0]
        if len(args) > 1:
            raise Unsupported("startswith with positions")
        if isinstance(a, tuple):
            return SBool(z3.Or(*(fn(S(i, x), S(i, v)) for x in a)))
        if isinstance(a, SVal) and not i.eng.branch(core.is_str(a.t)):
            raise Raised(TypeError, ())
        return SBool(fn(S(i, a), S(i, v)))
    return model


REG.methods["str", "startswith"] = _affix(z3.PrefixOf)
REG.methods["str", "endswith"] = _affix(z3.SuffixOf)


f_find = z3.Function("found_at", Str, Str, Int, Int)


def place_of(i, s, what, last=False):
    """Where `what` is first (last) found in a text, if one of its known parts has it and nothing before (after) does."""
    parts = interp.flat(z3.simplify(s))
    if len(parts) < 2 or not what:
        return None
    for k in range(len(parts) - 1, -1, -1) if last else range(len(parts)):
        if z3.is_string_value(parts[k]):
            text = interp.string_value(parts[k])
            c = text.rfind(what) if last else text.find(what)
            if c >= 0:
                if last:
                    rest = interp.glue([z3.StringVal(text[c + 1:]), *parts[k + 1:]])
                else:
                    rest = interp.glue([*parts[:k], z3.StringVal(text[:c + len(what) - 1])])
                lacks = lambda part, x: x not in interp.string_value(part) if z3.is_string_value(
                    part) else i.eng.implied(z3.Not(z3.Contains(part, z3.StringVal(x))))
                if not any(all(lacks(p, x) for p in interp.flat(rest)) for x in dict.fromkeys(what)) and not i.eng.implied(
                        z3.Not(z3.Contains(rest, z3.StringVal(what)))):
                    return None
                before = interp.glue(parts[:k])
                return z3.simplify(z3.Length(before) + c)
    return None


@REG.method("str", "find")
def s_find(i, v, args, kw):
    start = i.eng.int_term(args[1]) if len(args) > 1 else z3.IntVal(0)
    if len(args) > 2 or i.eng.branch(start < 0):
        raise Unsupported("find with such bounds")
    if i.eng.opaque_find:
        t = f_find(S(i, v), S(i, args[0]), start)
        i.eng.assume(z3.And(t >= -1, t + z3.Length(S(i, args[0])) <= z3.Length(S(i, v))))
        return SInt(t)
    if i.eng.split_strings and len(args) == 1 and z3.is_string_value(S(i, args[0])):
        known = place_of(i, S(i, v), interp.string_value(S(i, args[0])))
        if known is not None:
            return SInt(known)
    return SInt(z3.IndexOf(S(i, v), S(i, args[0]), start))


@REG.method("str", "rfind")
def s_rfind(i, v, args, kw):
    if len(args) > 1:
        raise Unsupported("rfind with bounds")
    s, a = S(i, v), S(i, args[0])
    if i.eng.split_strings and z3.is_string_value(a):
        known = place_of(i, s, interp.string_value(a), last=True)
        if known is not None:
            return SInt(known)
    t = i.eng.new("last", Int)
    i.eng.assume(z3.And(t >= -1, (t == -1) == z3.Not(z3.Contains(s, a))))
    i.eng.assume(z3.Implies(t >= 0, z3.And(t + z3.Length(a) <= z3.Length(s), z3.SubString(s, t, z3.Length(a)) == a, z3.If(
        a == z3.StringVal(""), t == z3.Length(s), z3.Not(z3.Contains(z3.SubString(s, t + 1, z3.Length(s) - t - 1), a))))))
    return SInt(t)


@REG.method("str", "index")
def s_index(i, v, args, kw):
    r = s_find(i, v, args, kw)
    if i.eng.branch(r.t < 0):
        raise Raised(ValueError, ())
    return r


f_leading, f_trailing = (z3.Function(f"{n} characters of", Str, Str, Str) for n in ("leading", "trailing"))


def stripped_of(i, left, s, t, chars):
    """What is known of a text without the characters at one of its ends."""
    away = (f_leading if left else f_trailing)(s, z3.StringVal("".join(sorted(set(chars)))))
    one = z3.Union(*(z3.Re(c) for c in chars)) if len(chars) > 1 else z3.Re(chars)
    end = z3.PrefixOf if left else z3.SuffixOf
    i.eng.assume(z3.And(s == (z3.Concat(away, t) if left else z3.Concat(t, away)), z3.InRe(away, z3.Star(one)),
                        *(z3.Not(end(z3.StringVal(c), t)) for c in chars)))


def unary_text(f, axioms=None):
    def model(i, v, args, kw):
        if args and not (args[0] is None):
            g = z3.Function(f.name() + ".chars", Str, Str, Str)
            t = g(S(i, v), S(i, args[0]))
            i.eng.assume(z3.Contains(S(i, v), t))
            if f is not f_strip and isinstance(args[0], str) and args[0]:
                stripped_of(i, f is f_lstrip, S(i, v), t, args[0])
            return SStr(t)
        t = f(S(i, v))
        if axioms:
            for a in axioms(S(i, v), t):
                i.eng.assume(a)
        return SStr(t)
    return model


def strip_axioms(s, t):
    return [f_strip(t) == t, f_lstrip(t) == t, f_rstrip(t) == t, z3.Contains(s, t), z3.Implies(s == z3.StringVal(""), t == s), z3.Length(t) <= z3.Length(s)]


REG.methods["str", "upper"] = unary_text(f_upper)
REG.methods["str", "lower"] = unary_text(f_lower)
REG.methods["str", "capitalize"] = unary_text(f_capital)
REG.methods["str", "strip"] = unary_text(f_strip, strip_axioms)
REG.methods["str", "lstrip"] = unary_text(f_lstrip, lambda s, t: [z3.SuffixOf(t, s)])
REG.methods["str", "rstrip"] = unary_text(f_rstrip, lambda s, t: [z3.PrefixOf(t, s)])


@REG.method("str", "isidentifier")
def s_isident(i, v, args, kw):
    t = S(i, v)
    i.eng.assume(z3.Not(f_isident(z3.StringVal(""))))
    return SBool(f_isident(t))


for _name in ("isalpha", "isdigit", "isupper", "islower", "istitle", "isnumeric", "isdecimal"):
    REG.methods["str", _name] = lambda i, v, args, kw, f=z3.Function("str." + _name, Str, core.Bool): SBool(f(S(i, v)))
REG.methods["str", "isalnum"] = lambda i, v, args, kw: SBool(f_isalnum(S(i, v)))
REG.methods["str", "isspace"] = lambda i, v, args, kw: SBool(f_isspace(S(i, v)))


f_replace_some = z3.Function("str.replace_some", Str, Str, Str, Int, Str)


@REG.method("str", "replace")
def s_replace(i, v, args, kw):
    s, a, b = S(i, v), S(i, args[0]), S(i, args[1])
    if len(args) > 2:
        t = f_replace_some(s, a, b, i.eng.int_term(args[2]))
        i.eng.assume(z3.Implies(z3.Not(z3.Contains(s, a)), t == s))
        return SStr(t)
    t = f_replace(s, a, b)
    i.eng.assume(z3.Implies(z3.Not(z3.Contains(s, a)), t == s))
    i.eng.assume(z3.Implies(a == b, t == s))
    parts = interp.flat(z3.simplify(s))
    if z3.is_string_value(a) and len(parts) > 1 and z3.is_string_value(parts[-1]):
        # Only the end of the text is replaced if nothing before it has the first character of what is replaced
        what, end = interp.string_value(a), interp.string_value(parts[-1])
        if what and end.endswith(what) and what[0] not in end[:len(end) - len(what)]:
            first = z3.StringVal(what[0])
            before = [*parts[:-1], z3.StringVal(end[:len(end) - len(what)])]
            if all(i.eng.implied(z3.Not(z3.Contains(p, first))) for p in before):
                i.eng.assume(t == z3.Concat(*before, b))
    return SStr(t)


def join_term(i, sep, seq):
    """sep.join(seq) as term, with what determines it."""
    eng = i.eng
    if isinstance(seq, list):
        out = None
        if not seq:
            return z3.StringVal("")
        for k, x in enumerate(seq):
            t = S(i, x)
            out = t if out is None else z3.Concat(out, sep, t)
        return out
    n = z3.simplify(seq.n)
    arr = eng.array_of(SeqView(seq.n, lambda j: SStr(S(i, seq.get(j))), "list", STR), STR)
    t = f_join(sep, n, arr)
    joins = eng.memo.setdefault("joins", [])
    if not any(t.eq(o[0]) for o in joins):
        eng.assume(z3.Implies(n == 0, t == z3.StringVal("")))
        eng.assume(z3.Implies(n == 1, t == z3.Select(arr, 0)))
        eng.assume(z3.Implies(n == 2, t == z3.Concat(z3.Select(arr, 0), sep, z3.Select(arr, 1))))
        k = z3.Int("k!join")
        for o, osep, on, oarr in joins:
            same = z3.And(osep == sep, on == n, z3.ForAll([k], z3.Implies(ranged(k, n), z3.Select(arr, k) == z3.Select(
                oarr, k))))
            eng.assume(z3.Implies(same, o == t))
        joins.append((t, sep, n, arr))
    return t


@REG.method("str", "join")
def s_join(i, v, args, kw):
    seq = i.iterate(args[0])
    return SStr(join_term(i, S(i, v), seq))


def words(i, s):
    """What split() yields: texts without blanks, none of them empty."""
    n, at, k = f_wordn(s), f_wordat(s), z3.Int("k!words")
    i.eng.assume(z3.And(n >= 0, z3.Implies(s == z3.StringVal(""), n == 0)))
    i.eng.assume(z3.ForAll([k], z3.Implies(ranged(k, n), z3.And(
        z3.Select(at, k) != z3.StringVal(""), z3.Not(z3.Contains(z3.Select(at, k), z3.StringVal(" "))),
        z3.Not(z3.Contains(z3.Select(at, k), z3.StringVal("\n"))))), patterns=[z3.Select(at, k)]))
    return i.eng.list_cell(view=i.eng.array_view(n, [at], STR))


@REG.method("str", "split")
def s_split(i, v, args, kw):
    if len(args) > 1 or kw:
        raise Unsupported("split")
    if not args or args[0] is None:
        return words(i, S(i, v))
    s, sep = S(i, v), S(i, args[0])
    n, at = f_splitn(s, sep), f_splitat(s, sep)
    if i.eng.branch(sep == z3.StringVal("")):
        raise Raised(ValueError, ("empty separator",))
    i.eng.assume(n >= 1)
    i.eng.assume(z3.Implies(z3.Contains(s, sep), z3.And(
        n >= 2, z3.Select(at, 0) == z3.SubString(s, 0, z3.IndexOf(s, sep, 0)))))
    i.eng.assume(z3.Implies(z3.Not(z3.Contains(s, sep)), z3.And(n == 1, z3.Select(at, 0) == s)))
    k = z3.Int("k!split")
    i.eng.assume(z3.ForAll([k], z3.Implies(ranged(k, n), z3.Not(z3.Contains(z3.Select(at, k), sep))),
                           patterns=[z3.Select(at, k)]))
    i.eng.assume(z3.PrefixOf(z3.Select(at, 0), s))
    i.eng.assume(z3.SuffixOf(z3.Select(at, n - 1), s))
    i.eng.assume(z3.Implies(z3.Contains(s, sep), z3.SuffixOf(z3.Concat(sep, z3.Select(at, n - 1)), s)))
    i.eng.assume(f_join(sep, n, at) == s)
    i.eng.memo.setdefault("joins", []).append((f_join(sep, n, at), sep, n, at))
    return i.eng.list_cell(view=i.eng.array_view(n, [at], STR))


def leaves(t):
    return [u for c in t.children() for u in leaves(c)] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]


f_nlines, f_line = z3.Function("number_of_lines", Str, Int), z3.Function("line_at", Str, Int, Str)


def unknown_lines(i, t):
    j = z3.Int("j!lines")
    n = f_nlines(t)
    i.eng.assume(z3.And(n >= 0, (n == 0) == (t == z3.StringVal(""))))
    i.eng.assume(z3.ForAll([j], z3.Implies(ranged(j, n), z3.Not(z3.Contains(f_line(t, j), z3.StringVal("\n")))), patterns=[
        f_line(t, j)]))
    return i.eng.list_cell(view=SeqView(n, lambda k: SStr(f_line(t, k)), "list", STR))


@REG.method("str", "splitlines")
def s_splitlines(i, v, args, kw):
    """Known texts and identifiers in between: none of them has a line break, and none is empty."""
    if args or kw:
        raise Unsupported("splitlines with the line breaks")
    parts, symbols = "", []
    for leaf in leaves(S(i, v)):
        if z3.is_string_value(leaf):
            parts += interp.string_value(leaf)
        elif i.eng.implied(f_isident(leaf)):
            parts += chr(0xE000 + len(symbols))
            symbols.append(leaf)
        else:
            return unknown_lines(i, S(i, v))
    if args or kw:
        raise Unsupported("splitlines with the line breaks")
    out = []
    for line in parts.splitlines():
        text = ""
        for c in line:
            at = ord(c) - 0xE000
            text = i.str_concat(text, SStr(symbols[at]) if 0 <= at < len(symbols) else c)
        out.append(text)
    return i.eng.list_cell(out)


@REG.method("str", "partition")
def s_partition(i, v, args, kw):
    s, sep = S(i, v), S(i, args[0])
    k = z3.IndexOf(s, sep, 0)
    if i.eng.branch(k < 0):
        return (SStr(s), "", "")
    return (SStr(z3.SubString(s, 0, k)), args[0], SStr(z3.SubString(s, k + z3.Length(sep), z3.Length(s))))


@REG.method("str", "format")
def s_format(i, v, args, kw):
    if not isinstance(v, str) or args:
        raise Unsupported("format of an unknown pattern")
    import string
    out = ""
    for text, name, spec, conv in string.Formatter().parse(v):
        out = i.str_concat(out, text)
        if name is not None:
            if spec or conv or name not in kw:
                raise Unsupported("format specification")
            out = i.str_concat(out, i.to_str(kw[name]))
    return out


@REG.method("str", "count")
def s_count(i, v, args, kw):
    f = z3.Function("str.count", Str, Str, Int)
    n = f(S(i, v), S(i, args[0]))
    i.eng.assume(n >= 0)
    i.eng.assume((n == 0) == z3.Not(z3.Contains(S(i, v), S(i, args[0]))))
    return SInt(n)


# ------------------------------------------------------------------------------------------------ list, tuple
@REG.method("list", "append")
def l_append(i, v, args, kw):
    i.list_append(v, args[0])


@REG.method("list", "extend")
def l_extend(i, v, args, kw):
    seq = i.iterate(args[0])
    if isinstance(seq, list):
        for x in seq:
            i.list_append(v, x)
        return
    i.touch(v)
    r = i.concat(i.eng.view(v), seq)
    v.items, v.view = None, SeqView(r.n, r.get, "list")


@REG.method("list", "insert")
def l_insert(i, v, args, kw):
    at, x = args
    i.touch(v)
    eng = i.eng
    if v.items is not None and isinstance(at, int):
        v.items.insert(at, x)
        return
    view = eng.view(v)
    n = view.n
    t = eng.int_term(at)
    t = z3.If(t < 0, z3.If(n + t > 0, n + t, 0), z3.If(t < n, t, n))
    kind = i.fit(v, x)
    arrays, terms = eng.arrays_of(view, kind), eng.pack(kind, x)
    j = z3.Int(eng.name("ins"))
    new = [z3.Lambda([j], z3.If(j < t, z3.Select(a, j), z3.If(j == t, y, z3.Select(a, j - 1))))
           for a, y in zip(arrays, terms)]
    v.items, v.view = None, eng.array_view(z3.simplify(n + 1), new, kind)


@REG.method("list", "pop")
def l_pop(i, v, args, kw):
    i.touch(v)
    eng = i.eng
    if v.items is not None and (not args or isinstance(args[0], int)):
        try:
            return v.items.pop(*args)
        except IndexError:
            raise Raised(IndexError, ()) from None
    view = eng.view(v)
    t = i.index(view, args[0] if args else -1)
    out = view.get(t)
    kind = eng.elem_kind(v)
    arrays = eng.arrays_of(view, kind)
    if not args or args[0] == -1:
        v.items, v.view = None, eng.array_view(z3.simplify(view.n - 1), arrays, kind)
        return out
    j = z3.Int(eng.name("pop"))
    new = [z3.Lambda([j], z3.If(j < t, z3.Select(a, j), z3.Select(a, j + 1))) for a in arrays]
    v.items, v.view = None, eng.array_view(z3.simplify(view.n - 1), new, kind)
    return out


@REG.method("list", "__delitem__")
def l_del(i, v, args, kw):
    l_pop(i, v, args, kw)


@REG.method("list", "remove")
def l_remove(i, v, args, kw):
    """Removes the first element equal to the argument."""
    eng = i.eng
    i.touch(v)
    view = eng.view(v)
    cond = i.predicate(view, lambda x: SBool(as_term(i.equal(x, args[0]))))
    t, j = eng.new("at", Int), z3.Int(eng.name("rm"))
    if not eng.branch(z3.Exists([j], z3.And(ranged(j, view.n), cond(j)))):
        raise Raised(ValueError, ())
    eng.assume(z3.And(ranged(t, view.n), cond(t)))
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), z3.Not(cond(j)))))
    kind = eng.elem_kind(v)
    src = getattr(view, "sorted_of", None)
    if src is not None:
        # A sorted set without one element is the sorted smaller set
        dom, k = src
        v.items, v.view = None, sorted_view(i, z3.Store(dom, eng.key(k, args[0]), z3.BoolVal(False)), k)
        return
    arrays = eng.arrays_of(view, kind)
    new = [z3.Lambda([j], z3.If(j < t, z3.Select(a, j), z3.Select(a, j + 1))) for a in arrays]
    v.items, v.view = None, eng.array_view(z3.simplify(view.n - 1), new, kind)


@REG.method("list", "copy")
def l_copy(i, v, args, kw):
    return m_list(i, (v,), {})


@REG.method("list", "index")
def l_index(i, v, args, kw):
    eng = i.eng
    view = eng.view(v)
    cond = i.predicate(view, lambda x: SBool(as_term(i.equal(x, args[0]))))
    t, j = eng.new("at", Int), z3.Int(eng.name("find"))
    if not eng.branch(z3.Exists([j], z3.And(ranged(j, view.n), cond(j)))):
        raise Raised(ValueError, ())
    eng.assume(z3.And(ranged(t, view.n), cond(t)))
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), z3.Not(cond(j)))))
    return SInt(t)


# ------------------------------------------------------------------------------------------------ set
REG.methods["set", "add"] = lambda i, v, args, kw: i.set_add(v, args[0])
REG.methods["set", "discard"] = lambda i, v, args, kw: i.set_add(v, args[0], present=False)


@REG.method("set", "remove")
def set_remove(i, v, args, kw):
    if not i.eng.branch(as_term(i.contains(v, args[0]))):
        raise Raised(KeyError, (args[0],))
    i.set_add(v, args[0], present=False)


@REG.method("set", "update")
def set_update_m(i, v, args, kw):
    for a in args:
        set_update(i, v, a)


def copy_set(i, v):
    return make_set(i, (v if isinstance(v, SetCell) else i.eng.set_cell(list(v)),), getattr(v, "frozen", False))


REG.methods["set", "copy"] = lambda i, v, args, kw: copy_set(i, v)


def combine(i, a, b, fn):
    eng = i.eng
    a = a if isinstance(a, SetCell) else eng.set_cell(list(a)) if isinstance(a, (set, frozenset)) else make_set(
        i, (a,), False)
    b = b if isinstance(b, SetCell) else eng.set_cell(list(b)) if isinstance(b, (set, frozenset)) else make_set(
        i, (b,), False)
    kind = join_kinds(eng.set_kind(a), eng.set_kind(b))
    if kind == EMPTY:
        return eng.set_cell([])
    if isinstance(kind, (TupK, ConstK, OptK, SetK)):
        kind = VAL
    x = z3.Const(eng.name("xc"), kind.sorts[0])
    p, q = eng.set_array(a, kind), eng.set_array(b, kind)
    return eng.set_cell(kind=kind, dom=z3.Lambda([x], fn(z3.Select(p, x), z3.Select(q, x))), frozen=a.frozen)


@REG.method("set", "union")
def set_union(i, v, args, kw):
    out = copy_set(i, v)
    for a in args:
        if isinstance(a, StarArgs):
            out = union_all(i, out, a.view)
        else:
            out = combine(i, out, a, z3.Or)
    return out


def union_all(i, start, view):
    """Union with an unknown number of sets."""
    eng = i.eng
    j = z3.Int(eng.name("ua"))
    value, _ = eng.evaluate(lambda: view.get(j), [j], ranged(j, view.n))
    if value is None:
        return start
    kind = eng.set_kind(value) if isinstance(value, SetCell) else eng.elem_kind(value)
    kind = join_kinds(kind, eng.set_kind(start))
    x = z3.Const(eng.name("xu"), kind.sorts[0])
    arr = eng.set_array(value, kind)
    base = eng.set_array(start, kind)
    dom = z3.Lambda([x], z3.Or(z3.Select(base, x), z3.Exists([j], z3.And(ranged(j, view.n), z3.Select(arr, x)))))
    return eng.set_cell(kind=kind, dom=dom)


@REG.method("set", "intersection")
def set_intersection(i, v, args, kw):
    out = copy_set(i, v)
    eng = i.eng
    for a in args:
        if isinstance(a, StarArgs):
            view = a.view
            j = z3.Int(eng.name("ia"))
            value, _ = eng.evaluate(lambda: view.get(j), [j], ranged(j, view.n))
            if value is None:
                continue
            kind = join_kinds(eng.set_kind(value), eng.set_kind(out))
            x = z3.Const(eng.name("xi"), kind.sorts[0])
            arr, base = eng.set_array(value, kind), eng.set_array(out, kind)
            out = eng.set_cell(kind=kind, dom=z3.Lambda([x], z3.And(z3.Select(base, x), z3.ForAll(
                [j], z3.Implies(ranged(j, view.n), z3.Select(arr, x))))))
        else:
            out = combine(i, out, a, z3.And)
    return out


REG.methods["set", "difference"] = lambda i, v, args, kw: combine(i, v, args[0], lambda p, q: z3.And(p, z3.Not(q)))


@REG.method("set", "issubset")
def set_issubset(i, v, args, kw):
    eng = i.eng
    d = combine(i, v, args[0], lambda p, q: z3.Implies(p, q))
    if d.items is not None:
        return True
    x = z3.Const(eng.name("xs"), d.kind.sorts[0])
    return SBool(z3.ForAll([x], z3.Select(d.dom, x)))


# ------------------------------------------------------------------------------------------------ dict
@REG.method("dict", "get")
def d_get(i, v, args, kw):
    default = args[1] if len(args) > 1 else kw.get("default")
    if not isinstance(v, DictCell):
        v = i.from_real(dict(v))
    return i.dict_get(v, args[0], default)


def d_view(what):
    def model(i, v, args, kw):
        if not isinstance(v, DictCell):
            v = i.from_real(dict(v))
        return DictView(v, what)
    return model


for _w in ("keys", "values", "items"):
    REG.methods["dict", _w] = d_view(_w)


@REG.method("dict", "setdefault")
def d_setdefault(i, v, args, kw):
    if i.eng.branch(as_term(i.contains(v, args[0]))):
        return i.dict_get(v, args[0])
    default = args[1] if len(args) > 1 else None
    i.dict_set(v, args[0], default)
    return default


@REG.method("dict", "update")
def d_update(i, v, args, kw):
    for a in args:
        dict_update(i, v, a)


def dict_drop(i, v, key):
    """Removes a key that is there: the later ones move up."""
    eng = i.eng
    i.touch(v)
    if v.items is not None:
        for at, (k, _) in enumerate(v.items):
            same = i.equal(k, key)
            if eng.branch(as_term(same)) if not isinstance(same, bool) else same:
                del v.items[at]
                return
        raise Unsupported("key to be removed")
    st = v.state
    k = eng.key(st.kk, key)
    j, x = z3.Int(eng.name("drop")), z3.Const(eng.name("drop"), st.kk.sorts[0])
    p = z3.Select(st.pos, k)
    keyat = [z3.Lambda([j], z3.If(j < p, z3.Select(a, j), z3.Select(a, j + 1))) for a in st.keyat]
    pos = z3.Lambda([x], z3.If(z3.Select(st.pos, x) > p, z3.Select(st.pos, x) - 1, z3.Select(st.pos, x)))
    v.state = core.DictState(st.kk, st.vk, st.n - 1, keyat, pos, z3.Store(st.dom, k, z3.BoolVal(False)), st.cols)


@REG.method("dict", "pop")
def d_pop(i, v, args, kw):
    if i.eng.branch(as_term(i.contains(v, args[0]))):
        out = i.dict_get(v, args[0])
        dict_drop(i, v, args[0])
        return out
    if len(args) > 1:
        return args[1]
    raise Raised(KeyError, (args[0],))


@REG.method("dict", "__delitem__")
def d_del(i, v, args, kw):
    d_pop(i, v, args[:1], kw)


@REG.method("dict", "copy")
def d_copy(i, v, args, kw):
    return m_dict(i, (v,), {})


def identity_method(i, v, args, kw):
    return v


@REG.method("set", "__contains__")
def set_contains(i, v, args, kw):
    r = i.contains(v, args[0])
    return r if isinstance(r, bool) else SBool(r)


for _k in ("list", "dict", "str", "tuple"):
    REG.methods[_k, "__contains__"] = set_contains


@REG.model(typing.get_type_hints)
def m_hints(i, args, kw):
    """The hints of an instance are those of its class."""
    v = args[0]
    return i.real_call(typing.get_type_hints, (object.__new__(v.cls) if isinstance(v, Inst) else v,), kw)


@REG.model(dataclasses.replace)
def m_replace(i, args, kw):
    """A dataclass whose fields are all arguments of its constructor, and that has nothing to run afterwards."""
    v = i.force(args[0])
    if not isinstance(v, Inst) or hasattr(v.cls, "__post_init__") or not all(
            f.init and f.name in v.attrs for f in dataclasses.fields(v.cls)) or not set(kw) <= {
                f.name for f in dataclasses.fields(v.cls)}:
        raise Unsupported("call of 'replace'")
    return i.eng.inst(v.cls, {**{f.name: v.attrs[f.name] for f in dataclasses.fields(v.cls)}, **kw}, v.cls.__name__)
