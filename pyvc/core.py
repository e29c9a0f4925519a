"""Terms, kinds of symbolic values and the exploration of paths.

A path through the interpreted code is a sequence of decisions. It is explored by running the code again with the
decisions replayed, so that nothing of the interpreter needs to be copied.
"""
import itertools
import os
import pathlib
import subprocess
import sys
import tempfile
import time

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

# ------------------------------------------------------------------------------------------------ sorts
_V = z3.Datatype("Val")
_V.declare("VStr", ("s", z3.StringSort()))
_V.declare("VInt", ("i", z3.IntSort()))
_V.declare("VBool", ("b", z3.BoolSort()))
_V.declare("VNone")
_V.declare("VRef", ("r", z3.IntSort()))  # Any other object, by identity
_V.declare("VTup", ("size", z3.IntSort()), ("t", z3.IntSort()))
_V.declare("VSet", ("f", z3.IntSort()))
Val = _V.create()
VStr, VInt, VBool, VNone, VRef = Val.VStr, Val.VInt, Val.VBool, Val.VNone, Val.VRef
is_str, is_int, is_bool, is_none, is_ref = Val.is_VStr, Val.is_VInt, Val.is_VBool, Val.is_VNone, Val.is_VRef
Int, Bool, Str = z3.IntSort(), z3.BoolSort(), z3.StringSort()
VSetSort = z3.ArraySort(Val, Bool)

f_type = z3.Function("typeof", Val, Val)
f_inst = z3.Function("isinst", Val, Val, Bool)
f_tname = z3.Function("class_name", Val, Str)
f_id = z3.Function("id_of", Val, Int)
f_unid = z3.Function("object_of_id", Int, Val)
f_fset = z3.Function("frozenset_of", VSetSort, Int)
f_unfset = z3.Function("members_of", Int, VSetSort)
f_eqc = z3.Function("eq_class", Val, Val)  # == of objects with an __eq__ of their own
f_hash = z3.Function("hash_of", Val, Int)
f_unhash = z3.Function("object_of_hash", Int, Val)
f_strint = z3.Function("str_of", Val, Str)
f_repr = z3.Function("repr_of", Val, Str)


class Unsupported(Exception):
    """The code uses something the verifier does not know."""


class PathEnd(Exception):
    """Nothing left to be shown on this path."""


class Restart(Exception):
    """Something else changes within a loop than thought so far: every path into it has to be followed again."""

    def __init__(self, loop):
        self.loop = list(loop)


class Raised(Exception):
    """An exception raised by the interpreted code."""

    def __init__(self, cls, args=(), cause=None):
        super().__init__(cls, args)
        self.cls, self.exc_args, self.cause = cls, args, cause


# ------------------------------------------------------------------------------------------------ values
class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"

    def __bool__(self):
        raise Unsupported(f"truth of {self!r} taken by the verifier itself")

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


class SInt(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


class SStr(Sym):
    __slots__ = ()


class SVal(Sym):
    """Any object. `cls` is a class it is known to be an instance of."""

    __slots__ = ("cls",)

    def __init__(self, t, cls=None):
        self.t, self.cls = t, cls


class Inst:
    """An object whose attributes are known one by one."""

    def __init__(self, cls, attrs, term, serial):
        self.cls, self.attrs, self.term, self.serial = cls, attrs, term, serial

    def __repr__(self):
        return f"<{self.cls.__name__}>"


class Cell:
    """Something that can be changed in place."""

    serial = 0
    detached = False  # a copy of what is held by another structure: must not be changed


class SeqView:
    """A sequence that does not change: its length and its elements."""

    source = None  # of a selection: what is selected from, where each element stems from, its place, the condition
    place = None  # of an enumeration: where an element is

    def __init__(self, n, get, sort="list", kind=None, one_shot=False):
        self.n, self.get, self.sort, self.kind, self.one_shot = n, get, sort, kind, one_shot


class ListCell(Cell):
    def __init__(self, serial, items=None, view=None):
        self.serial, self.items, self.view = serial, items, view


class SetCell(Cell):
    """Either the elements (`items`, concrete ones) or a characteristic array over `kind`."""

    def __init__(self, serial, items=None, kind=None, dom=None, frozen=False, link=None):
        self.serial, self.items, self.kind, self.dom_, self.frozen, self.link = serial, items, kind, dom, frozen, link

    @property
    def dom(self):
        return self.link[0]() if self.link else self.dom_


class DictCell(Cell):
    def __init__(self, serial, items=None, state=None, default=None):
        self.serial, self.items, self.state, self.default = serial, items, state, default
        self.owner = None  # (its OwnK, the owner, the state it had): the dictionary is a function of its owner


class DictState:
    """Insertion ordered: n keys, `keyat` position -> key (columns), `pos` key term -> position, `dom`, `cols`."""

    def __init__(self, kk, vk, n, keyat, pos, dom, cols):
        self.kk, self.vk, self.n, self.keyat, self.pos, self.dom, self.cols = kk, vk, n, keyat, pos, dom, cols


# ------------------------------------------------------------------------------------------------ kinds
class Kind:
    def __init__(self, name, sorts):
        self.name, self.sorts = name, sorts

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return isinstance(other, Kind) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


INT, BOOL, STR, VAL = Kind("int", [Int]), Kind("bool", [Bool]), Kind("str", [Str]), Kind("val", [Val])


class NodeK(Kind):
    def __init__(self, cls):
        super().__init__(f"node:{cls.__name__}", [Val])
        self.cls = cls


class ConstK(Kind):
    def __init__(self, value):
        super().__init__(f"const:{value!r}", [])
        self.value = value


class TupK(Kind):
    def __init__(self, kinds):
        super().__init__("(" + ",".join(k.name for k in kinds) + ")", [s for k in kinds for s in k.sorts])
        self.kinds = kinds


class OptK(Kind):
    def __init__(self, kind):
        super().__init__(f"opt:{kind.name}", [Bool, *kind.sorts])
        self.kind = kind


class SetK(Kind):
    def __init__(self, kind):
        super().__init__(f"set:{kind.name}", [z3.ArraySort(kind.sorts[0], Bool)])
        self.kind = kind


class ListK(Kind):
    def __init__(self, kind, sort="list"):
        super().__init__(f"{sort}:{kind.name}", [Int, *(z3.ArraySort(Int, s) for s in kind.sorts)])
        self.kind, self.sort = kind, sort


class OwnK(Kind):
    """Dictionaries that are functions of what they belong to."""

    def __init__(self, name, build):
        super().__init__(f"own:{name}", [Val])
        self.build = build


class RawK(Kind):
    """A term of any sort: for ghosts."""

    def __init__(self, sort):
        super().__init__(f"raw:{sort}", [sort])


EMPTY = Kind("empty", [])


def join_kinds(a, b):
    if a == b:
        return a
    if a == EMPTY:
        return b
    if b == EMPTY:
        return a
    if isinstance(a, ConstK) and a.value is None:
        return b if isinstance(b, OptK) else OptK(b)
    if isinstance(b, ConstK) and b.value is None:
        return a if isinstance(a, OptK) else OptK(a)
    if isinstance(a, OptK) or isinstance(b, OptK):
        return OptK(join_kinds(a.kind if isinstance(a, OptK) else a, b.kind if isinstance(b, OptK) else b))
    if isinstance(a, NodeK) and isinstance(b, NodeK):
        for c in a.cls.__mro__:
            if issubclass(b.cls, c) and c is not object:
                return NodeK(c)
        return VAL
    if isinstance(a, TupK) and isinstance(b, TupK) and len(a.kinds) == len(b.kinds):
        return TupK([join_kinds(x, y) for x, y in zip(a.kinds, b.kinds)])
    if isinstance(a, SetK) and isinstance(b, SetK):
        if EMPTY in (a.kind, b.kind):
            return b if a.kind == EMPTY else a
        return SetK(join_kinds(a.kind, b.kind))
    if isinstance(a, ListK) and isinstance(b, ListK):
        return ListK(join_kinds(a.kind, b.kind), a.sort)
    return VAL


# ------------------------------------------------------------------------------------------------ engine
class PureLevel:
    """Within an expression that must not change anything that existed before."""

    def __init__(self, serial):
        self.serial = serial


class Ctx:
    """Decisions of one exploration."""

    def __init__(self, prefix, outer=None):
        self.prefix, self.pos, self.trace, self.open = prefix, 0, [], []
        self.conds, self.facts, self.outer = [], [], outer


class Outcome:
    def __init__(self, name):
        self.name, self.vcs, self.failed, self.detail = name, 0, [], ""
        self.backends = {}


FEASIBLE_MS = 150
PROVE_MS = 8000


class Engine:
    def __init__(self, prove_ms=PROVE_MS, deadline=None):
        self.prove_ms = prove_ms
        self.deadline = deadline
        self.lemmas = set()
        self.outcomes = {}
        self.loop_shapes = {}
        self.modsets = {}
        self.consts = {}
        self.split_strings = self.opaque_find = False  # how texts are searched, see models.py
        self.const_facts = []
        self.solver_s = 0.0
        self.covered = {}
        self.functions = set()
        self.sources = {}
        self.assumed = set()
        self.summaries_used = set()
        self.reset_path([])

    # -------------------------------------------------------------------------------- paths
    def reset_path(self, prefix):
        self.ctx = Ctx(prefix)
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", FEASIBLE_MS)
        self.solver.set("smt.mbqi", False)
        self.solver.set("smt.mbqi", False)
        self.pc = []
        self.counter = 0
        self.serial = 0
        self.bound = []
        self.heap = {}
        self.loops = []
        self.taint = None
        self.log = []
        self.axioms_done = set()
        self.memo = {}
        self.axioms = []
        self.cells = {}
        self.max_counter = 0
        for f in self.const_facts:
            self.solver.add(f)
            self.pc.append(f)

    def explore(self, run, max_paths=4000):
        """Runs `run` on every path. It raises PathEnd at the end of paths that end early."""
        stack, done = [[]], 0
        while stack:
            prefix = stack.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("out of time")
            self.reset_path(prefix)
            try:
                run()
            except PathEnd:
                pass
            except Restart as again:
                key = again.loop
                if len(key) <= len(prefix):
                    # Paths through the loop that were followed before are followed again, now that more changes
                    within = lambda trace: list(trace[:len(key)]) == key
                    stack = [p for p in stack if not within(p)]
                    for out in self.outcomes.values():
                        out.failed = [f for f in out.failed if not within(f[2])]
                    prefix = key
                stack.append(prefix)
                done += 1
                if done > max_paths:
                    raise Unsupported("too many paths")
                continue
            stack += self.ctx.open
            done += 1
            if done > max_paths:
                raise Unsupported("too many paths")
        return done

    def choose(self, n):
        """A decision among n alternatives that are all possible."""
        c = self.ctx
        if c.pos < len(c.prefix):
            k = c.prefix[c.pos]
        else:
            k = 0
            for other in range(n - 1, 0, -1):
                c.open.append(c.trace + [other])
        c.trace.append(k)
        c.pos += 1
        return k

    def branch(self, cond):
        """Decides a condition. Both ways are followed if both are possible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        c = self.ctx
        if c.pos < len(c.prefix):
            k = c.prefix[c.pos]
        else:
            yes, no = self.feasible(cond), self.feasible(z3.Not(cond))
            if yes and no:
                k = 0
                c.open.append(c.trace + [1])
            elif yes:
                k = 2
            elif no:
                k = 3
            else:
                raise PathEnd
        c.trace.append(k)
        c.pos += 1
        value = k in (0, 2)
        term = cond if value else z3.Not(cond)
        if k < 2:
            c.conds.append(term)
        self.add(term)
        return value

    def add(self, term):
        self.solver.add(term)
        self.pc.append(term)

    def assume(self, term):
        """A fact. Under bound variables it holds for all of them."""
        if isinstance(term, bool):
            if term:
                return
            term = z3.BoolVal(False)
        if z3.is_true(term):
            return
        self.ctx.facts.append(term)
        self.add(term)

    def axiom(self, term):
        """A closed fact about the symbols used, whatever the path."""
        self.axioms.append(term)
        self.add(term)

    def feasible(self, term):
        began = time.time()
        self.solver.push()
        self.solver.add(term)
        r = self.solver.check()
        self.solver.pop()
        self.solver_s += time.time() - began
        return r != z3.unsat

    def implied(self, term):
        if isinstance(term, bool):
            return term
        return not self.feasible(z3.Not(term))

    def pure(self, fn, bound=None, guard=None):
        """All ways through `fn`: [(condition, value or Raised, facts)]. `fn` must not change anything."""
        out, stack = [], [[]]
        outer, outer_pc, counter = self.ctx, self.pc, self.counter
        known = len(self.axioms)
        n = 0
        while stack:
            self.ctx = Ctx(stack.pop(), outer)
            self.pc = list(outer_pc)
            self.solver.push()
            self.bound += bound or []
            self.loops.append(PureLevel(self.serial))
            try:
                if guard is not None:
                    self.add(guard)
                self.counter = counter
                try:
                    value = fn()
                except Raised as error:
                    value = error
                except PathEnd:
                    stack += self.ctx.open
                    continue
                out.append((z3.And(*self.ctx.conds) if self.ctx.conds else z3.BoolVal(True), value, self.ctx.facts))
                stack += self.ctx.open
            finally:
                self.loops.pop()
                del self.bound[len(self.bound) - len(bound or []):]
                self.solver.pop()
                self.ctx, self.pc = outer, outer_pc
                self.max_counter = max(self.max_counter, self.counter)
            n += 1
            if n > 200:
                raise Unsupported("too many cases in an expression")
        self.counter = self.max_counter
        for a in self.axioms[known:]:
            self.add(a)
        return out

    def evaluate(self, fn, bound=None, guard=None):
        """Value of `fn` with all its cases merged, and the condition under which it raises (with what)."""
        cases = self.pure(fn, bound, guard)
        raising = [(c, v) for c, v, _ in cases if isinstance(v, Raised)]
        values = [(c, v) for c, v, _ in cases if not isinstance(v, Raised)]
        for c, _, facts in cases:
            for f in facts:
                g = z3.And(guard, c) if guard is not None else c
                self.quantified(z3.Implies(g, f), bound)
        if not values:
            return None, raising
        return self.merge(values), raising

    def quantified(self, term, bound):
        term = z3.simplify(term)
        if z3.is_true(term):
            return
        names = [b for b in bound or [] if occurs(b, term)]
        self.assume(z3.ForAll(names, term) if names else term)

    # -------------------------------------------------------------------------------- symbols
    def name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def new(self, base, sort):
        if self.bound:
            return z3.Function(self.name(base), *[b.sort() for b in self.bound], sort)(*self.bound)
        return z3.Const(self.name(base), sort)

    def next_serial(self):
        self.serial += 1
        return self.serial

    def register(self, thing):
        self.cells[thing.serial] = thing
        return thing

    def fresh(self, kind, base="v"):
        return self.unpack(kind, [self.new(base, s) for s in kind.sorts], fresh=True)

    def const(self, obj):
        """Term of a concrete object."""
        key = ("path", obj) if isinstance(obj, pathlib.PurePath) else id(obj)
        if key not in self.consts:
            t = VRef(z3.IntVal(-1 - len(self.consts)))
            self.consts[key] = (t, obj)
            facts = []
            if isinstance(obj, type):
                facts.append(f_tname(t) == z3.StringVal(obj.__name__))
                facts.append(f_type(t) == (t if obj is type else self.const(type(obj))))
            for f in facts:
                self.const_facts.append(f)
                self.axiom(f)
        return self.consts[key][0]

    def concrete_of(self, term):
        term = z3.simplify(term)
        for t, obj in self.consts.values():
            if t.eq(term):
                return obj
        return None

    def list_cell(self, items=None, view=None):
        return self.register(ListCell(self.next_serial(), list(items) if items is not None else None, view))

    def set_cell(self, items=None, **kw):
        return self.register(SetCell(self.next_serial(), items, **kw))

    def dict_cell(self, items=None, **kw):
        return self.register(DictCell(self.next_serial(), items, **kw))

    def inst(self, cls, attrs, base="self"):
        return self.register(Inst(cls, dict(attrs), self.new_ref(base), self.next_serial()))

    def new_ref(self, base="ref"):
        """A term for an object that is made now: different from all the others."""
        t = VRef(self.new(base, Int))
        return t

    # -------------------------------------------------------------------------------- kinds
    def kind_of(self, v):
        if isinstance(v, bool) or isinstance(v, SBool):
            return BOOL
        if isinstance(v, (int, SInt)):
            return INT
        if isinstance(v, (str, SStr)):
            return STR
        if isinstance(v, SVal):
            return NodeK(v.cls) if v.cls is not None and getattr(v.cls, "__module__", "").startswith("lazy_") else VAL
        if isinstance(v, Inst):
            return NodeK(v.cls)
        if v is None:
            return ConstK(None)
        if isinstance(v, tuple):
            return TupK([self.kind_of(x) for x in v])
        if isinstance(v, SetCell):
            return SetK(self.set_kind(v))
        if isinstance(v, ListCell):
            return ListK(self.elem_kind(v))
        if isinstance(v, SeqView):
            return ListK(v.kind or self.elem_kind(v), v.sort)
        if isinstance(v, DictCell):
            if v.owner and v.items is None and v.owner[2] is v.state:
                return v.owner[0]
            raise Unsupported("dictionary within another structure")
        return VAL

    def elem_kind(self, v):
        if isinstance(v, ListCell):
            if v.items is None:
                v = v.view
            else:
                k = EMPTY
                for x in v.items:
                    k = join_kinds(k, self.kind_of(x))
                return k
        if isinstance(v, SeqView):
            if v.kind is None:
                i = z3.Int(self.name("probe"))
                v.kind = self.kind_of(self.evaluate(lambda: v.get(i), [i], z3.And(i >= 0, i < v.n))[0])
            return v.kind
        k = EMPTY
        for x in v:
            k = join_kinds(k, self.kind_of(x))
        return k

    def set_kind(self, s):
        if s.items is not None:
            k = EMPTY
            for x in s.items:
                k = join_kinds(k, self.kind_of(x))
            return VAL if isinstance(k, (TupK, ConstK, OptK, SetK)) else k
        return s.kind

    def to_val(self, v):
        if isinstance(v, SVal):
            return v.t
        if isinstance(v, SStr):
            return VStr(v.t)
        if isinstance(v, SInt):
            return VInt(v.t)
        if isinstance(v, SBool):
            return VBool(v.t)
        if isinstance(v, Inst):
            return v.term
        if v is None:
            return VNone
        if isinstance(v, bool):
            return VBool(z3.BoolVal(v))
        if isinstance(v, int):
            return VInt(z3.IntVal(v))
        if isinstance(v, str):
            return VStr(z3.StringVal(v))
        if isinstance(v, tuple):
            return self.tup([self.to_val(x) for x in v])
        if isinstance(v, SeqView):
            return self.seq_val(v)
        if isinstance(v, (set, frozenset)):
            v = self.set_cell(list(v))
        if isinstance(v, SetCell):
            return self.fset(self.set_array(v, VAL))
        if isinstance(v, (ListCell, DictCell)):
            raise Unsupported("mutable container taken as an opaque object")
        return self.const(v)

    def seq_val(self, v):
        """Tuples of unknown length as objects: determined by length and elements."""
        arr = self.array_of(v, VAL)
        f = z3.Function("tuple_of", Int, z3.ArraySort(Int, Val), Int)
        t = f(v.n, arr)
        g = z3.Function("tuple_at", Int, z3.ArraySort(Int, Val))
        i = z3.Int("i!tuple")
        key = ("tupseq", t.get_id())
        if key not in self.memo:
            self.memo[key] = t
            self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), g(t)[i] == arr[i])))
        return Val.VTup(v.n, t)

    def tup(self, terms):
        n = len(terms)
        f = z3.Function(f"tuple{n}", *[Val] * n, Int) if n else None
        t = f(*terms) if n else z3.IntVal(0)
        g = z3.Function("tuple_at", Int, z3.ArraySort(Int, Val))
        if n and ("tuples", n) not in self.axioms_done:
            self.axioms_done.add(("tuples", n))
            xs = [z3.Const(f"x!tup{k}", Val) for k in range(n)]
            self.axiom(z3.ForAll(xs, z3.And(*(g(f(*xs))[k] == x for k, x in enumerate(xs))), patterns=[f(*xs)]))
        return Val.VTup(n, t)

    def fset(self, arr):
        t = f_fset(arr)
        if "sets" not in self.axioms_done:
            self.axioms_done.add("sets")
            x = z3.Const("x!fset", arr.sort())
            self.axiom(z3.ForAll([x], f_unfset(f_fset(x)) == x, patterns=[f_fset(x)]))
        return Val.VSet(t)

    def pack(self, kind, v):
        if isinstance(kind, ConstK):
            return []
        if kind == INT:
            return [self.int_term(v)]
        if kind == BOOL:
            return [self.bool_term(v)]
        if kind == STR:
            return [self.str_term(v)]
        if kind == VAL or isinstance(kind, NodeK):
            return [self.to_val(v)]
        if kind == EMPTY:
            return []
        if isinstance(kind, TupK):
            if not isinstance(v, tuple):
                raise Unsupported(f"tuple expected: {v!r}")
            return [t for k, x in zip(kind.kinds, v) for t in self.pack(k, x)]
        if isinstance(kind, OptK):
            if v is None:
                return [z3.BoolVal(True), *(default_of(s) for s in kind.kind.sorts)]
            if isinstance(v, Opt):
                return [v.none, *self.pack(kind.kind, v.value)]
            return [z3.BoolVal(False), *self.pack(kind.kind, v)]
        if isinstance(kind, SetK):
            return [self.set_array(v, kind.kind)]
        if isinstance(kind, ListK):
            view = self.view(v)
            return [view.n, *self.arrays_of(view, kind.kind)]
        if isinstance(kind, OwnK) and self.kind_of(v) == kind:
            return [v.owner[1]]
        raise Unsupported(f"kind {kind}")

    def unpack(self, kind, terms, fresh=False):
        if isinstance(kind, ConstK):
            return kind.value
        if isinstance(kind, RawK):
            return terms[0]
        if kind == INT:
            return SInt(terms[0])
        if kind == BOOL:
            return SBool(terms[0])
        if kind == STR:
            return SStr(terms[0])
        if kind == VAL:
            return SVal(terms[0])
        if isinstance(kind, NodeK):
            return SVal(terms[0], kind.cls)
        if isinstance(kind, TupK):
            out, at = [], 0
            for k in kind.kinds:
                out.append(self.unpack(k, terms[at:at + len(k.sorts)], fresh))
                at += len(k.sorts)
            return tuple(out)
        if isinstance(kind, OptK):
            return Opt(terms[0], self.unpack(kind.kind, terms[1:], fresh))
        if isinstance(kind, SetK):
            cell = self.set_cell(kind=kind.kind, dom=terms[0])
            cell.detached = not fresh
            return cell
        if isinstance(kind, ListK):
            if fresh:
                self.assume(terms[0] >= 0)
            view = self.array_view(terms[0], terms[1:], kind.kind, kind.sort)
            if kind.sort == "tuple":
                return view
            cell = self.list_cell(view=view)
            cell.detached = not fresh
            return cell
        if isinstance(kind, OwnK):
            cell = kind.build(terms[0])
            cell.detached = not fresh
            return cell
        if kind == EMPTY:
            return None
        raise Unsupported(f"kind {kind}")

    def array_view(self, n, arrays, kind, sort="list"):
        out = SeqView(n, lambda i: self.unpack(kind, [z3.Select(a, i) for a in arrays]), sort, kind)
        if not self.bound:
            out.arrays = {kind: list(arrays)}
        return out

    def arrays_of(self, view, kind):
        """Arrays that hold the elements of a view."""
        memo = view.__dict__.setdefault("arrays", {})
        if kind not in memo or self.bound:
            memo[kind] = self.make_arrays(view, kind)
        return memo[kind]

    def make_arrays(self, view, kind):
        if view.kind == EMPTY:
            return [z3.K(Int, default_of(x)) for x in kind.sorts]
        i = z3.Int(self.name("ix"))
        value, _ = self.evaluate(lambda: view.get(i), [i], z3.And(i >= 0, i < view.n))
        if value is None and not kind.sorts:
            return []
        columns = self.pack(kind, value)
        out = []
        for col in columns:
            if z3.is_select(col) and col.num_args() == 2 and col.arg(1).eq(i) and not occurs(i, col.arg(0)):
                out.append(col.arg(0))
            else:
                out.append(z3.Lambda([i], col))
        return out

    def array_of(self, view, kind):
        return self.arrays_of(view, kind)[0]

    def int_term(self, v):
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, SVal):
            return Val.i(v.t)
        if isinstance(v, (bool, int)):
            return z3.IntVal(int(v))
        raise Unsupported(f"integer expected: {v!r}")

    def str_term(self, v):
        if isinstance(v, SStr):
            return v.t
        if isinstance(v, SVal):
            return Val.s(v.t)
        if isinstance(v, str):
            return z3.StringVal(v)
        raise Unsupported(f"string expected: {v!r}")

    def bool_term(self, v):
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SVal):
            return Val.b(v.t)
        raise Unsupported(f"boolean expected: {v!r}")

    def wrap(self, v):
        return v

    def merge(self, cases):
        """One value out of [(condition, value)]."""
        if len(cases) == 1:
            return cases[0][1]
        first = cases[0][1]
        if all(same(v, first) for _, v in cases):
            return first
        kind = EMPTY
        for _, v in cases:
            kind = join_kinds(kind, self.kind_of(v))
        packed = [(c, self.pack(kind, v)) for c, v in cases]
        columns = packed[-1][1]
        for c, terms in reversed(packed[:-1]):
            columns = [z3.If(c, x, y) for x, y in zip(terms, columns)]
        return self.unpack(kind, columns)

    # -------------------------------------------------------------------------------- sequences
    def view(self, v):
        if isinstance(v, SeqView):
            return v
        if isinstance(v, ListCell):
            if v.items is not None:
                return self.view(tuple(v.items))
            return v.view
        if isinstance(v, (tuple, list)):
            items = list(v)
            kind = self.elem_kind(items)

            def get(i):
                i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
                if z3.is_int_value(i) and 0 <= i.as_long() < len(items):
                    return items[i.as_long()]
                if not items:
                    return None
                return self.merge([(i == k, x) for k, x in enumerate(items)])

            return SeqView(z3.IntVal(len(items)), get, "tuple" if isinstance(v, tuple) else "list", kind)
        raise Unsupported(f"not a sequence: {v!r}")

    def set_array(self, s, kind):
        """Characteristic array of a set, over the given kind of elements."""
        if isinstance(s, (set, frozenset)):
            s = self.set_cell(list(s))
        if s.items is not None:
            arr = z3.K(kind.sorts[0], z3.BoolVal(False))
            for x in s.items:
                arr = z3.Store(arr, self.key(kind, x), z3.BoolVal(True))
            return arr
        if s.kind == kind or s.kind.sorts == kind.sorts:
            return s.dom
        if kind == VAL:
            x = z3.Const("x!conv", Val)
            dom = s.dom
            if s.kind == STR:
                return z3.Lambda([x], z3.And(is_str(x), z3.Select(dom, Val.s(x))))
            if s.kind == INT:
                return z3.Lambda([x], z3.And(is_int(x), z3.Select(dom, Val.i(x))))
        raise Unsupported(f"set of {s.kind} as set of {kind}")

    def key(self, kind, v):
        """Term by which a key is looked up."""
        if isinstance(kind, NodeK):
            return f_eqc(self.to_val(v))
        eq = getattr(getattr(v, "cls", None), "__eq__", None)
        if kind == VAL and (getattr(eq, "__module__", None) or "").startswith("lazy_type_hint"):
            raise Unsupported("keys of several kinds, some with an equality of their own")
        return self.pack(kind, v)[0]

    # -------------------------------------------------------------------------------- obligations
    def prove(self, name, goal, hint=None):
        """An obligation: the goal must follow from what is known on this path."""
        out = self.outcomes.setdefault(name, Outcome(name))
        out.vcs += 1
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if out.failed:
            return False
        parts = pieces(goal)
        quick = len(parts) > 1 and self.check_with(goal, self.prove_ms * 0.15) == z3.unsat
        for part in [goal] if quick else parts:
            status, detail, backend = ("discharged", "", "z3") if quick else self.solve(part)
            out.backends[backend] = out.backends.get(backend, 0) + 1
            if status != "discharged":
                break
        else:
            return True
        if self.taint:
            status, detail = "undecided", f"{self.taint}; {detail}"
        out.failed.append((status, detail, tuple(self.ctx.trace)))
        return False

    def prove_alone(self, name, hyps, goal):
        """A lemma: the goal follows from these hypotheses only."""
        out = self.outcomes.setdefault(name, Outcome(name))
        out.vcs += 1
        key = ("lemma", name, z3.And(*hyps, goal).sexpr() if hyps else goal.sexpr())
        if key in self.lemmas:
            return
        began = time.time()
        s = z3.SimpleSolver()
        s.set("timeout", 1500)
        s.add(*hyps)
        s.add(z3.Not(goal))
        r, backend = str(s.check()), "z3"
        if r == "unknown":
            r, backend = cvc5([*hyps, z3.Not(goal)], 5), "cvc5"
        self.solver_s += time.time() - began
        out.backends[backend] = out.backends.get(backend, 0) + 1
        if r == "unsat":
            self.lemmas.add(key)
        else:
            out.failed.append(("refuted" if r == "sat" else "undecided", "a lemma of the contract", tuple(self.ctx.trace)))

    def check_with(self, goal, ms):
        began = time.time()
        s = z3.SimpleSolver()
        s.set("timeout", int(ms))
        s.set("smt.mbqi", False)
        s.add(*self.pc)
        s.add(z3.Not(goal))
        r = s.check()
        self.solver_s += time.time() - began
        return r

    def solve(self, goal):
        began = time.time()
        if "VC_DUMP" in os.environ:
            s0 = z3.Solver()
            s0.add(*self.pc); s0.add(z3.Not(goal))
            Engine.dumps = getattr(Engine, "dumps", 0) + 1
            with open(f"{os.environ['VC_DUMP']}/{Engine.dumps}.smt2", "w") as f:
                f.write(s0.to_smt2())
        try:
            if z3.is_app_of(goal, z3.Z3_OP_IMPLIES) and z3.is_and(goal.arg(0)):
                # Perhaps one of the conditions is enough
                for h in goal.arg(0).children():
                    if self.check_with(z3.Implies(h, goal.arg(1)), self.prove_ms * 0.15) == z3.unsat:
                        return "discharged", "", "z3"
            tries = [(z3.SimpleSolver, {"smt.mbqi": False}, 0.1), None, (z3.SimpleSolver, {"smt.mbqi": False}, 0.4), (z3.SimpleSolver, {}, 0.5), (z3.Solver, {}, 0.5),
                     (z3.SimpleSolver, {"smt.mbqi": False, "smt.random_seed": 7}, 0.5)]
            for attempt in tries:
                if attempt is None:
                    if cvc5([*self.pc, z3.Not(goal)], 3) == "unsat":
                        return "discharged", "", "cvc5"
                    continue
                make, options, share = attempt
                s = make()
                s.set("timeout", int(self.prove_ms * share))
                for k, v in options.items():
                    s.set(k, v)
                s.add(*self.pc)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    return "discharged", "", "z3"
                if r == z3.sat:
                    return "refuted", counter_model(s.model()), "z3"
            r = cvc5([*self.pc, z3.Not(goal)], max(2, self.prove_ms // 2000))
            if r == "unsat":
                return "discharged", "", "cvc5"
            if r == "sat":
                return "refuted", "cvc5 found a model", "cvc5"
            return "unproved", "no answer from z3 or cvc5", "none"
        finally:
            self.solver_s += time.time() - began

    def cover(self, name):
        """The path that got here is possible."""
        if self.covered.get(name) in ("yes", "ground"):
            return
        began = time.time()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*self.pc)
        r = s.check()
        if r == z3.unknown:
            # At least what it says without quantifiers
            s = z3.SimpleSolver()
            s.set("timeout", 2000)
            s.add(*[t for t in self.pc if not has_quantifier(t)])
            r2 = s.check()
            self.covered[name] = "ground" if r2 == z3.sat else "unknown" if r2 == z3.unknown else self.covered.get(
                name, "no")
        elif r == z3.sat:
            self.covered[name] = "yes"
        else:
            self.covered.setdefault(name, "no")
        self.solver_s += time.time() - began


def pieces(goal):
    """Goals that together amount to the goal."""
    if z3.is_and(goal):
        return [p for g in goal.children() for p in pieces(g)]
    if z3.is_app_of(goal, z3.Z3_OP_IMPLIES):
        p, q = goal.children()
        return [z3.Implies(p, x) for x in pieces(q)]
    if z3.is_app_of(goal, z3.Z3_OP_EQ) and goal.arg(0).sort() == Bool:
        p, q = goal.children()
        return [*(z3.Implies(p, x) for x in pieces(q)), *(z3.Implies(q, x) for x in pieces(p))]
    return [goal]


class Opt:
    """None or a value."""

    def __init__(self, none, value):
        self.none, self.value = none, value


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, (str, int, bool, type(None))) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


def default_of(sort):
    if sort == Int:
        return z3.IntVal(0)
    if sort == Bool:
        return z3.BoolVal(False)
    if sort == Str:
        return z3.StringVal("")
    if sort == Val:
        return VNone
    if isinstance(sort, z3.ArraySortRef):
        return z3.K(sort.domain(), default_of(sort.range()))
    raise Unsupported(f"sort {sort}")


def occurs(var, term):
    seen, stack = set(), [term]
    while stack:
        t = stack.pop()
        if t.eq(var):
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        else:
            stack += t.children()
    return False


def has_quantifier(term):
    seen, stack = set(), [term]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        stack += t.children()
    return False


def counter_model(m):
    parts = []
    for d in m.decls():
        if d.arity() == 0:
            text = str(m[d]).replace("\n", " ")
            if len(text) < 120:
                parts.append(f"{d.name()} = {text}")
    return "counterexample: " + "; ".join(sorted(parts)[:40])


def cvc5(terms, seconds):
    """(The terms as they were given: z3 rewrites those of its solvers into what only z3 reads.)"""
    solver = z3.Solver()
    solver.add(*terms)
    text = solver.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + text)
        path = f.name
    try:
        out = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={seconds * 1000}", path], capture_output=True,
                             text=True, timeout=seconds + 5).stdout
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(path)
    return out.strip().splitlines()[0] if out.strip() else "unknown"


f_joinpath = z3.Function("path_joined", Val, Str, Val)


def ranged(i, n):
    return z3.And(i >= 0, i < n)
