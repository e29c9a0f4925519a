"""Read a generated module back: every definition as an abstract type, with aliases expanded.

Works on the syntax tree of the text only; the text is what users get.
"""
import ast
import builtins


class Bad(Exception):
    """The generated text is not what a hint module may look like."""


class Module:
    def __init__(self, text):
        self.text = text
        self.tree = ast.parse(text)
        self.defs = {}  # name -> type
        self.order = []  # names in order of definition
        self.imports = {}
        self.unions = []  # (definition, [rendered alternatives])
        self.refs = {}  # name -> names it refers to
        self.docs = {}
        self.sites = []  # (definition, type, named)
        for node in self.tree.body:
            self.statement(node)

    # ---- statements
    def define(self, name, type_):
        if name in self.defs:
            raise Bad(f"{name} is defined twice")
        if name in self.imports:
            raise Bad(f"{name} is imported and defined")
        self.defs[name] = type_
        self.order.append(name)

    def statement(self, node):
        if isinstance(node, ast.ImportFrom):
            for alias in node.names:
                self.imports[alias.asname or alias.name] = f"{node.module}.{alias.name}"
        elif isinstance(node, ast.Import):
            for alias in node.names:
                self.imports[alias.asname or alias.name] = alias.name
        elif isinstance(node, ast.AnnAssign):
            self.current = node.target.id
            self.refs[self.current] = []
            if ast.unparse(node.annotation) != "TypeAlias":
                raise Bad(f"unexpected annotation {ast.unparse(node)}")
            self.define(node.target.id, self.type(node.value))
        elif isinstance(node, ast.Assign):
            self.current = node.targets[0].id
            self.refs[self.current] = []
            if isinstance(node.value, ast.Call) and ast.unparse(node.value.func) == "TypedDict":
                if node.value.args[0].value != self.current:
                    raise Bad("functional TypedDict under another name")
                if node.value.keywords:
                    raise Bad("unexpected keywords in TypedDict")
                fields = node.value.args[1]
                self.define(self.current, self.typed_dict([(k.value, v, "") for k, v in zip(fields.keys, fields.values)]))
            else:
                self.define(self.current, self.type(node.value))
        elif isinstance(node, ast.ClassDef):
            self.current = node.name
            self.refs[self.current] = []
            bases = [ast.unparse(b) for b in node.bases]
            if node.keywords:
                raise Bad("unexpected keywords in class")
            if bases == ["TypedDict"]:
                fields = []
                for idx, sub in enumerate(node.body):
                    if isinstance(sub, ast.AnnAssign):
                        doc = ""
                        if idx + 1 < len(node.body) and is_doc(node.body[idx + 1]):
                            doc = node.body[idx + 1].value.value
                        fields.append((sub.target.id, sub.annotation, doc))
                    elif not is_doc(sub) and not is_ellipsis(sub):
                        raise Bad(f"unexpected {ast.unparse(sub)}")
                self.docs[node.name] = {k: d for k, _, d in fields}
                self.docs[node.name][None] = node.body[0].value.value if is_doc(node.body[0]) else ""
                self.define(node.name, self.typed_dict(fields))
            elif bases == ["Protocol"]:
                (call,) = node.body
                if call.name != "__call__":
                    raise Bad("protocol without __call__")
                ret = f" -> {ast.unparse(call.returns)}" if call.returns is not None else ""
                self.define(node.name, ("proto", f"({ast.unparse(call.args)}){ret}"))
            elif bases == ["pd.DataFrame"]:
                self.define(node.name, self.frame(node))
            else:
                raise Bad(f"unexpected class {node.name}({bases})")
        elif is_doc(node):
            pass
        else:
            raise Bad(f"unexpected statement {ast.unparse(node)}")

    def typed_dict(self, fields):
        out = []
        for key, value, _ in fields:
            required, read_only = True, False
            if isinstance(value, ast.Constant) and isinstance(value.value, str):
                pass
            while isinstance(value, ast.Subscript) and ast.unparse(value.value) in ("NotRequired", "ReadOnly"):
                if ast.unparse(value.value) == "NotRequired":
                    required = False
                else:
                    read_only = True
                value = value.slice
            out.append((key, required, read_only, self.type(value)))
        if len({k for k, *_ in out}) != len(out):
            raise Bad("field repeated")
        self.field_order = [k for k, *_ in out]
        return ("TypedDict", frozenset(out))

    def frame(self, node):
        accessors, keys, allowed = [], [], None
        for fn in node.body:
            if fn.name != "__getitem__":
                raise Bad(f"unexpected method {fn.name}")
            annotation = next(a.annotation for a in fn.args.args if a.arg == "key")
            if isinstance(annotation, ast.Subscript) and ast.unparse(annotation.value) == "Literal":
                accessors.append((repr(ast.literal_eval(annotation.slice)), self.type(fn.returns)))
            else:
                elements = annotation.slice.elts
                literal = [e for e in elements if isinstance(e, ast.Subscript) and ast.unparse(e.value) == "Literal"]
                if literal:
                    sl = literal[0].slice
                    sl = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                    allowed = [repr(ast.literal_eval(e)) for e in sl]
                else:
                    allowed = [ast.unparse(elements[1])]
        self.frames = getattr(self, "frames", {})
        self.frames[node.name] = allowed
        return ("DF", tuple(accessors))

    # ---- expressions
    def type(self, node):
        type_, named = self._type(node)
        self.sites.append((self.current, type_, named))
        return type_

    def _type(self, node):
        if isinstance(node, ast.Constant) and node.value is None:
            return ("name", "None"), False
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            if node.value.startswith("NDArray[np.") and node.value.endswith("]"):
                return ("NDArray", node.value[len("NDArray[np."):-1]), False
            return ("name", f'"{node.value}"'), False
        if isinstance(node, ast.Name):
            if node.id in self.defs:
                self.refs[self.current].append(node.id)
                return self.defs[node.id], True
            if node.id == "Callable":
                return ("callable",), False
            if node.id == "Any":
                return ("Any",), False
            if node.id in ("ModuleType", "TextIO"):
                return ("name", node.id), False
            if isinstance(getattr(builtins, node.id, None), type):
                return ("name", node.id), False
            raise Bad(f"{node.id} is used by {self.current} but not defined before")
        if isinstance(node, ast.Attribute) and ast.unparse(node) == "pd.DataFrame":
            return ("DFplain",), False
        if isinstance(node, ast.Subscript):
            head = ast.unparse(node.value)
            if head in ("List", "Sequence", "Set", "FrozenSet", "Iterator", "pd.Series"):
                return (head.replace("pd.", ""), self.alternatives(node.slice)), False
            if head == "Tuple":
                elts = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
                if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is ...:
                    alts = self.alternatives(elts[0])
                    if not alts:
                        return ("TupleAny",), False
                    return ("TupleAnySize", alts), False
                return ("Tuple", tuple(self.type(e) for e in elts)), False
            if head in ("Dict", "Mapping", "MappingProxyType"):
                keys, values = node.slice.elts
                names = self.alternatives_text(keys)
                return (head, frozenset(names), self.alternatives(values)), False
            if head == "Type":
                text = node.slice.value if isinstance(node.slice, ast.Constant) else node.slice.id
                return ("Type", f'"{text}"' if isinstance(node.slice, ast.Constant) else text), False
            if head == "Optional" and ast.unparse(node.slice) == "object":
                return ("opt_object",), False
            if head == "Callable":
                args, ret = node.slice.elts
                if not all(ast.unparse(e) == "Any" for e in args.elts) or ast.unparse(ret) != "Any":
                    raise Bad("lambda hinted with something else than Any")
                return ("lambda", len(args.elts)), False
        raise Bad(f"unexpected hint {ast.unparse(node)}")

    def members(self, node):
        if isinstance(node, ast.Subscript) and ast.unparse(node.value) == "Union":
            elts = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        else:
            elts = [node]
        return elts

    def alternatives_text(self, node):
        elts = self.members(node)
        texts = [render(e) for e in elts]
        self.unions.append((self.current, [self.source(e) for e in elts]))
        if texts == ["Any"]:
            return []
        return texts

    def alternatives(self, node):
        elts = self.members(node)
        self.unions.append((self.current, [self.source(e) for e in elts]))
        if len(elts) == 1 and ast.unparse(elts[0]) == "Any":
            return frozenset()
        types = [self.type(e) for e in elts]
        if len(set(types)) != len(types):
            raise Bad(f"{self.current}: the same type is listed twice in {ast.unparse(node)}")
        if ("Any",) in types:
            raise Bad(f"{self.current}: Any next to other alternatives")
        return frozenset(types)

    def source(self, node):
        return ast.get_source_segment(self.text, node)

    @property
    def root(self):
        return self.order[-1]


def render(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return f'"{node.value}"'
    return ast.unparse(node)


def is_doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def is_ellipsis(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and node.value.value is ...


def height(t):
    """Height of a structure, from its abstract type."""
    kind = t[0]
    if kind in ("TypedDict",):
        subs = [f[3] for f in t[1]]
    elif kind in ("List", "Sequence", "Set", "FrozenSet", "Iterator", "Series", "TupleAnySize"):
        subs = list(t[1])
    elif kind == "Tuple":
        subs = list(t[1])
    elif kind in ("Dict", "Mapping", "MappingProxyType"):
        subs = list(t[2])
    elif kind == "DF":
        subs = [s for _, s in t[1]]
    elif kind in ("DFplain", "TupleAny"):
        subs = []
    else:
        return 0
    return 1 + max([height(s) for s in subs], default=0)


def must_be_named(t, min_height):
    return t[0] in ("TypedDict", "proto", "lambda", "callable", "DF") or height(t) > min_height
