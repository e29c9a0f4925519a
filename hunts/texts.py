"""Bounded contract hunts over text: docstrings (C15), YAML lines and files (C13, C14), source edits (C17)."""
import ast
import os
import random
import re
import textwrap

from lib import common, parse, specs, target

# --------------------------------------------------------------------------------------------------- C15
WORDS = ["a", "word", "longerword", "x" * 30, "y" * 120, "end.", "it's", 'say "hi"', '"', '"""', "\\", "\\n", "\\d+",
         "ñ", "{x}", "%s", "#", "\\N{X}", "\\x", "'''", '""', "e.g.", "\x00", "=", "->", '"""quoted"""', "\\\\", "."]


def c15_cases(rng):
    while True:
        n = rng.choice([0, 1, 1, 2, 3, 5, 12, 40])
        words = [rng.choice(WORDS) for _ in range(n)]
        seps = [" ", " ", " ", " ", "\n", "\n\n", "  ", "\t", "\n   "]
        text = ""
        for i, w in enumerate(words):
            text += (rng.choice(seps) if i else "") + w
        text += rng.choice(["", "", "", ".", "\n", ".\n"])
        if rng.random() < 0.05:
            text = "\n" + text
        yield (text, rng.choice([90, 90, 20, 10, 40, 5, 88]), rng.choice(["", "    ", "        "]))


def c15_check(case):
    from lazy_type_hint.utils import format_string_as_docstring

    text, limit, indentation = case
    out = format_string_as_docstring(text, max_line_length=limit, indentation=indentation)
    try:
        value = ast.literal_eval("(\n" + out + "\n)")
    except Exception as error:
        return f"not a literal: {error!r}\n{out}"
    if not isinstance(value, str):
        return f"not a string\n{out}"
    words, got = text.split(), value.split()
    if words and words[-1].endswith("."):
        wanted = [words]
        if text.rstrip("\n") != text.rstrip():
            wanted.append(words + ["."])
    elif words:
        wanted = [words[:-1] + [words[-1] + "."], words + ["."]]
    else:
        wanted = [["."]]
    if got not in wanted:
        return f"words {got}, expected {wanted[0]}\n{out}"
    stripped = []
    for line in out.split("\n"):
        if line.strip() and not line.startswith(indentation):
            return f"a line is not indented: {line!r}\n{out}"
        stripped.append(line[len(indentation):])
    for line in stripped:
        if len(line) > limit and len(line.strip('"').split()) > 1:
            return f"line too long: {line!r}\n{out}"
    return None


def shrink_text(check):
    def run(case):
        text = case[0]
        changed = True
        while changed:
            changed = False
            for i in range(len(text)):
                for size in (8, 1):
                    cand = text[:i] + text[i + size:]
                    if cand != text and check((cand, *case[1:])) is not None:
                        text, changed = cand, True
                        break
                if changed:
                    break
        return (text, *case[1:])

    return run


# --------------------------------------------------------------------------------------------------- C14
def outside(line):
    """Positions of a line that are outside quotes."""
    quoted = False
    for i, char in enumerate(line):
        if char in "\"'":
            quoted = not quoted
        elif not quoted:
            yield i


def c14_side(line):
    for i in outside(line):
        if line[i] == "#" and i > 0 and line[i - 1] == " ":
            comment = line[i + 1:].strip()
            return comment if not comment or comment.endswith(".") else comment + "."
    return ""


def c14_cases(rng):
    keys = ["key", "a_b", "my key", "'quoted'", '"dq"', "k1", '"a: b"', "'x # y'", "url"]
    values = ["", "1", "text", "'#'", '"a # b"', "a#b", "http://x#y", "[1, 2]", "x: y", "'a': b", "a##b", "#", "'it'"]
    comments = ["", "# comment", "#comment", "#  two words ", "# with # inside", "# ends.", "#", "# ", "# 'q' \"x\"",
                "# a: b", "# it 'is'"]
    while True:
        if rng.random() < 0.75:
            indent = "  " * rng.randint(0, 3)
            dash = rng.choice(["", "", "- ", "-   "])
            line = indent + dash + rng.choice(keys) + ":" + rng.choice(["", " ", "  "]) + rng.choice(values)
            line += rng.choice(["", " ", "  "]) + rng.choice(comments)
            yield ("line", line)
        else:
            indent = " " * rng.choice([0, 0, 2, 4])
            pos = rng.choice(["above", "below"])
            lines = []
            for _ in range(rng.randint(0, 7)):
                lines.append(rng.choice([indent, indent, indent, indent + " ", "  "]) + rng.choice(
                    ["# one", "# two words", "#", "# Three.", "#four", "other: 1", "k: # x", "k2:  # y", "# it's", "- x", ""]))
            at = rng.randint(0, len(lines))
            dash = rng.choice(["", "", "- "])
            lines.insert(at, (indent[:-2] + "- " if dash and len(indent) >= 2 else indent) + rng.choice(
                ["key: 1", "key:", "'key': 2"]))
            yield ("block", lines, at, pos)


def c14_block(lines, at, pos):
    line = lines[at]
    column = len(line) - len(line.lstrip(" -"))
    step = -1 if pos == "above" else 1
    out, i = [], at + step
    while 0 <= i < len(lines) and lines[i].lstrip().startswith("#") and lines[i].index("#") == column:
        out.append(lines[i][column + 1:].strip())
        i += step
    if pos == "above":
        out.reverse()
    return out


def plain_words(text):
    return [w.lower() for w in text.replace(".", " ").split()]


def c14_check(case):
    from lazy_type_hint.file_modifiers.yaml_file_modifier import YamlFileModifier

    if case[0] == "line":
        line = case[1]
        side = getattr(YamlFileModifier, "_extract_side_comment", None)
        if side is not None:
            got = side(line)
            if got != c14_side(line):
                return f"side comment of {line!r}: {got!r}, expected {c14_side(line)!r}"
        key = getattr(YamlFileModifier, "_extract_key_from_line", None)
        if key is not None:
            got = key(line)
            colon = next((i for i in outside(line) if line[i] == ":"), None)
            want = line[:colon].lstrip(" ")
            if want.startswith("-"):
                want = want[1:].lstrip(" ")
            if len(want) > 1 and want[0] == want[-1] and want[0] in "\"'":
                want = want.strip(want[0])
            if got != want:
                return f"key of {line!r}: {got!r}, expected {want!r}"
        return None
    _, lines, at, pos = case
    path = os.path.join(folder(), "block.yaml")
    with open(path, "w") as f:
        f.write("\n".join(lines))
    modifier = YamlFileModifier(path, comments_are=pos)
    block = getattr(modifier, "_extract_single_block_comment", None)
    if block is None or list(modifier.lines) != "\n".join(lines).splitlines():
        return None
    got = block(at, comments_are=pos)
    want = c14_block(lines, at, pos)
    if plain_words(got) != plain_words(" ".join(want)):
        return f"comment {pos} line {at} of {lines}: {got!r}, expected the words of {want}"
    return None


_folder = []


def folder():
    if not _folder:
        _folder.append(target.scratch_dir())
    return _folder[0]


# --------------------------------------------------------------------------------------------------- C13
class Yaml:
    """Writer of YAML documents with comments. Every key and every comment has words of its own."""

    def __init__(self, rng, odd):
        self.rng, self.odd = rng, odd
        self.lines, self.count = [], 0
        self.side, self.above, self.below = {}, {}, {}
        self.lines_of = {}  # line of every key that several mappings have

    def key(self):
        self.count += 1
        name = f"k{self.count}"
        if self.odd and self.rng.random() < 0.15:
            name = self.rng.choice([f"k {self.count}", f"k-{self.count}", f"k.{self.count}", f"K{self.count}x"])
        return name

    def comment(self):
        self.count += 1
        r = self.rng
        text = f"c{self.count}"
        if r.random() < 0.5:
            text += " " + r.choice(["word", "two words", "Upper case", "with dot.", "15 things", "lower_case"])
        if self.odd and r.random() < 0.3:
            text += " " + r.choice(["a: b", "it's", '"quoted"', "#hash", "[x]", "{y}", "- z", "%", "\\d", "'''", '"""',
                                    "| x", "> y", "@", "key: |"])
        return text

    def scalar(self):
        r = self.rng
        values = ["1", "2.5", "text", "true", "null", "'single'", '"double"', "two words"]
        if self.odd:
            values += ["'a # b'", '"x: y"', "a#b", "http://x.y/#z", "[1, 2]", "{a: 1, b: x}", "~", "''", ".nan", "1e3",
                       "it's", "2020-01-01", "- 1" if False else "-1", "[]", "{}", "'it''s'", "!!str 5", "yes"]
        return r.choice(values)

    def mapping(self, indent, depth, first_prefix=None):
        r = self.rng
        n = r.choice([1, 2, 2, 3])
        common = r.randint(1, 3)
        for i in range(n):
            prefix = first_prefix if i == 0 and first_prefix is not None else " " * indent
            text_of_key = key = self.key()
            if i == 0:
                first = key
            elif i == common:  # The same key in several mappings
                text_of_key, key = "common", f"common@{first}"
            if r.random() < 0.3 and not (i == 0 and first_prefix is not None):
                for _ in range(r.choice([1, 1, 2])):
                    text = self.comment()
                    self.above.setdefault(key, []).append(text)
                    self.lines.append(" " * indent + "# " + text)
            shown = text_of_key
            self.lines_of[key] = len(self.lines)
            if self.odd and r.random() < 0.15:
                shown = r.choice([f'"{shown}"', f"'{shown}'"])
            line = f"{prefix}{shown}:"
            kind = r.random()
            nested = None
            if depth < 3 and kind < 0.3:
                nested = "map"
            elif depth < 3 and kind < 0.5:
                nested = "list"
            elif self.odd and kind < 0.58:
                line += r.choice([" |", " >", " |-"])
                nested = "block"
            elif self.odd and kind < 0.63:
                line += ' "multi'
                nested = "multi"
            elif self.odd and kind < 0.68:
                line += " [1,"
                nested = "flow"
            else:
                line += " " + self.scalar()
            if nested not in ("multi",) and r.random() < 0.45:
                text = self.comment()
                self.side[key] = text
                line += r.choice([" ", "  "]) + "# " + text
            elif self.odd and r.random() < 0.05 and nested is None:
                line += "#no comment" if not line.endswith(("'", '"', "]", "}")) else ""
            self.lines.append(line)
            if r.random() < 0.2 and nested is None:
                text = self.comment()
                self.below.setdefault(key, []).append(text)
                self.lines.append(" " * indent + "# " + text)
            if nested == "map":
                self.mapping(indent + 2, depth + 1)
            elif nested == "list":
                self.sequence(indent + r.choice([0, 2]), depth + 1)
            elif nested == "block":
                for _ in range(r.choice([1, 2, 3])):
                    self.lines.append(" " * (indent + 2) + r.choice(
                        ["plain text", "looks: like # a comment", "# not a comment", "- item: 1 # x", "a: b"]))
            elif nested == "multi":
                self.lines.append(" " * (indent + 2) + r.choice(['line: two # x"', 'end"', '# y"']))
            elif nested == "flow":
                self.lines.append(" " * (indent + 2) + r.choice(["2]", "a: 1, # c", "2, # c"]))
                if not self.lines[-1].endswith("]"):
                    self.lines.append(" " * (indent + 2) + "3]")
            if self.odd and r.random() < 0.1:
                self.lines.append("")

    def sequence(self, indent, depth):
        r = self.rng
        for _ in range(r.choice([1, 2, 3])):
            x = r.random()
            if x < 0.5 or depth >= 3:
                self.lines.append(" " * indent + "- " + self.scalar() + r.choice(["", "", " # item comment"]))
            elif x < 0.9 or not self.odd:
                dashes = "- " if not self.odd or r.random() < 0.8 else "-   "
                self.mapping(indent + len(dashes), depth + 1, first_prefix=" " * indent + dashes)
            else:
                self.lines.append(" " * indent + "- - " + self.scalar())
                self.lines.append(" " * indent + "  - k: 1 # nested")


def c13_cases(rng):
    positions = ["side", "above", "below", ["side", "above"], ["above", "side"], ["side", "below"], ["side"], None]
    while True:
        odd = rng.random() < 0.6
        doc = Yaml(rng, odd)
        if odd and rng.random() < 0.15:
            doc.lines.append(rng.choice(["---", "# heading", "%YAML 1.1\n---"]))
        if rng.random() < 0.9:
            doc.mapping(0, 0)
        else:
            doc.sequence(0, 0)
        if odd and rng.random() < 0.3:
            doc.lines.append(rng.choice(["# trailing", "", "# trailing\n", "..."]))
        st = specs.strategies(rng, min_height_to_define_type_alias=1)
        st["dict_strategy"] = rng.choice(["TypedDict"] * 4 + ["dict", "Mapping"])
        yield ("\n".join(doc.lines) + "\n", rng.choice(positions), st, doc.side, doc.above, doc.below, doc.lines_of, odd)


def load_yaml(path):
    import yaml

    with open(path) as f:
        return yaml.load(f, Loader=yaml.SafeLoader)


def c13_check(case):
    from pathlib import Path

    from lazy_type_hint import LazyTypeHint, ParsingStrategies

    text, comments_are, st, side, above, below, lines_of, odd = case
    if isinstance(comments_are, tuple):
        comments_are = list(comments_are)
    path = Path(folder()) / "doc.yaml"
    path.write_text(text)
    try:
        data = load_yaml(path)
    except Exception:
        return None  # not YAML
    tool = LazyTypeHint(ParsingStrategies(**st))
    plain = tool.from_data(data, class_name="Root").to_string()
    documented = tool.from_yaml_file(load_yaml, path, class_name="Root", comments_are=comments_are).to_string()
    if path.read_text() != text:
        return "the YAML file was modified"
    if "hidden_key" in documented:
        return f"a helper key is shown\n{documented}"
    if undocumented(plain) != undocumented(documented):
        return f"the hints are not those of the data\n{documented}\n---- expected\n{plain}"
    if comments_are is None:
        return None
    places = [comments_are] if isinstance(comments_are, str) else comments_are
    own = {"side": side, "above": above, "below": below}
    module = parse.Module(documented)
    found = []
    for name, docs in module.docs.items():
        for key, doc in docs.items():
            if key is not None and doc:
                owners = [key]
                if key == "common":  # Whose one? Each mapping has a key of its own
                    owners = [f"common@{field[0]}" for field in module.defs[name][1] if field[0] != key]
                found.append((key, owners, doc))
    for key, owners, doc in found:
        texts = []
        for place in places:
            for owner in owners:
                value = own[place].get(owner)
                if value:
                    texts += value if isinstance(value, (list, tuple)) else [value]
        # Only the words of the comments of this very key
        unmarked = [w for w in re.findall(r"\bc\d+\b", doc.lower())]
        allowed = [t.split()[0] for t in texts]
        foreign = [w for w in unmarked if w not in allowed]
        others = adjacent(text, {lines_of.get(owner) for owner in owners} if key == "common" and not odd else key)
        if any(w not in others for w in foreign):
            return f"the documentation of {key} is {doc!r}: not a comment of that key\n{text}"
    if not odd and st["dict_strategy"] == "TypedDict":
        for place in places:
            if place != "side":
                continue
            for key, comment in side.items():
                if "@" in key or not re.search(rf"\b{key}\b", plain):
                    continue  # one of several, or beyond the inspection limit
                if not any(k == key and plain_words(comment)[0] in plain_words(doc) for k, _, doc in found):
                    return f"the comment {comment!r} of {key} is lost\n{text}\n{documented}"
    return None


def adjacent(text, key):
    """Words of the comments on the line of a key (or on given lines) and in the runs of comment lines around it."""
    lines = text.splitlines()
    out = []
    for i, line in enumerate(lines):
        if i in key if isinstance(key, set) else re.match(rf"^[ -]*[\"']?{re.escape(key)}[\"']?:", line):
            group = [line]
            for step in (-1, 1):
                j = i + step
                while 0 <= j < len(lines) and lines[j].lstrip().startswith("#"):
                    group.append(lines[j])
                    j += step
            for g in group:
                out += re.findall(r"\bc\d+\b", g.lower())
    return out


def undocumented(text):
    tree = ast.parse(text)
    for node in ast.walk(tree):
        if isinstance(getattr(node, "body", None), list):
            node.body = [s for s in node.body if not parse.is_doc(s)]
    return ast.dump(tree)


# --------------------------------------------------------------------------------------------------- C17
def c17_cases(rng):
    lines_pool = ["import os", "from x import y", "", "a = 1", "b: int = 2", "a = 'x'", "if TYPE_CHECKING:",
                  "    import z", "class A(B):", "    @final", "    def f(self) -> None:", "        ...", "x == y",
                  "    value: 'T' = Union[1, 2]", "def g():", "    @overload", "    @override", "text = \"a = 3\"",
                  "    def from_data(self, x: int = 3) -> A:", "# comment", "value2 = 'q'", "print(a)"]
    names = ["a", "b", "value", "f", "g", "from_data", "zzz", "x"]
    while True:
        if rng.random() < 0.35:
            yield ("private", random_class(rng))
            continue
        lines = [rng.choice(lines_pool) for _ in range(rng.randint(1, 14))]
        op = rng.choice(["add_line", "add_lines", "replace_line", "replace_assignment", "replace_idx", "imports",
                         "imports_list", "imports_tc", "search_line", "search_method", "search_assignment",
                         "search_decorator"])
        yield (op, lines, rng.randint(0, len(lines) - 1), rng.choice(names), rng.choice(
            ["new", "x = y", "Union[Literal[\"A\"], Any]", "a\nb"]), rng.choice(["overload", "final", "override"]))


def random_class(rng):
    out = ["import os", ""]

    def method(indent, name, depth=0):
        lines = []
        for d in range(rng.choice([0, 0, 1, 2])):
            lines.append(indent + rng.choice(["@final", "@override", "@property", "@deco(1)"]))
            if lines[-1].endswith("(1)") and rng.random() < 0.4:
                lines[-1:] = [indent + "@deco(", indent + "    1,", indent + ")"]
        head = rng.choice(["def ", "def ", "def ", "async def "])
        if rng.random() < 0.3:
            lines += [indent + f"{head}{name}(", indent + "    self,", indent + "    a: int = 1,", indent + ") -> None:"]
        else:
            lines.append(indent + f"{head}{name}(self, a=1)" + rng.choice([":", " -> None:"]))
        if rng.random() < 0.2:
            lines[-1] += " ..."
            return lines
        for _ in range(rng.choice([1, 2, 3])):
            lines.append(indent + "    " + rng.choice(["pass", "x = 1", "y = 'def _z(self):'", "return a"]))
            if rng.random() < 0.2:
                lines.append("")
                lines.append(indent + "    z = 2")
        return lines

    plain, n = [], 0
    text, kept = list(out), list(out)
    for _ in range(rng.randint(1, 2)):
        head = [f"class C{n}:", f"    v{n} = 1"]
        text += head
        kept += head
        for _ in range(rng.randint(1, 5)):
            n += 1
            private = rng.random() < 0.5
            name = (f"_m{n}" if private else rng.choice([f"m{n}", f"__m{n}__", f"__m{n}"]))
            body = method("    ", name)
            text += body
            if not private:
                kept += body
            gap = rng.choice([[], [""], ["    w = 1"]])
            text += gap
            kept += gap
        text += ["", f"K{n} = 3"]
        kept += ["", f"K{n} = 3"]
    return (tuple(text), tuple(kept))


def no_blank(lines):
    return [line for line in lines if line.strip()]


def c17_check(case):
    from lazy_type_hint.file_modifiers import PyFileModifier

    op = case[0]
    if op == "private":
        text, kept = case[1]
        modifier = PyFileModifier("\n".join(text))
        modifier.remove_all_private_methods()
        if no_blank(modifier.lines) != no_blank(kept):
            return "lines left after removing private methods:\n" + str(modifier) + "\n---- expected\n" + "\n".join(kept)
        return None
    _, lines, idx, name, value, decorator = case
    lines = list(lines)
    while lines and not "\n".join(lines).splitlines() == lines:
        lines = "\n".join(lines).splitlines()
    if not lines or idx >= len(lines):
        return None
    modifier = PyFileModifier("\n".join(lines))
    want = list(lines)
    if op == "add_line":
        modifier.add_line(idx, value)
        want[idx:idx] = [value]
    elif op == "add_lines":
        modifier.add_line(idx, [value, "other"])
        want[idx:idx] = [value, "other"]
    elif op == "replace_line":
        modifier.replace_line(idx, value)
        want[idx] = value
    elif op == "imports":
        modifier.add_imports(value)
        want[0:0] = [value]
    elif op == "imports_list":
        modifier.add_imports(["first", value])
        want[0:0] = ["first", value]
    elif op == "imports_tc":
        at = next((i for i, line in enumerate(lines) if "if TYPE_CHECKING:" in line), None)
        if at is None:
            try:
                modifier.add_imports(value, in_type_checking_block=True)
            except ValueError:
                return same_lines(modifier, want)
            return "no type checking block, but no error"
        modifier.add_imports(value, in_type_checking_block=True)
        want[at + 1:at + 1] = ["    " + value]
    elif op in ("replace_assignment", "replace_idx"):
        label = name if op == "replace_assignment" else idx
        found = assignments(lines, name)
        if op == "replace_assignment" and len(found) != 1 or op == "replace_idx" and "=" not in lines[idx]:
            try:
                modifier.replace_assignement(label, value)
            except ValueError:
                return same_lines(modifier, want)
            return "not a single assignment, but no error"
        at = found[0][0] if op == "replace_assignment" else idx
        modifier.replace_assignement(label, value)
        want[at] = lines[at][: lines[at].rindex("=") + 1] + value
    elif op == "search_line":
        at = next((i for i, line in enumerate(lines) if name in line), None)
        try:
            got = modifier.search_line(name)
        except ValueError:
            got = None
        if got != at:
            return f"search_line({name!r}) is {got}, expected {at} in {lines}"
    elif op == "search_method":
        for above in (True, False):
            at = methods(lines, name, above)
            got = modifier.search_method(name, return_index_above_decorator=above)
            if got != at:
                return f"search_method({name!r}, {above}) is {got}, expected {at} in {lines}"
    elif op == "search_decorator":
        at = []
        for i in methods(lines, name, False):
            j = i - 1
            while j >= 0 and lines[j].strip().startswith("@"):
                if lines[j].strip() == "@" + decorator:
                    at.append(j)
                    break
                j -= 1
        got = modifier.search_decorator(decorator_name=decorator, method_name=name)
        if got != at:
            return f"search_decorator({decorator!r}, {name!r}) is {got}, expected {at} in {lines}"
    elif op == "search_assignment":
        found = assignments(lines, name)
        got = modifier.search_assignment(name)
        if [tuple(g) for g in got] != found:
            return f"search_assignment({name!r}) is {got}, expected {found} in {lines}"
        if modifier.search_assignment(name, only_values=True) != [v for _, v in found]:
            return f"the values of search_assignment({name!r}) are wrong in {lines}"
    return same_lines(modifier, want)


def same_lines(modifier, want):
    if str(modifier).split("\n") != "\n".join(want).split("\n"):
        return f"lines are\n{modifier}\n---- expected\n" + "\n".join(want)
    return None


def assignments(lines, name):
    out = []
    for i, line in enumerate(lines):
        if name in line and "=" in line:
            before = line.split(name)[0]
            if '"' in before or "'" in before:
                continue
            value = line.split("=")[-1].strip()
            if value[:1] in ("'", '"'):
                value = value[1:-1]
            out.append((i, value))
    return out


def methods(lines, name, above):
    out = []
    for i, line in enumerate(lines):
        if line.strip().startswith(f"def {name}"):
            j = i
            while above and j > 0 and lines[j - 1].strip().startswith("@"):
                j -= 1
            out.append(j)
    return out
