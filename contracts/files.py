"""A file system as the functions under contract see it: what is read is arbitrary, what is written is recorded."""
from pathlib import Path, PosixPath

from pyvc import core
from pyvc.core import Bool, SBool, SStr, Str, SVal, Val, f_joinpath, z3
from pyvc.interp import REG

f_parentdir = z3.Function("directory_of", Val, Val)
f_pathname = z3.Function("path_name", Val, Str)
f_suffix = z3.Function("path_suffix", Val, Str)
f_topath = z3.Function("as_path", Val, Val)
f_pathtext = z3.Function("path_as_text", Val, Str)


class Files:
    """`log`: what this path of execution changed, in order: (kind, path, text)."""

    def __init__(self, V):
        self.V, self.log, self.reads = V, [], []
        self.there0 = z3.Const("files.there", z3.ArraySort(Val, Bool))
        self.text0 = z3.Const("files.text", z3.ArraySort(Val, Str))
        self.there, self.text = self.there0, self.text0
        for c in ("Path", "PurePath"):
            REG.fields[c, "parent"] = lambda i, v: SVal(f_parentdir(i.eng.to_val(v)), PosixPath)
            REG.fields[c, "name"] = lambda i, v: SStr(f_pathname(i.eng.to_val(v)))
            REG.fields[c, "suffix"] = lambda i, v: SStr(f_suffix(i.eng.to_val(v)))
        s = REG.summaries
        for c in ("exists", "is_dir", "is_file"):
            s["Path", c] = lambda i, args, kw: SBool(z3.Select(self.there, self.val(args[0])))
        s["Path", "__new__"] = self.path
        s["Path", "read_text"] = self.read
        s["Path", "write_text"] = self.write
        s["Path", "unlink"] = self.gone("unlink")
        s["Path", "rmdir"] = self.gone("rmdir")
        s["Path", "mkdir"] = self.made
        s["posix", "mkdir"] = s["os", "makedirs"] = self.made
        s["posix", "remove"] = s["posix", "unlink"] = self.gone("unlink")
        s["posix", "rmdir"] = self.gone("rmdir")
        s["shutil", "_RmtreeType"] = s["shutil", "rmtree"] = self.gone("rmtree")

    def val(self, v):
        return self.V.eng.to_val(self.V.i.force(v))

    def path(self, i, args, kw):
        a = i.force(args[-1])
        if i.is_path(a):
            return a
        t = f_topath(self.val(a))
        i.eng.assume(z3.Implies(core.f_inst(self.val(a), i.eng.const(Path)), t == self.val(a)))
        return SVal(t, PosixPath)

    def read(self, i, args, kw):
        p = self.val(args[0])
        self.reads.append(p)
        return SStr(z3.Select(self.text, p))

    def write(self, i, args, kw):
        p, t = self.val(args[0]), i.eng.str_term(args[1])
        self.log.append(("write", p, t))
        self.there = z3.Store(self.there, p, True)
        self.text = z3.Store(self.text, p, t)
        return core.SInt(z3.Length(t))

    def gone(self, kind):
        def remove(i, args, kw):
            p = self.val(args[0])
            self.log.append((kind, p, None))
            self.there = z3.Store(self.there, p, False)
        return remove

    def made(self, i, args, kw):
        p = self.val(args[0])
        self.log.append(("mkdir", p, None))
        self.there = z3.Store(self.there, p, True)

    def exists(self, p):
        return z3.Select(self.there0, p)

    def did(self, *want):
        """The log is exactly `want` (a condition)."""
        if [k for k, *_ in self.log] != [k for k, *_ in want]:
            return z3.BoolVal(False)
        return z3.And(*(p == q for (_, p, _), (_, q, *_) in zip(self.log, want)), *(
            t == w[2] for (_, _, t), w in zip(self.log, want) if t is not None), True)


def joined(path, text):
    return f_joinpath(path, text)
