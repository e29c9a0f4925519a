"""Audit hook: writes and deletions outside scratch directories are refused, all of them are recorded."""
import os
import sys
import tempfile

allowed, log = [], []
_active = [False]


class Refused(PermissionError):
    """The code under test tried to write or delete outside the scratch directory."""


def _inside(path):
    try:
        path = os.path.abspath(os.fspath(path))
    except TypeError:
        return True  # a file descriptor
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if path in ("/dev/null", "/dev/tty"):
        return True
    return any(path == base or path.startswith(base + os.sep) for base in allowed)


def _touch(kind, path):
    if isinstance(path, int):
        return
    log.append((kind, str(path)))
    if not _inside(path):
        raise Refused(f"{kind} of {path} refused")


def _at(path, dir_fd):
    if isinstance(path, int) or not isinstance(dir_fd, int) or dir_fd < 0:
        return path
    return os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), os.fsdecode(path))


def _hook(event, args):
    if not _active[0]:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            _touch("write", path)
    elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.chmod", "os.chown", "os.utime"):
        _touch(event, _at(args[0], args[-1]))
    elif event == "os.truncate":
        _touch(event, args[0])
    elif event in ("os.rename", "os.link"):
        _touch(event, _at(args[0], args[2]))
        _touch(event, _at(args[1], args[3]))
    elif event == "os.symlink":
        _touch(event, _at(args[1], args[2]))
    elif event in ("shutil.rmtree",):
        _touch(event, args[0])
    elif event in ("shutil.move", "shutil.copyfile", "shutil.copytree"):
        _touch(event, args[1])


_installed = []


def install(*bases):
    """From now on only these directories may be changed by this process."""
    for base in bases:
        base = os.path.realpath(base)
        if base not in allowed:
            allowed.append(base)
    if not _installed:
        _installed.append(True)
        temp = os.path.join(allowed[0], "tmp")
        os.makedirs(temp, exist_ok=True)
        tempfile.tempdir = temp
        sys.addaudithook(_hook)
    _active[0] = True


class off:
    """For the machinery itself (replay files, clean up)."""

    def __enter__(self):
        self.before = _active[0]
        _active[0] = False

    def __exit__(self, *exc):
        _active[0] = self.before
