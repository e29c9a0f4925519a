"""Access to the code under test: always the current working tree of /repo."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def use_repo():
    """Import lazy_type_hint from REPO (nothing is built: the package is pure Python)."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import lazy_type_hint

    here = os.path.realpath(os.path.dirname(lazy_type_hint.__file__))
    assert here == os.path.realpath(os.path.join(REPO, "lazy_type_hint")), here
    return lazy_type_hint


_scratch = []


def scratch_dir():
    path = tempfile.mkdtemp(prefix="verif_")
    _scratch.append(path)
    return path


@atexit.register
def _clean():
    for path in _scratch:
        subprocess.run(["rm", "-rf", path])


def scratch_copy():
    """Copy of the package in a scratch directory, for everything that writes next to the package."""
    base = scratch_dir()
    src = os.path.join(REPO, "lazy_type_hint")
    dst = os.path.join(base, "lazy_type_hint")
    shutil.copytree(
        src, dst, ignore=lambda d, names: [n for n in names if n == "__pycache__" or n.endswith(".pyi") or n == "build"]
    )
    return base
