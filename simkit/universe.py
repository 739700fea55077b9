"""One private copy of the package per simulated process.

In a real deployment every rank is its own process: module globals (buffer pools, lru
caches, counters) are not shared.  Each universe is a separate import of the package from
/repo's working tree; the scheduler switches ``sys.modules`` with the task.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core

REPO = os.environ.get("VERIF_REPO", "/repo")
PREFIX = "fv3gfs"
_CODE = {}


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles each source file once, never touches __pycache__."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in _CODE:
            with open(path, "rb") as f:
                _CODE[path] = compile(f.read(), path, "exec", dont_inherit=True)
        return _CODE[path]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PREFIX and not fullname.startswith(PREFIX + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py")
            )
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def _ours(name):
    return name == PREFIX or name.startswith(PREFIX + ".")


class Universe:
    def __init__(self):
        for name in [m for m in sys.modules if _ours(m)]:
            del sys.modules[name]
        self.util = importlib.import_module(PREFIX + ".util")
        path = os.path.realpath(self.util.__file__)
        if not path.startswith(os.path.realpath(REPO) + "/"):
            raise RuntimeError(f"package imported from {path}, not from {REPO}")
        self.modules = {n: m for n, m in sys.modules.items() if _ours(n)}

    def activate(self):
        sys.modules.update(self.modules)

    def find_class(self, module, name):
        if _ours(module):
            if module not in self.modules:
                self.activate()
                self.modules[module] = importlib.import_module(module)
            obj = self.modules[module]
        else:
            obj = importlib.import_module(module)
        for part in name.split("."):
            obj = getattr(obj, part)
        return obj


_POOL = []


def install():
    core.PACKAGE[0] = os.path.join(REPO, PREFIX) + os.sep
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def pool(n):
    """The first n universes (made before forking so that every run starts fresh)."""
    install()
    while len(_POOL) < n:
        _POOL.append(Universe())
    return _POOL[:n]


def fresh(n, used):
    """n further universes, for processes started after a crash."""
    return pool(used + n)[used : used + n]
