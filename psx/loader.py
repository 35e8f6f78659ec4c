"""Loads Honno/coinflip from the working tree as instrumented modules.

Every import of ``coinflip...`` (and of the reference modules ``spec...`` and
the harness modules ``harness...``) inside the process goes through the
transformer: the code that is executed symbolically is regenerated from the
current source on every run.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from psx import mixins
from psx import rt as R
from psx.values import CUR
from psx.xform import transform

REPO = os.environ.get("COINFLIP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = {
    "coinflip": SRC,
    "spec": VERIF,
    "harness": VERIF,
}
FALLBACK = []  # modules that could not be transformed


class RTProxy:
    """forwards to the runtime of the moment (modules outlive runtimes)"""

    def __getattr__(self, name):
        return getattr(CUR[0], name)


class Loader(importlib.abc.SourceLoader):
    def __init__(self, path, name):
        self.path = path
        self.name = name

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def path_stats(self, path):
        raise OSError

    def cache_from_source(self, *a):
        raise NotImplementedError

    def get_code(self, fullname):
        src = self.get_data(self.path).decode("utf-8")
        try:
            code, _ = transform(src, self.path, fullname)
            return code
        except NotImplementedError as e:
            FALLBACK.append((fullname, str(e)))
            return compile(src, self.path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["_psx_rt"] = PROXY
        super().exec_module(module)
        mixins.adopt(module, PROXY)


PROXY = RTProxy()


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in ROOTS:
            return None
        base = os.path.join(ROOTS[top], *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(name, fn, loader=Loader(fn, name), submodule_search_locations=[base])
            return spec
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=Loader(fn, name))
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True


def purge():
    for m in list(sys.modules):
        if m.split(".")[0] in ROOTS:
            del sys.modules[m]
