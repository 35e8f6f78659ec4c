"""The mixin methods of collections.abc, instrumented.

A class of the code under test that derives from Mapping, MutableSequence, ...
inherits methods from the standard library (get, in, pop, extend, ==, ...);
those methods call back into the class, so they are executed symbolically too:
their source is taken from the running Python's own _collections_abc.
"""
import _collections_abc as A
import ast
import inspect
import types

from psx.xform import transform

NAMES = ["Mapping", "MappingView", "KeysView", "ItemsView", "ValuesView", "MutableMapping", "Sequence", "MutableSequence"]
TABLE = {}  # original function -> instrumented one


def build(proxy):
    tree = ast.parse(inspect.getsource(A))
    body = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name in NAMES]
    src = "\n\n".join(ast.unparse(n) for n in body)
    code, _ = transform(src, A.__file__ or "<_collections_abc>", "harness._mixins")
    mod = types.ModuleType("harness._mixins")
    for k, v in vars(A).items():
        if not k.startswith("__"):
            mod.__dict__[k] = v
    mod.__dict__["_psx_rt"] = proxy
    exec(code, mod.__dict__)
    for n in NAMES:
        new, old = mod.__dict__[n], getattr(A, n)
        for k, f in vars(old).items():
            g = vars(new).get(k)
            if isinstance(f, types.FunctionType) and isinstance(g, types.FunctionType):
                TABLE[f] = g
        if not n.endswith("View"):
            mod.__dict__[n] = old


def adopt(module, proxy):
    """gives the classes of a module instrumented versions of what they inherit"""
    for cls in list(vars(module).values()):
        if not isinstance(cls, type) or cls.__module__ != module.__name__ or not issubclass(cls, (A.Mapping, A.Sequence)):
            continue
        if not TABLE:
            build(proxy)
        for base in cls.__mro__[1:]:
            if base.__module__ not in ("collections.abc", "_collections_abc"):
                continue
            for k, f in vars(base).items():
                if getattr(cls, k, None) is f and f in TABLE:
                    setattr(cls, k, TABLE[f])
