"""Stand-in for jinja2: renders the current templates, parsed by jinja2 itself, with symbolic values (symbolic runs only)."""
import importlib
import os

import jinja2


class TemplateNotFound(IOError, LookupError):
    pass


class BaseLoader:
    def source(self, name):
        raise TemplateNotFound(name)


class FileSystemLoader(BaseLoader):
    def __init__(self, searchpath, encoding="utf-8", followlinks=False):
        self.paths = [searchpath] if isinstance(searchpath, (str, os.PathLike)) else list(searchpath)

    def source(self, name):
        for path in self.paths:
            whole = os.path.join(str(path), name)
            if os.path.isfile(whole):
                return file_text(whole)
        raise TemplateNotFound(name)


def file_text(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


class PackageLoader(FileSystemLoader):
    def __init__(self, package_name, package_path="templates", encoding="utf-8"):
        package = importlib.import_module(package_name)
        self.paths = [os.path.join(os.path.dirname(package.__file__), package_path)]


class DictLoader(BaseLoader):
    def __init__(self, mapping):
        self.mapping = mapping

    def source(self, name):
        if name not in self.mapping:
            raise TemplateNotFound(name)
        return self.mapping[name]


class Environment:
    def __init__(self, loader=None):
        self.loader = loader

    def get_template(self, name, parent=None, globals=None):
        return Template(self.loader.source(name))

    def select_template(self, names, parent=None, globals=None):
        for name in names:
            try:
                return self.get_template(name)
            except TemplateNotFound:
                continue
        raise TemplateNotFound(names[-1])

    def from_string(self, source):
        return Template(source)


class Missing:
    def __str__(self):
        return ""


class Template:
    def __init__(self, source):
        self.body = jinja2.Environment().parse(source).body

    def render(self, *args, **kwargs):
        scope = {}
        for arg in args:
            scope.update(arg)
        scope.update(kwargs)
        return rendered(self.body, scope)


def rendered(nodes, scope):
    out = ""
    for node in nodes:
        kind = type(node).__name__
        if kind == "Output":
            for part in node.nodes:
                if type(part).__name__ == "TemplateData":
                    out = out + part.data
                else:
                    out = out + str(value(part, scope))
        elif kind == "For":
            names = [node.target.name] if type(node.target).__name__ == "Name" else [x.name for x in node.target.items]
            for item in value(node.iter, scope):
                inner = dict(scope)
                if type(node.target).__name__ == "Name":
                    inner[names[0]] = item
                else:
                    for name, x in zip(names, item):
                        inner[name] = x
                out = out + rendered(node.body, inner)
        elif kind == "If":
            if value(node.test, scope):
                out = out + rendered(node.body, scope)
            elif node.elif_:
                out = out + rendered(node.elif_, scope)
            else:
                out = out + rendered(node.else_, scope)
        elif kind == "Assign":
            scope[node.target.name] = value(node.node, scope)
        else:
            raise NotImplementedError("template: " + kind)
    return out


def value(node, scope):
    kind = type(node).__name__
    if kind == "Const":
        return node.value
    if kind == "Name":
        return scope[node.name] if node.name in scope else Missing()
    if kind == "Getattr":
        whole = value(node.node, scope)
        if hasattr(whole, node.attr):
            return getattr(whole, node.attr)
        return whole[node.attr]
    if kind == "Getitem":
        return value(node.node, scope)[value(node.arg, scope)]
    if kind == "Slice":
        return slice(*[None if x is None else value(x, scope) for x in (node.start, node.stop, node.step)])
    if kind == "Call":
        return value(node.node, scope)(*[value(a, scope) for a in node.args], **{k.key: value(k.value, scope) for k in node.kwargs})
    if kind == "Filter":
        return filtered(node.name, value(node.node, scope), [value(a, scope) for a in node.args])
    if kind == "Concat":
        out = ""
        for part in node.nodes:
            out = out + str(value(part, scope))
        return out
    if kind == "Neg":
        return -value(node.node, scope)
    if kind == "Not":
        return not value(node.node, scope)
    if kind in ("Add", "Sub", "Mul", "Div", "FloorDiv", "Mod", "Pow", "And", "Or"):
        a, b = value(node.left, scope), value(node.right, scope)
        return binary(kind, a, b)
    if kind == "Compare" and len(node.ops) == 1:
        return compared(node.ops[0].op, value(node.expr, scope), value(node.ops[0].expr, scope))
    raise NotImplementedError("template: " + kind)


def binary(kind, a, b):
    if kind == "Add":
        return a + b
    if kind == "Sub":
        return a - b
    if kind == "Mul":
        return a * b
    if kind == "Div":
        return a / b
    if kind == "FloorDiv":
        return a // b
    if kind == "Mod":
        return a % b
    if kind == "Pow":
        return a ** b
    if kind == "And":
        return a and b
    return a or b


def compared(op, a, b):
    if op == "eq":
        return a == b
    if op == "ne":
        return a != b
    if op == "lt":
        return a < b
    if op == "lteq":
        return a <= b
    if op == "gt":
        return a > b
    if op == "gteq":
        return a >= b
    if op == "in":
        return a in b
    raise NotImplementedError("template: " + op)


def filtered(name, x, args):
    if name == "round" and len(args) <= 1:
        places = args[0] if args else 0
        return round(x, places)
    if name == "abs" and not args:
        return abs(x)
    if name == "int" and not args:
        return int(x)
    if name == "float" and not args:
        return float(x)
    if name == "string" and not args:
        return str(x)
    if name in ("length", "count") and not args:
        return len(x)
    if name == "safe" and not args:
        return x
    if name == "upper" and not args:
        return str(x).upper()
    if name == "first" and not args:
        return list(x)[0]
    if name == "last" and not args:
        return list(x)[-1]
    raise NotImplementedError("template: " + name)
