"""Strings of fixed length whose characters are symbolic."""
from psx.term import Unsupported
from psx.values import SList, Sym, SymNum, SymStr, SymUnion, UNDEF, rt


def mk(items):
    items = tuple(items)
    if all(type(x) is str for x in items):
        return "".join(items)
    return Chars(items)


def strlike(v):
    """concrete or symbolic string of a known length: its characters, else None"""
    t = type(v)
    if t is str:
        return tuple(v)
    if t is Chars:
        return v.items
    if t is SymUnion:
        R = rt()
        n = None
        alts = []
        for l, x in v.alts:
            if R.ctx.land(R.abs(), l) == 0:
                continue
            c = strlike(x) if type(x) in (str, Chars) else None
            if c is None or (n is not None and len(c) != n):
                return None
            n = len(c)
            alts.append((l, c))
        if not alts:
            return None
        return tuple(R.union([(l, c[i]) for l, c in alts]) for i in range(n))
    if t is SymStr:
        out = []
        for p in v.parts:
            c = strlike(p) if not isinstance(p, tuple) else None
            if c is None:
                return None
            out.extend(c)
        return tuple(out)
    return None


class Chars:
    __slots__ = ("items",)
    __hash__ = None

    def __init__(self, items):
        self.items = tuple(items)

    # engine interface
    def is_sym(self):
        return True

    def truth(self):
        return len(self.items) > 0

    def merge(self, c, b):
        y = strlike(b)
        if y is None or len(y) != len(self.items):
            return None
        R = rt()
        return mk(R.ite(c, p, q) for p, q in zip(self.items, y))

    def mergekey(self):
        return len(self.items)

    def cases(self, cap):
        c = rt().cases(tuple(self.items), cap)
        return None if c is None else [(l, "".join(x)) for l, x in c]

    def conc(self):
        R = rt()
        return "".join(R.conc(x) for x in self.items)

    def binop(self, op, a, b):
        R = rt()
        if op == "+":
            x, y = strlike(a), strlike(b)
            if x is not None and y is not None:
                return mk(x + y)
            if isinstance(a, (str, SymStr, Chars)) and isinstance(b, (str, SymStr, Chars)):
                return R.joinstr(a, b)
            raise TypeError("can only concatenate str to str")
        if op == "*":
            s, n = (a, b) if type(a) is Chars else (b, a)
            return mk(s.items * max(R.conc(n), 0))
        return R.bop(op, R.conc(a), R.conc(b))

    def unop(self, op):
        raise TypeError("bad operand type for unary operator: 'str'")

    def compare(self, op, a, b):
        R = rt()
        x, y = strlike(a), strlike(b)
        if op in ("==", "!="):
            if x is None or y is None:
                if not isinstance(a, (str, Sym, Chars)) or not isinstance(b, (str, Sym, Chars)):
                    return op == "!="
                return R.cmp(op, R.conc(a), R.conc(b))
            if len(x) != len(y):
                return op == "!="
            l = R.ctx.land_all([R.truth(R.cmp("==", p, q)) for p, q in zip(x, y)])
            return R.mkbool(l if op == "==" else l ^ 1)
        if x is None or y is None:
            return R.cmp(op, R.conc(a), R.conc(b))
        lt, eq = 0, 1
        for p, q in zip(x, y):
            lt = R.ctx.lor(lt, R.ctx.land(eq, R.truth(R.cmp("<", p, q))))
            eq = R.ctx.land(eq, R.truth(R.cmp("==", p, q)))
        if len(x) < len(y):
            lt, eq = R.ctx.lor(lt, eq), 0
        elif len(x) > len(y):
            eq = 0
        return R.mkbool({"<": lt, "<=": R.ctx.lor(lt, eq), ">": R.ctx.lor(lt, eq) ^ 1, ">=": lt ^ 1}[op])

    def contains(self, x):
        return rt().mkbool(rt().ctx.lor_all([l for _, l in self._hits(x)]))

    def _hits(self, x):
        R = rt()
        y = strlike(x)
        if y is None:
            y = tuple(R.conc(x))
        n, m = len(self.items), len(y)
        return [(i, R.ctx.land_all([R.truth(R.cmp("==", p, q)) for p, q in zip(self.items[i:i + m], y)])) for i in range(n - m + 1)]

    def getitem(self, k):
        R = rt()
        if isinstance(k, slice):
            return mk(self.items[R.conc(k) if R.is_sym(k) else k])
        if R.is_sym(k):
            return R._index_sym(list(self.items), k)
        return self.items[k]

    def iter_pairs(self):
        return ((1, x) for x in self.items)

    def length(self):
        return len(self.items)

    # used by plain Python code of the engine
    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        return self.getitem(k)

    def __bool__(self):
        return len(self.items) > 0

    def __add__(self, o):
        return self.binop("+", self, o)

    def __radd__(self, o):
        return self.binop("+", o, self)

    def __mul__(self, o):
        return self.binop("*", self, o)

    def __eq__(self, o):
        return rt().cmp("==", self, o)

    def __str__(self):
        raise Unsupported("str() of a symbolic string outside the instrumented code")

    def __repr__(self):
        return f"Chars<{len(self.items)}>"

    # methods of str
    def count(self, x, *a):
        R = rt()
        y = strlike(x)
        if a or y is None or len(y) != 1:
            return self.conc().count(R.conc(x), *[R.conc(v) for v in a])
        out = 0
        for p in self.items:
            out = R.bop("+", out, R.mknum(R.ctx.b2i(R.truth(R.cmp("==", p, y[0]))), "i"))
        return out

    def startswith(self, x, *a):
        R = rt()
        if a or isinstance(x, tuple):
            return self.conc().startswith(R.conc(x), *a)
        y = strlike(x)
        if len(y) > len(self.items):
            return False
        return R.cmp("==", mk(self.items[: len(y)]), x)

    def endswith(self, x, *a):
        R = rt()
        if a or isinstance(x, tuple):
            return self.conc().endswith(R.conc(x), *a)
        y = strlike(x)
        if len(y) > len(self.items):
            return False
        return R.cmp("==", mk(self.items[len(self.items) - len(y):]), x)

    def _find(self, hits):
        R = rt()
        alts, none = [], 1
        for i, l in hits:
            alts.append((R.ctx.land(none, l), i))
            none = R.ctx.land(none, l ^ 1)
        alts.append((none, -1))
        return R.union([x for x in alts if x[0] != 0])

    def find(self, x, *a):
        return self._find(self._hits(x)) if not a else self.conc().find(rt().conc(x), *a)

    def rfind(self, x, *a):
        return self._find(self._hits(x)[::-1]) if not a else self.conc().rfind(rt().conc(x), *a)

    def index(self, x, *a):
        R = rt()
        r = self.find(x, *a)
        bad = R.truth(R.cmp("==", r, -1))
        if bad:
            R.raise_under(bad, ValueError("substring not found"))
        return r

    def zfill(self, w):
        # a sign cannot be told from other first characters here
        R = rt()
        w = R.conc(w)
        if len(self.items) >= w:
            return self
        first = self.items[0]
        alts = [first] if type(first) is str else [x for _, x in first.alts]
        if any(x in "+-" for x in alts):
            return self.conc().zfill(w)
        return mk(("0",) * (w - len(self.items)) + self.items)

    def ljust(self, w, fill=" "):
        return mk(self.items + (fill,) * max(0, rt().conc(w) - len(self.items)))

    def rjust(self, w, fill=" "):
        return mk((fill,) * max(0, rt().conc(w) - len(self.items)) + self.items)

    def replace(self, old, new, *a):
        R = rt()
        if not a and type(old) is str and type(new) is str and len(old) == 1 and len(new) == 1:
            return mk(R.ite(R.truth(R.cmp("==", p, old)), new, p) for p in self.items)
        return self.conc().replace(R.conc(old), R.conc(new), *a)

    def join(self, parts):
        R = rt()
        out = ""
        for i, (g, p) in enumerate(R.iterate(parts)):
            if g != 1 and not R.decide_lit(g):
                continue
            out = R.bop("+", R.bop("+", out, self) if i else out, p)
        return out

    def __getattr__(self, name):
        m = getattr(str, name)  # AttributeError for what strings do not have

        def call(*a, **k):
            R = rt()
            return getattr(self.conc(), name)(*[R.conc(x) for x in a], **{q: R.conc(x) for q, x in k.items()})

        call.__module__ = "psx.chars"
        return call


def binary(v, width=None, fill="0"):
    """digits of a non-negative integer with symbolic bits, or None"""
    R = rt()
    if type(v) is not SymNum or v.kind != "i":
        return None
    b = R.to_bits(v)
    if b is None:
        return None
    bits, sign = b
    if sign != 0:
        return None
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    n = max(len(bits), 1)
    if width is None or width < n or fill != "0":
        return None
    bits += [0] * (width - len(bits))
    return mk(R.ite(l, "1", "0") if l > 1 else str(l) for l in reversed(bits))
