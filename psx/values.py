"""Symbolic values that flow through the executed code."""
from fractions import Fraction

from psx.term import Poly, Unsupported, frac, _norm

CUR = [None]  # the active runtime


def rt():
    return CUR[0]


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Sym:
    __slots__ = ()
    __array_priority__ = 1000
    __array_ufunc__ = None

    # Python protocol used by code we do not transform
    def __bool__(self):
        return rt().truth_native(self)

    def __hash__(self):
        return hash(rt().conc(self))

    def __index__(self):
        return rt().conc(self).__index__()

    def __int__(self):
        return int(rt().conc(self))

    def __float__(self):
        return float(rt().conc(self))

    def __complex__(self):
        return complex(rt().conc(self))

    def __str__(self):
        return str(rt().conc(self))

    def __format__(self, spec):
        return format(rt().conc(self), spec)

    def __repr__(self):
        return self._repr()

    def __iter__(self):
        return rt().native_iter(self)

    def __len__(self):
        return rt().conc(rt().m_len(self))

    def __getitem__(self, k):
        return rt().getitem(self, k)

    def __contains__(self, x):
        return bool(rt().cmp("in", x, self))

    def __call__(self, *a, **k):
        return rt().call(self, *a, **k)

    def __round__(self, nd=None):
        return rt().call(round, self) if nd is None else rt().call(round, self, nd)

    def __floor__(self):
        import math
        return rt().call(math.floor, self)

    def __ceil__(self):
        import math
        return rt().call(math.ceil, self)

    def __trunc__(self):
        import math
        return rt().call(math.trunc, self)

    def __abs__(self):
        return rt().call(abs, self)

    def __neg__(self):
        return rt().uop("-", self)

    def __pos__(self):
        return rt().uop("+", self)

    def __invert__(self):
        return rt().uop("~", self)

    def __divmod__(self, o):
        return rt().call(divmod, self, o)


def _bin(op):
    def f(self, o):
        return rt().bop(op, self, o)

    def r(self, o):
        return rt().bop(op, o, self)

    return f, r


for _n, _o in {
    "add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%",
    "pow": "**", "lshift": "<<", "rshift": ">>", "and": "&", "or": "|", "xor": "^",
}.items():
    _f, _r = _bin(_o)
    setattr(Sym, f"__{_n}__", _f)
    setattr(Sym, f"__r{_n}__", _r)


def _cmpm(op):
    return lambda self, o: rt().cmp(op, self, o)


for _n, _o in {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}.items():
    setattr(Sym, f"__{_n}__", _cmpm(_o))
# defining __eq__ via setattr keeps __hash__ defined above


class SymBool(Sym):
    __slots__ = ("lit", "np")

    def __init__(self, lit, np=False):
        self.lit = lit
        self.np = np

    def _repr(self):
        return f"SymBool({self.lit})"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return rt().getattr(self, name)


class SymNum(Sym):
    """kind 'i' (int) or 'f' (float); np: numpy scalar flavour."""

    __slots__ = ("_poly", "kind", "np", "alts", "bits")

    def __init__(self, poly, kind, np=False, alts=None, bits=None):
        self._poly = poly
        self.kind = kind
        self.np = np
        self.alts = alts
        self.bits = bits

    @property
    def poly(self):
        if self._poly is None:
            ctx = rt().ctx
            if self.bits is not None:
                tot = {}
                p = ctx.const(0)
                bs, sign = self.bits
                for i, b in enumerate(bs):
                    p = p + ctx.b2i(b).scale(1 << i)
                p = p - ctx.b2i(sign).scale(1 << len(bs))
                self._poly = p
            else:
                ps = [(l, rt().num(v)) for l, v in self.alts]
                # what the alternatives share stays unguarded
                p = base = ps[0][1] if any(isinstance(v, Sym) for _, v in self.alts) else ctx.const(0)
                for l, vp in ps:
                    p = p + ctx.b2i(l) * (vp - base)
                self._poly = p
        return self._poly

    def _repr(self):
        return f"SymNum({self.kind},{self.poly!r})"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return rt().getattr(self, name)


class SymUnion(Sym):
    """Guarded alternatives [(lit, value)]; the literals are exclusive."""

    __slots__ = ("alts", "_items")

    def __init__(self, alts):
        self.alts = alts
        self._items = None

    def _repr(self):
        return "SymUnion"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return rt().getattr(self, name)


class SymStr(Sym):
    """String built from concrete and symbolic parts."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def _repr(self):
        return f"SymStr({self.parts!r})"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return rt().getattr(self, name)


class SList(list):
    """list whose items may be present only under a literal."""

    __slots__ = ("guards", "cg")

    def __init__(self, values=(), guards=None, cg=None):
        list.__init__(self, values)
        if guards is not None and all(g == 1 for g in guards):
            guards = None
        self.guards = guards
        r = rt()
        self.cg = cg if cg is not None else (r.abs() if r is not None else 1)

    def pairs(self):
        if self.guards is None:
            return [(1, v) for v in list.__iter__(self)]
        return list(zip(self.guards, list.__iter__(self)))

    # native protocol (library code): only when presence is definite
    def _definite(self):
        if self.guards is not None:
            rt().make_definite(self)
        return self

    def __iter__(self):
        if self.guards is not None:
            rt().make_definite(self)
        return list.__iter__(self)

    def __len__(self):
        if self.guards is not None:
            n = rt().m_len(self)
            return n if isinstance(n, int) else rt().conc(n)
        return list.__len__(self)

    def rawlen(self):
        return list.__len__(self)

    def __reduce__(self):
        return (list, (list(self._definite()),))

    def __deepcopy__(self, memo):
        import copy

        return SList([copy.deepcopy(v, memo) for v in list.__iter__(self)], None if self.guards is None else list(self.guards))

    def __copy__(self):
        return SList(list.__iter__(self), None if self.guards is None else list(self.guards))

    def __hash__(self):
        raise TypeError("unhashable type: 'list'")

    def __eq__(self, o):
        r = rt().cmp("==", self, o)
        return r

    def __ne__(self, o):
        return rt().not_(rt().cmp("==", self, o))

    def __getitem__(self, k):
        return rt().getitem(self, k)

    def __setitem__(self, k, v):
        return rt().setitem(self, k, v)

    def __delitem__(self, k):
        return rt().delitem(self, k)

    def __contains__(self, x):
        return bool(rt().cmp("in", x, self))

    def __add__(self, o):
        return rt().bop("+", self, o)

    def __radd__(self, o):
        return rt().bop("+", o, self)

    def __mul__(self, o):
        return rt().bop("*", self, o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    # methods (called through rt.call or natively)
    def _set(self, values, guards):
        if guards is not None and all(g == 1 for g in guards):
            guards = None
        list.__setitem__(self, slice(None), values)
        self.guards = guards

    def append(self, v):
        r = rt()
        a = r.abs()
        if a == 0:
            return None
        if a == self.cg or a == 1:
            list.append(self, v)
            if self.guards is not None:
                self.guards.append(1)
        else:
            if self.guards is None:
                self.guards = [1] * list.__len__(self)
            list.append(self, v)
            self.guards.append(a)
        return None

    def extend(self, it):
        r = rt()
        if isinstance(it, SList) and it is self:
            it = SList(list.__iter__(self), self.guards)
        for g, v in r.iterate(it):
            if g == 1:
                self.append(v)
            else:
                with r.under(g) as live:
                    if live:
                        self.append(v)
        return None

    def pop(self, i=-1):
        r = rt()
        if isinstance(i, Sym) or (i not in (0, -1)):
            i = r.conc(i)
            if i not in (0, -1) or self.guards is not None:
                vals = r.positional_full(self)
                if vals is None:
                    r.make_definite(self)
                    vals = list(list.__iter__(self))
                r.definite()
                try:
                    v = vals.pop(i)
                except IndexError as e:
                    r.raise_under(r.abs(), e)
                    return UNDEF
                self._set(vals, None)
                return v
        ctx = r.ctx
        n = list.__len__(self)
        rem = a = r.abs()
        if n and self.guards is None and (a == self.cg or a == 1):
            v = list.pop(self, i)
            return v
        gs = [1] * n if self.guards is None else self.guards
        alts = []
        order = range(n - 1, -1, -1) if i == -1 else range(n)
        for j in order:
            if rem == 0:
                break
            g = gs[j]
            p = ctx.land(rem, g)
            if p != 0:
                alts.append((p, list.__getitem__(self, j)))
                gs[j] = ctx.land(g, p ^ 1)
            rem = ctx.land(rem, g ^ 1)
        if rem != 0:
            r.raise_under(rem, IndexError("pop from empty list"))
        keep = [j for j in range(n) if gs[j] != 0]
        self._set([list.__getitem__(self, j) for j in keep], [gs[j] for j in keep])
        if not alts:
            return UNDEF
        v = alts[-1][1]
        for g, x in reversed(alts[:-1]):
            v = r.ite(g, x, v)
        return v

    def insert(self, i, v):
        r = rt()
        i = r.conc(i)
        a = r.abs()
        if self.guards is not None:
            r.make_definite(self)
        if a == self.cg or a == 1:
            list.insert(self, i, v)
            return
        vals = list(list.__iter__(self))
        n = len(vals)
        if i < 0:
            i = max(0, n + i)
        i = min(i, n)
        self._set(vals[:i] + [v] + vals[i:], [1] * i + [a] + [1] * (n - i))

    def assign_under(self, a, values, guards):
        """content becomes (values, guards) under literal a"""
        r = rt()
        ctx = r.ctx
        if a == self.cg or a == 1:
            self._set(values, guards)
            return
        n = list.__len__(self)
        if self.guards is None and (guards is None or all(g == 1 for g in guards)) and n == len(values):
            self._set([r.ite(a, x, y) for x, y in zip(values, list.__iter__(self))], None)
            return
        og = [1] * n if self.guards is None else self.guards
        ng = [1] * len(values) if guards is None else guards
        vs, gs = [], []
        for g, v in zip(og, list.__iter__(self)):
            t = ctx.land(g, a ^ 1)
            if t != 0:
                vs.append(v)
                gs.append(t)
        for g, v in zip(ng, values):
            t = ctx.land(g, a)
            if t != 0:
                vs.append(v)
                gs.append(t)
        self._set(vs, gs)

    def reverse(self):
        a = rt().abs()
        self.assign_under(a, list(list.__iter__(self))[::-1], None if self.guards is None else self.guards[::-1])

    def sort(self, key=None, reverse=False):
        r = rt()
        s = r.call(sorted, self, key=key, reverse=reverse)
        self.assign_under(r.abs(), list(list.__iter__(s)), s.guards)

    def copy(self):
        return SList(list.__iter__(self), None if self.guards is None else list(self.guards))

    def clear(self):
        self.assign_under(rt().abs(), [], None)

    def index(self, x, *a):
        r = rt()
        i = 0
        ctx = r.ctx
        rem = r.abs()
        res = None
        alts = []
        pos = ctx.const(0)
        for g, v in self.pairs():
            e = ctx.land(r.truth(r.cmp("==", v, x)), g)
            h = ctx.land(rem, e)
            if h != 0:
                alts.append((h, r.mknum(pos, "i")))
            rem = ctx.land(rem, e ^ 1)
            pos = pos + ctx.b2i(g)
            if rem == 0:
                break
        if rem != 0:
            r.raise_under(rem, ValueError(f"{x!r} is not in list"))
        if not alts:
            return UNDEF
        v = alts[-1][1]
        for g, y in reversed(alts[:-1]):
            v = r.ite(g, y, v)
        return v

    def count(self, x):
        r = rt()
        tot = r.ctx.const(0)
        for g, v in self.pairs():
            tot = tot + r.ctx.b2i(r.ctx.land(g, r.truth(r.cmp("==", v, x))))
        return r.mknum(tot, "i")

    def remove(self, x):
        r = rt()
        i = r.conc(self.index(x))
        if i is UNDEF:
            return
        r.delitem(self, i)


class GenObj:
    """Iterator of (guard, value); what every generator / iterator becomes."""

    def __init__(self, src, exc=None, unordered=False, sized=None):
        self.src = iter(src)
        self.exc = exc  # terminal exception
        self.unordered = unordered
        self.buf = []

    def __iter__(self):
        return self

    def pull(self):
        """next (guard, value) or None"""
        if self.buf:
            return self.buf.pop(0)
        try:
            return next(self.src)
        except StopIteration:
            if self.exc is not None:
                e, self.exc = self.exc, None
                raise e
            return None

    def __next__(self):
        r = rt()
        while True:
            x = self.pull()
            if x is None:
                raise StopIteration
            g, v = x
            if g == 1 or r.decide_lit(g):
                return v

    def close(self):
        self.src = iter(())
        self.buf = []

    def send(self, v):
        if v is None:
            return next(self)
        raise Unsupported("generator.send")


class SRange:
    """range with symbolic bounds over few values: guarded ints."""


class SDict:
    """dict / defaultdict / Counter / OrderedDict / SortedDict with guarded entries."""

    def __init__(self, kind="dict", factory=None):
        self.kind = kind
        self.default_factory = factory
        self.e = {}  # concrete key -> [presence, value]
        self.sk = []  # symbolic keys: [key, presence, value]
        self.unordered = False
        self.ev = {}  # concrete key -> [[time, literal of its insertion at that time]]
        self.clock = 0
        r = rt()
        self.cg = r.abs() if r is not None else 1

    # -- helpers --------------------------------------------------------------
    def _sorted(self):
        return self.kind == "SortedDict"

    def entries(self):
        """[(presence, key, value)] in iteration order"""
        if self.sk:
            ent = [(p, k, v) for k, (p, v) in self.e.items()] + [(p, k, v) for k, p, v in self.sk]
            if self._sorted():
                ent = rt().sort_entries(ent)
            return ent
        ks = list(self.e)
        if self._sorted():
            ks.sort()
        return [(self.e[k][0], k, self.e[k][1]) for k in ks]


    def in_order(self):
        """entries in the order of their insertion; a key inserted at different
        times on different inputs has one entry per time.  Beyond the limit
        the order of first insertion is taken, which witnesses validate."""
        if not self.unordered or self.sk or self._sorted():
            return self.entries()
        evs = []
        for k, c in self.e.items():
            evs += [(t, l, k, c) for t, l in self.ev.get(k, [(0, 1)])]
        if len(evs) > 2 * len(self.e) + 2:
            return self.entries()
        ctx = rt().ctx
        evs.sort(key=lambda x: x[0])
        return [(ctx.land(l, c[0]), k, c[1]) for t, l, k, c in evs]

    def _event(self, key, lit):
        self.clock += 1
        self.ev.setdefault(key, []).append([self.clock, lit])

    def cells(self, key, insert=False):
        """[(lit, cell or None, key)] alternatives for a key lookup; the
        literals are exclusive and cover the current guard."""
        r = rt()
        ctx = r.ctx
        if self.sk or (r.is_sym(key) and r.expand_key(key) is None):
            # compare with every stored key (forks)
            ent = [(k, c) for k, c in self.e.items()] + [(c[0], c) for c in self.sk]
            if not self.sk and r.is_sym(key) and not insert:
                # lookup of a wide symbolic key among concrete ones: no fork
                out, rest = [], r.abs()
                for k, c in ent:
                    l = r.truth(r.cmp("==", key, k))
                    t = ctx.land(rest, l)
                    if t != 0:
                        out.append((t, c, k))
                    rest = ctx.land(rest, l ^ 1)
                if rest != 0:
                    out.append((rest, None, key))
                return out
            for k, c in ent:
                if r.decide(r.cmp("==", key, k)):
                    return [(1, c[-2:] if False else c, k)]
            return [(1, None, key)]
        if not r.is_sym(key):
            c = self.e.get(key)
            return [(1, c, key)]
        c = r.expand_key(key)
        ctx.register_group([l for l, _ in c])
        return [(l, self.e.get(k), k) for l, k in c]

    @staticmethod
    def _pv(cell):
        return (cell[0], cell[1]) if len(cell) == 2 else (cell[1], cell[2])

    def _setcell(self, cell, key, lit, value):
        """d[key] = value under the absolute literal lit"""
        r = rt()
        ctx = r.ctx
        if lit == self.cg:
            lit = 1
        if cell is None:
            if r.is_sym(key) and r.expand_key(key) is None:
                self.sk.append([key, lit, value])
            elif r.is_sym(key):
                raise Unsupported("symbolic key cell")
            else:
                hash(key)
                self.e[key] = [lit, value]
                self._event(key, lit)
            return
        off = len(cell) - 2
        p, old = cell[off], cell[off + 1]
        if lit == 1:
            cell[off + 1] = value
        elif p == 0 or ctx.land(p, lit ^ 1) == 0:
            cell[off + 1] = value
        else:
            cell[off + 1] = r.ite(lit, r.restrict(value, lit), old)
        np_ = ctx.lor(p, lit)
        if np_ != p and p != 0 and not self._sorted():
            self.unordered = True
        if np_ != p and off == 0:
            self._event(key, ctx.land(lit, p ^ 1))
        cell[off] = np_

    def get_item(self, key):
        r = rt()
        ctx = r.ctx
        a = r.abs()
        res = []
        for l, c, k in self.cells(key, insert=self.kind in ("defaultdict",)):
            if ctx.land(a, l) == 0:
                continue
            if c is None:
                p, v = 0, None
            else:
                p, v = self._pv(c)
            if p != 0:
                t = ctx.land(l, p)
                if t != 0:
                    res.append((t, v))
            if p != 1:
                m = ctx.land(l, p ^ 1)
                am = ctx.land(a, m)
                if am == 0:
                    continue
                if self.kind == "defaultdict" and self.default_factory is not None:
                    with r.under(m) as live:
                        if live:
                            dv = r.call(self.default_factory)
                            self._setcell(c, k, r.abs(), dv)
                            res.append((m, dv))
                elif self.kind == "Counter":
                    res.append((m, 0))
                else:
                    r.raise_under(am, KeyError(k if not r.is_sym(k) else "<key>"))
        return r.union(res)

    def aug_item(self, key, op, val):
        """d[key] op= val, alternative by alternative"""
        r = rt()
        ctx = r.ctx
        a = r.abs()
        for l, c, k in self.cells(key, insert=True):
            lit = ctx.land(a, l)
            if lit == 0:
                continue
            p, v = (0, None) if c is None else self._pv(c)
            with r.under(l) as live:
                if not live:
                    continue
                lit = r.abs()
                if p == 1 or ctx.land(lit, p ^ 1) == 0:
                    nv = r.iop(op, v, val)
                    self._setcell(c, k, lit, nv)
                elif self.kind == "Counter" or (self.kind == "defaultdict" and self.default_factory is not None):
                    dv = 0 if self.kind == "Counter" else r.call(self.default_factory)
                    if p == 0:
                        base = dv
                    elif self._mutable(dv):
                        # materialise the missing entry first
                        with r.under(p ^ 1) as lv:
                            if lv:
                                self._setcell(c, k, r.abs(), dv)
                        base = self._pv(c)[1]
                    else:
                        base = r.ite(p, v, dv) if not (r.is_num(v) and r.is_num(dv) and dv == 0) else self._zero_absent(p, v)
                    nv = r.iop(op, base, val)
                    if c is None and lit != self.cg and lit != 1 and not r.is_sym(dv) and r.is_num(dv) and r.is_num(nv):
                        nv = r.ite(lit, nv, dv)  # the absent entry holds the default
                    self._setcell(c, k, lit, nv)
                else:
                    am = ctx.land(lit, p ^ 1)
                    r.raise_under(am, KeyError(k if not r.is_sym(k) else "<key>"))
                    if p != 0 and r.guard != 0:
                        self._setcell(c, k, r.abs(), r.iop(op, v, val))

    def _zero_absent(self, p, v):
        # the value of an absent Counter / int-default entry is kept at 0
        r = rt()
        if isinstance(v, SymNum) and v.alts is None:
            q = r.ctx.b2i(p) * v.poly if len(v.poly.terms) < 40 else None
            if q is not None and q == v.poly:
                return v
        return r.ite(p, v, 0)

    @staticmethod
    def _mutable(v):
        return isinstance(v, (list, dict, set, SDict, SSet)) or hasattr(v, "__dict__") and not callable(v)

    def set_item(self, key, value):
        r = rt()
        ctx = r.ctx
        a = r.abs()
        for l, c, k in self.cells(key, insert=True):
            lit = ctx.land(a, l)
            if lit == 0:
                continue
            self._setcell(c, k, lit, value)

    def del_item(self, key):
        r = rt()
        ctx = r.ctx
        a = r.abs()
        for l, c, k in self.cells(key):
            lit = ctx.land(a, l)
            if lit == 0:
                continue
            p = 0 if c is None else self._pv(c)[0]
            miss = ctx.land(lit, p ^ 1)
            if miss != 0 and self.kind != "Counter":
                r.raise_under(miss, KeyError(k if not r.is_sym(k) else "<key>"))
                lit = ctx.land(lit, p)
            if c is None:
                continue
            if lit == self.cg:
                lit = 1
            np_ = ctx.land(p, lit ^ 1)
            if np_ == 0:
                if len(c) == 2:
                    del self.e[k]
                    self.ev.pop(k, None)
                else:
                    self.sk = [x for x in self.sk if x is not c]
            else:
                c[len(c) - 2] = np_
                for e in self.ev.get(k, ()) if len(c) == 2 else ():
                    e[1] = ctx.land(e[1], lit ^ 1)

    def contains(self, key):
        r = rt()
        ctx = r.ctx
        out = 0
        for l, c, k in self.cells(key):
            if c is not None:
                out = ctx.lor(out, ctx.land(l, self._pv(c)[0]))
        return r.mkbool(out)

    def length(self):
        r = rt()
        tot = r.ctx.const(0)
        for p, k, v in self.entries():
            tot = tot + r.ctx.b2i(p)
        return r.mknum(tot, "i")

    # -- Python-level protocol / methods ---------------------------------------
    def __getitem__(self, k):
        return self.get_item(k)

    def __setitem__(self, k, v):
        self.set_item(k, v)

    def __delitem__(self, k):
        self.del_item(k)

    def __contains__(self, k):
        return bool(self.contains(k))

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else rt().conc(n)

    def __iter__(self):
        return iter(self.keys())

    def __eq__(self, o):
        return rt().cmp("==", self, o)

    __hash__ = None

    def __repr__(self):
        return f"SDict[{self.kind}]({[(p, k, v) for p, k, v in self.entries()]!r})"

    def keys(self):
        return DView(self, "k")

    def values(self):
        return DView(self, "v")

    def items(self):
        return DView(self, "i")

    def get(self, key, default=None):
        r = rt()
        ctx = r.ctx
        res = []
        rest = 1
        for l, c, k in self.cells(key):
            if c is not None:
                p, v = self._pv(c)
                t = ctx.land(l, p)
                if t != 0:
                    res.append((t, v))
                    rest = ctx.land(rest, t ^ 1)
        if rest != 0:
            res.append((rest, default))
        return r.union(res)

    def setdefault(self, key, default=None):
        r = rt()
        pres = r.truth(self.contains(key))
        if pres != 1:
            with r.under(pres ^ 1) as live:
                if live:
                    self.set_item(key, default)
        return SDict._plain_get(self, key)

    def _plain_get(self, key):
        k = self.kind
        self.kind = "dict"
        try:
            return self.get_item(key)
        finally:
            self.kind = k

    def pop(self, key, *default):
        r = rt()
        if self.kind == "SortedDict" and not default:
            pass
        pres = r.truth(self.contains(key))
        if default:
            v = self.get(key, default[0])
            if pres != 0:
                with r.under(pres) as live:
                    if live:
                        self.del_item(key)
            return v
        v = self._plain_get(key)
        k, self.kind = self.kind, "dict" if self.kind == "Counter" else self.kind
        try:
            self.del_item(key)
        finally:
            self.kind = k
        return v

    def popitem(self, index=-1):
        r = rt()
        ent = self.entries()
        r.definite()
        r.make_definite(self)
        ent = self.entries()
        if not ent:
            raise KeyError("popitem(): dictionary is empty")
        p, k, v = ent[index]
        self.del_item(k)
        return (k, v)

    def update(self, *a, **kw):
        r = rt()
        for x in a:
            if self.kind == "Counter":
                if isinstance(x, (SDict, dict)):
                    for g, (k, v) in r.iterate(r.call(r.getattr(x, "items"))):
                        with r.under(g) as live:
                            if live:
                                self.aug_item(k, "+", v)
                else:
                    for g, k in r.iterate(x):
                        with r.under(g) as live:
                            if live:
                                self.aug_item(k, "+", 1)
            elif isinstance(x, SDict):
                for p, k, v in x.entries():
                    with r.under(p) as live:
                        if live:
                            self.set_item(k, v)
            elif isinstance(x, dict) or hasattr(x, "keys"):
                for g, k in r.iterate(r.call(x.keys)):
                    with r.under(g) as live:
                        if live:
                            self.set_item(k, r.getitem(x, k))
            else:
                for g, kv in r.iterate(x):
                    with r.under(g) as live:
                        if live:
                            k, v = r.unpack(kv, 2, -1)
                            self.set_item(k, v)
        for k, v in kw.items():
            self.set_item(k, v)

    def clear(self):
        for p, k, v in self.entries():
            self.del_item(k)

    def copy(self):
        d = SDict(self.kind, self.default_factory)
        d.e = {k: list(c) for k, c in self.e.items()}
        d.sk = [list(c) for c in self.sk]
        d.unordered = self.unordered
        d.ev = {k: [list(x) for x in v] for k, v in self.ev.items()}
        d.clock = self.clock
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        d = self.copy()
        for c in list(d.e.values()) + d.sk:
            c[-1] = copy.deepcopy(c[-1], memo)
        return d

    def most_common(self, n=None):
        r = rt()
        items = r.call(sorted, self.items(), key=lambda kv: kv[1], reverse=True)
        return items if n is None else r.getitem(items, slice(0, n))

    def elements(self):
        r = rt()
        out = SList()
        for p, k, v in self.entries():
            for _ in range(r.conc(r.ite(p, v, 0))):
                out.append(k)
        return GenObj(out.pairs())

    def total(self):
        return rt().call(sum, self.values())

    def subtract(self, x):
        r = rt()
        for g, k in r.iterate(x):
            with r.under(g) as live:
                if live:
                    self.aug_item(k, "-", 1)

    def move_to_end(self, k, last=True):
        rt().make_definite(self)
        c = self.e.pop(k)
        if last:
            self.e[k] = c
        else:
            self.e = {k: c, **self.e}

    # SortedDict extras
    def bisect_left(self, key):
        r = rt()
        tot = r.ctx.const(0)
        for p, k, v in self.entries():
            tot = tot + r.ctx.b2i(r.ctx.land(p, r.truth(r.cmp("<", k, key))))
        return r.mknum(tot, "i")

    def bisect_right(self, key):
        r = rt()
        tot = r.ctx.const(0)
        for p, k, v in self.entries():
            tot = tot + r.ctx.b2i(r.ctx.land(p, r.truth(r.cmp("<=", k, key))))
        return r.mknum(tot, "i")

    bisect = bisect_right

    def peekitem(self, index=-1):
        r = rt()
        return r.getitem(SList([(k, v) for p, k, v in self.entries()], [p for p, k, v in self.entries()]), index)

    def irange(self, minimum=None, maximum=None, inclusive=(True, True), reverse=False):
        r = rt()
        out = []
        for p, k, v in self.entries():
            l = p
            if minimum is not None:
                l = r.ctx.land(l, r.truth(r.cmp(">=" if inclusive[0] else ">", k, minimum)))
            if maximum is not None:
                l = r.ctx.land(l, r.truth(r.cmp("<=" if inclusive[1] else "<", k, maximum)))
            if l != 0:
                out.append((l, k))
        return GenObj(out[::-1] if reverse else out)


class DView:
    def __init__(self, d, what):
        self.d = d
        self.what = what

    def pairs(self):
        out = []
        for p, k, v in self.d.in_order():
            if p != 0:
                out.append((p, k if self.what == "k" else v if self.what == "v" else (k, v)))
        return out

    def __iter__(self):
        return GenObj(self.pairs(), unordered=self.d.unordered)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        return bool(rt().cmp("in", x, self))

    def __getitem__(self, i):
        return rt().getitem(SList([v for p, v in self.pairs()], [p for p, v in self.pairs()]), i)

    def __reversed__(self):
        return GenObj(self.pairs()[::-1], unordered=self.d.unordered)


class SSet:
    """set over guarded elements (kept as an SDict of keys)."""

    def __init__(self, it=()):
        self.d = SDict("dict")
        self.d.unordered = True
        r = rt()
        for g, v in r.iterate(it):
            with r.under(g) as live:
                if live:
                    self.d.set_item(v, None)

    def pairs(self):
        return [(p, k) for p, k, v in self.d.entries() if p != 0]

    def add(self, v):
        self.d.set_item(v, None)

    def discard(self, v):
        self.d.pop(v, None)

    def remove(self, v):
        self.d.pop(v)

    def update(self, *its):
        r = rt()
        for it in its:
            for g, v in r.iterate(it):
                with r.under(g) as live:
                    if live:
                        self.add(v)

    def copy(self):
        s = SSet()
        s.d = self.d.copy()
        return s

    def contains(self, v):
        return self.d.contains(v)

    def length(self):
        return self.d.length()

    def _op(self, o, keep):
        r = rt()
        out = SSet()
        for p, k in self.pairs():
            l = r.ctx.land(p, keep(k))
            if l != 0:
                with r.under(l) as live:
                    if live:
                        out.add(k)
        return out

    def union(self, *os):
        s = self.copy()
        s.update(*os)
        return s

    def intersection(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return self._op(o, lambda k: rt().truth(o.contains(k)))

    def difference(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return self._op(o, lambda k: rt().truth(o.contains(k)) ^ 1)

    def issubset(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return rt().cmp("==", self.difference(o).length(), 0)

    def issuperset(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return o.issubset(self)

    def isdisjoint(self, o):
        return rt().cmp("==", self.intersection(o).length(), 0)

    __or__ = union
    __and__ = intersection
    __sub__ = difference

    def __iter__(self):
        return GenObj(self.pairs(), unordered=True)

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else rt().conc(n)

    def __contains__(self, x):
        return bool(self.contains(x))

    def pop(self):
        r = rt()
        r.make_definite(self.d)
        k, _ = self.d.popitem()
        return k

    def __repr__(self):
        return f"SSet({self.pairs()!r})"
