"""Symbolic one-dimensional series / arrays (pandas.Series, numpy.ndarray)."""
import math
import operator

import numpy as np
import pandas as pd

from psx import rt as R
from psx.rt import SYM_CLASSES, SERIES_TYPES
from psx.term import Unsupported
from psx.values import GenObj, SDict, SList, SSet, Sym, SymBool, SymNum, SymStr, SymUnion, UNDEF, rt


def plain(v):
    """numpy scalar -> Python scalar (iteration over a series)"""
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, SymNum) and v.np:
        return SymNum(v._poly, v.kind, False, v.alts, v.bits)
    if isinstance(v, SymBool) and v.np:
        return SymBool(v.lit)
    return v


def tonp(v):
    if type(v) is bool:
        return np.bool_(v)
    if type(v) is int:
        return np.int64(v) if abs(v) < 2 ** 62 else v
    if type(v) is float:
        return np.float64(v)
    if isinstance(v, SymNum) and not v.np:
        return SymNum(v._poly, v.kind, True, v.alts, v.bits)
    if isinstance(v, SymBool) and not v.np:
        return SymBool(v.lit, True)
    return v


class SymCplx:
    """complex number with symbolic parts"""

    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re = re
        self.im = im

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def is_sym(self):
        return rt().is_sym(self.re) or rt().is_sym(self.im)

    def truth(self):
        r = rt()
        return r.or_(r.cmp("!=", self.re, 0), lambda: r.cmp("!=", self.im, 0))

    def merge(self, c, b):
        r = rt()
        return SymCplx(r.ite(c, self.re, b.re), r.ite(c, self.im, b.im))

    def mergekey(self):
        return "c"

    @staticmethod
    def of(v):
        if isinstance(v, SymCplx):
            return v
        if isinstance(v, (complex, np.complexfloating)):
            return SymCplx(float(v.real), float(v.imag))
        return SymCplx(v, 0)

    def binop(self, op, a, b):
        r = rt()
        if not isinstance(a, SymCplx) and type(a) in SYM_CLASSES:
            return a.binop(op, a, b)
        if not isinstance(b, SymCplx) and type(b) in SYM_CLASSES:
            return b.binop(op, a, b)
        x, y = SymCplx.of(a), SymCplx.of(b)
        if op in "+-":
            return SymCplx(r.bop(op, x.re, y.re), r.bop(op, x.im, y.im))
        if op == "*":
            return SymCplx(
                r.bop("-", r.bop("*", x.re, y.re), r.bop("*", x.im, y.im)),
                r.bop("+", r.bop("*", x.re, y.im), r.bop("*", x.im, y.re)),
            )
        if op == "/" and not isinstance(b, SymCplx):
            return SymCplx(r.bop("/", x.re, b), r.bop("/", x.im, b))
        if op == "**" and b == 2:
            return self.binop("*", x, x)
        return R._OPS[op](r.conc(a), r.conc(b))

    def unop(self, op):
        r = rt()
        if op == "-":
            return SymCplx(r.uop("-", self.re), r.uop("-", self.im))
        return self

    def compare(self, op, a, b):
        r = rt()
        x, y = SymCplx.of(a), SymCplx.of(b)
        e = r.and_(r.cmp("==", x.re, y.re), lambda: r.cmp("==", x.im, y.im))
        if op == "==":
            return e
        if op == "!=":
            return r.not_(e)
        raise TypeError("complex numbers are not ordered")

    def conjugate(self):
        return SymCplx(self.re, rt().uop("-", self.im))

    conj = conjugate

    def sqabs(self):
        r = rt()
        return r.bop("+", r.bop("*", self.re, self.re), r.bop("*", self.im, self.im))

    def abs(self):
        return rt().call(math.sqrt, round_poly(self.sqabs()))

    __abs__ = abs

    def conc(self):
        return complex(rt().conc(self.re), rt().conc(self.im))

    def length(self):
        raise TypeError("object of type 'complex' has no len()")

    def iter_pairs(self):
        raise TypeError("'complex' object is not iterable")

    def getitem(self, k):
        raise TypeError("'complex' object is not subscriptable")

    setitem = delitem = contains = getitem


def round_poly(v, digits=9):
    """coefficients of a spectral power, freed of floating point noise"""
    if isinstance(v, SymNum):
        from psx.term import Poly, _norm, frac

        t = {}
        for m, c in v.poly.terms.items():
            c = _norm(frac(round(float(c), digits)))
            if c != 0:
                t[m] = c
        return rt().mknum(Poly(rt().ctx, t), v.kind, v.np)
    return v


class Vec:
    __array_priority__ = 2000
    __array_ufunc__ = None
    __psx_vec__ = True

    def __init__(self, vals, index=None, series=True, name=None, guards=None, dtype=None):
        self.vals = list(vals)
        self.series = series
        if guards is not None and all(g == 1 for g in guards):
            guards = None
        self.guards = guards
        if series and index is not None and isinstance(index, pd.RangeIndex) and index.start == 0 and index.step == 1:
            index = None
        self._index = index
        self.name = name
        self._dtype = dtype

    # ------------------------------------------------------------ engine interface
    def is_sym(self):
        r = rt()
        return self.guards is not None or any(r.is_sym(v) for v in self.vals)

    def truth(self):
        if len(self.vals) == 1 and self.guards is None:
            return self.vals[0]
        raise ValueError("The truth value of a Series is ambiguous.")

    def merge(self, c, b):
        if len(b.vals) != len(self.vals) or self.guards is not None or b.guards is not None:
            return None
        if (self._index is None) != (b._index is None) or (self._index is not None and not self._index.equals(b._index)):
            return None
        if self.series != b.series:
            return None
        r = rt()
        return self.like([r.ite(c, x, y) for x, y in zip(self.vals, b.vals)])

    def mergekey(self):
        if self.guards is not None:
            return id(self)
        return (len(self.vals), self.series, None if self._index is None else tuple(self._index))

    def like(self, vals, dtype=None):
        return Vec(vals, self._index, self.series, self.name, self.guards, dtype)

    def definite(self):
        """make the presence of every element definite (forks)"""
        if self.guards is not None:
            r = rt()
            vs, ix = [], []
            idx = self.idx()
            for i, (g, v) in enumerate(zip(self.guards, self.vals)):
                if r.decide_lit(g):
                    vs.append(v)
                    ix.append(idx[i])
            self.vals = vs
            self.guards = None
            if self.series:
                self._index = pd.Index(ix)
        return self

    def idx(self):
        return self._index if self._index is not None else pd.RangeIndex(len(self.vals))

    def pairs(self):
        if self.guards is None:
            return [(1, v) for v in self.vals]
        return list(zip(self.guards, self.vals))

    def conc(self):
        r = rt()
        self.definite()
        vals = [r.conc(v) for v in self.vals]
        dt = self._dtype if self._dtype is not None and self._dtype != "O" else None
        if self.series:
            if not vals:
                return pd.Series(vals, index=self._index, name=self.name, dtype=dt or "float64")
            s = pd.Series(vals, index=self._index, name=self.name)
            if self._dtype == "O":
                s = s.astype(object)
            elif dt is not None:
                try:
                    s = s.astype(dt)
                except (TypeError, ValueError):
                    pass
            return s
        a = np.array(vals, dtype=None if self._dtype != "O" else object)
        if dt is not None:
            try:
                a = a.astype(dt)
            except (TypeError, ValueError):
                pass
        return a

    @staticmethod
    def of(x):
        if isinstance(x, Vec):
            return x
        if isinstance(x, pd.Series):
            return Vec([plain(v) for v in x], x.index, True, x.name, dtype=x.dtype)
        if isinstance(x, np.ndarray) and x.ndim == 1:
            return Vec([plain(v) for v in x], None, False, dtype=x.dtype)
        if isinstance(x, pd.Index):
            return Vec([plain(v) for v in x], None, False)
        return None

    def _zip(self, a, b, fn, dtype=None):
        """elementwise with broadcasting"""
        x, y = a, b
        ax, ay = Vec.of(a), Vec.of(b)
        if ax is None and isinstance(a, (list, tuple)):
            ax = Vec(a, None, False)
        if ay is None and isinstance(b, (list, tuple)):
            ay = Vec(b, None, False)
        if ax is not None and ay is not None:
            if ax.guards is not None or ay.guards is not None:
                if ax.guards != ay.guards:
                    ax.definite()
                    ay.definite()
            if len(ax.vals) != len(ay.vals):
                if len(ay.vals) == 1 and not ay.series:
                    return ax.like([fn(v, ay.vals[0]) for v in ax.vals], dtype)
                if len(ax.vals) == 1 and not ax.series:
                    return ay.like([fn(ax.vals[0], v) for v in ay.vals], dtype)
            base = ax if ax.series or not ay.series else ay
            if ax.series and ay.series and not ax.idx().equals(ay.idx()):
                # pandas aligns labels
                if ax.idx().is_unique and ay.idx().is_unique:
                    u = ax.idx().union(ay.idx())
                    p = {k: v for k, v in zip(ax.idx(), ax.vals)}
                    q = {k: v for k, v in zip(ay.idx(), ay.vals)}
                    return Vec([fn(p[k], q[k]) if k in p and k in q else math.nan for k in u], u, True)
                raise Unsupported("alignment")
            if len(ax.vals) != len(ay.vals):
                raise ValueError("operands could not be broadcast together")
            return base.like([fn(v, w) for v, w in zip(ax.vals, ay.vals)], dtype)
        if ax is not None:
            return ax.like([fn(v, y) for v in ax.vals], dtype)
        return ay.like([fn(x, v) for v in ay.vals], dtype)

    def binop(self, op, a, b):
        r = rt()
        if op == "@":
            return self.dot(b)
        return self._zip(a, b, lambda v, w: plain(r.bop(op, tonp(v), w)))

    def unop(self, op):
        r = rt()
        if op == "~":
            return self.like([r.not_(v) if isinstance(v, (bool, np.bool_, SymBool)) else r.uop("~", v) for v in self.vals])
        return self.like([r.uop(op, v) for v in self.vals])

    def compare(self, op, a, b):
        r = rt()
        if op in ("is", "is not"):
            return r._is(op, a, b)
        return self._zip(a, b, lambda v, w: r.cmp(op, v, w), dtype="bool")

    def contains(self, x):
        r = rt()
        if self.series:
            return r.cmp("in", x, tuple(self.idx()))
        return r.cmp("in", x, SList(self.vals, self.guards))

    def iter_pairs(self):
        return iter([(g, plain(v) if self.series else tonp(v)) for g, v in self.pairs()])

    def length(self):
        if self.guards is None:
            return len(self.vals)
        r = rt()
        tot = r.ctx.const(0)
        for g in self.guards:
            tot = tot + r.ctx.b2i(r.resolve(g))
        return r.mknum(tot, "i")

    def _pos(self, s):
        if self.guards is not None:
            st, sp, step = s.start, s.stop, s.step
            if (st, sp, step) == (None, None, -1):
                ix = self._index[::-1] if self._index is not None else None
                return Vec(self.vals[::-1], ix, self.series, self.name, self.guards[::-1])
            if not self.series:
                l = rt()._list_get(SList(self.vals, self.guards), s)
                return Vec([v for _, v in l.pairs()], None, False, guards=[g for g, _ in l.pairs()])
            self.definite()
        ix = self._index
        n = len(self.vals)
        if self.series:
            full = self.idx()[s]
            ix = full
        return Vec(self.vals[s], ix if self.series else None, self.series, self.name, None, self._dtype)

    def getitem(self, k):
        r = rt()
        if isinstance(k, slice):
            if r.is_sym(k):
                c = r.cases((k.start, k.stop, k.step), 64)
                if c is None:
                    k = r.conc(k)
                else:
                    out = []
                    for l, s in c:
                        with r.under(l) as live:
                            if live:
                                out.append((l, self.getitem(slice(*s))))
                    return r.union(out)
            if self.series:
                if any(isinstance(x, (str, float)) for x in (k.start, k.stop)) or (self._index is not None and self._index.is_floating()):
                    lab = self.idx()
                    pos = pd.Series(range(len(lab)), index=lab)[k]
                    return self._take(list(pos))
                for x in (k.start, k.stop, k.step):
                    if x is not None and not isinstance(x, (int, np.integer)):
                        raise TypeError(f"cannot do slice indexing with {x!r}")
            return self._pos(k)
        if isinstance(k, (Vec, np.ndarray, pd.Series, list)):
            return self._mask(k)
        if isinstance(k, tuple):
            raise Unsupported("multi-dimensional index")
        if self.series:
            return self._label(k)
        return self._at(k)

    def _take(self, pos):
        ix = self.idx()
        return Vec([self.vals[i] for i in pos], ix[pos] if self.series else None, self.series, self.name, None, self._dtype)

    def _mask(self, k):
        r = rt()
        kv = Vec.of(k) if not isinstance(k, list) else Vec(list.__iter__(k), None, False)
        if kv is None:
            raise Unsupported("mask")
        if kv.vals and all(isinstance(v, (bool, np.bool_, SymBool)) for v in kv.vals):
            if len(kv.vals) != len(self.vals):
                raise IndexError("Boolean index has wrong length")
            gs = [r.ctx.land(g, r.truth(m)) for (g, _), m in zip(self.pairs(), kv.vals)]
            keep = [i for i, g in enumerate(gs) if g != 0]
            ix = self.idx()[keep] if self.series else None
            return Vec([self.vals[i] for i in keep], ix, self.series, self.name, [gs[i] for i in keep], self._dtype)
        self.definite()
        if self.series:
            return Vec([self._label(v) for v in kv.vals], pd.Index([r.conc(v) for v in kv.vals]), True)
        return Vec([self._at(v) for v in kv.vals], None, False)

    def _at(self, k):
        """positional element"""
        r = rt()
        if isinstance(k, SymUnion):
            return r.dist(k, self._at)
        self_vals = SList(self.vals, self.guards)
        try:
            return tonp(r._list_get(self_vals, k))
        except IndexError:
            raise IndexError("index out of bounds")

    def _label(self, k):
        r = rt()
        if isinstance(k, SymUnion):
            return r.dist(k, self._label)
        ix = self.idx()
        if self._index is None:
            if isinstance(k, Sym):
                return tonp(r._index_sym(self.vals, k))
            if not isinstance(k, (int, np.integer, float)) or isinstance(k, bool):
                if isinstance(k, bool):
                    k = int(k)
                else:
                    raise KeyError(k)
            if k != int(k) or not 0 <= k < len(self.vals):
                raise KeyError(k)
            if self.guards is not None:
                self.definite()
                return self._label(k)
            return tonp(self.vals[int(k)])
        if isinstance(k, Sym):
            alts = []
            rest = r.abs()
            for l, v in zip(ix, self.vals):
                e = r.truth(r.cmp("==", k, l))
                if r.ctx.land(rest, e) != 0:
                    alts.append((e, v))
                    rest = r.ctx.land(rest, e ^ 1)
            if rest != 0:
                r.raise_under(rest, KeyError(k))
            return tonp(r.union(alts)) if alts else UNDEF
        if self.guards is not None:
            self.definite()
        pos = pd.Series(range(len(ix)), index=ix)[k]
        if isinstance(pos, pd.Series):
            return self._take(list(pos))
        return tonp(self.vals[int(pos)])

    def setitem(self, k, v):
        r = rt()
        if isinstance(k, Vec) or isinstance(v, Vec) or isinstance(k, (slice, list, np.ndarray)):
            if isinstance(k, Vec) and not isinstance(v, (Vec, list, np.ndarray)):
                a = r.abs()
                self.vals = [r.ite(r.ctx.land(a, r.truth(m)), v, x) for m, x in zip(k.vals, self.vals)]
                return
            if isinstance(k, slice):
                l = SList(self.vals, None, cg=1)
                vv = [v] * len(range(*k.indices(len(self.vals)))) if not isinstance(v, (Vec, list, tuple, np.ndarray)) else [x for _, x in r.iterate(v)]
                r._list_set(l, k, vv)
                self.vals = list(list.__iter__(l))
                return
            raise Unsupported("vector assignment")
        if self.series and self._index is not None:
            k = self._index.get_loc(r.conc(k))
        l = SList(self.vals, None, cg=1)
        r._list_set(l, k, v)
        self.vals = list(list.__iter__(l))

    def delitem(self, k):
        raise Unsupported("del series[k]")

    # ------------------------------------------------------------ native protocol
    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else rt().conc(n)

    def __iter__(self):
        return (v for _, v in self.definite().iter_pairs())

    def __getitem__(self, k):
        return self.getitem(k)

    def __setitem__(self, k, v):
        return self.setitem(k, v)

    def __contains__(self, x):
        return bool(self.contains(x))

    def __bool__(self):
        return rt().truth_native(self.truth())

    def __abs__(self):
        return self.abs()

    def __neg__(self):
        return self.unop("-")

    def __invert__(self):
        return self.unop("~")

    def __eq__(self, o):
        return self.compare("==", self, o)

    def __ne__(self, o):
        return self.compare("!=", self, o)

    def __lt__(self, o):
        return self.compare("<", self, o)

    def __le__(self, o):
        return self.compare("<=", self, o)

    def __gt__(self, o):
        return self.compare(">", self, o)

    def __ge__(self, o):
        return self.compare(">=", self, o)

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        cls = pd.Series if self.series else np.ndarray
        if not hasattr(cls, name) and not (self.series and hasattr(pd.Series([0]), name)):
            raise AttributeError(f"'{cls.__name__}' object has no attribute '{name}'")
        return getattr(self.conc(), name)

    # ------------------------------------------------------------ attributes
    @property
    def index(self):
        self.definite()
        return self.idx()

    @property
    def values(self):
        return Vec(self.vals, None, False, None, self.guards, self._dtype)

    array = values

    @property
    def size(self):
        return self.length()

    @property
    def shape(self):
        return (self.length(),)

    ndim = 1

    @property
    def empty(self):
        return rt().cmp("==", self.length(), 0)

    @property
    def dtype(self):
        if self._dtype is not None:
            return np.dtype(self._dtype)
        k = set()
        for v in self.vals:
            if isinstance(v, (SymBool, bool, np.bool_)):
                k.add("b")
            elif isinstance(v, SymNum):
                k.add(v.kind)
            elif isinstance(v, (int, np.integer)):
                k.add("i")
            elif isinstance(v, (float, np.floating)):
                k.add("f")
            elif isinstance(v, (SymCplx, complex)):
                k.add("c")
            elif isinstance(v, SymUnion):
                k |= {"i" if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else "f" if isinstance(x, float) else "b" if isinstance(x, bool) else "O" for _, x in v.alts}
            else:
                k.add("O")
        if k == {"b"}:
            return np.dtype(bool)
        if k == {"i"}:
            return np.dtype("int64")
        if k <= {"i", "f"} and k:
            return np.dtype("float64")
        if k <= {"i", "f", "c"} and k:
            return np.dtype("complex128")
        return np.dtype("O")

    @property
    def iloc(self):
        return _Loc(self, True)

    iat = iloc

    @property
    def loc(self):
        return _Loc(self, False)

    at = loc

    @property
    def real(self):
        return self.like([SymCplx.of(v).re for v in self.vals])

    @property
    def imag(self):
        return self.like([SymCplx.of(v).im for v in self.vals])

    @property
    def T(self):
        return self

    @property
    def is_unique(self):
        r = rt()
        return r.cmp("==", self.nunique(), self.length())

    @property
    def flat(self):
        return GenObj(self.iter_pairs())

    # ------------------------------------------------------------ conversions
    def to_numpy(self, *a, **k):
        return self.values

    def tolist(self):
        return SList([plain(v) for v in self.vals], self.guards)

    to_list = tolist

    def to_dict(self, *a):
        r = rt()
        self.definite()
        d = SDict("dict")
        for k, v in zip(self.idx(), self.vals):
            d.set_item(plain(k), plain(v))
        return d

    def copy(self, deep=True, **k):
        return self.like(list(self.vals), self._dtype)

    def infer_objects(self, *a, **k):
        return self.copy()

    convert_dtypes = infer_objects

    def ravel(self, *a):
        return self.values

    flatten = ravel

    def squeeze(self, *a, **k):
        if len(self.vals) == 1 and self.guards is None:
            return tonp(self.vals[0])
        return self

    def view(self, *a):
        return self

    def rename(self, *a, **k):
        v = self.copy()
        v.name = a[0] if a else None
        return v

    def to_frame(self, *a, **k):
        return self.conc().to_frame(*a, **k)

    def reset_index(self, *a, drop=False, **k):
        if not drop:
            return self.conc().reset_index(*a, **k)
        self.definite()
        return Vec(self.vals, None, True, self.name, None, self._dtype)

    def set_axis(self, labels, *a, **k):
        self.definite()
        return Vec(self.vals, pd.Index(list(labels)), True, self.name)

    def astype(self, t, *a, **k):
        r = rt()
        d = {"int": int, "float": float, "bool": bool, "str": str}.get(t, t) if isinstance(t, str) else t
        if d in (str, object, "object", "O"):
            if d is str:
                return self.like([r.call(str, v) for v in self.vals], "O")
            return self.like(self.vals, "O")
        if isinstance(d, str) and d == "category":
            return self.conc().astype("category")
        dt = np.dtype(d)
        f = {"b": bool, "i": int, "u": int, "f": float}.get(dt.kind)
        if f is None:
            return self.conc().astype(t, *a, **k)
        return self.like([r.call(f, v) for v in self.vals], dt)

    def map(self, f, na_action=None):
        r = rt()
        if isinstance(f, (dict, SDict)):
            if not isinstance(f, SDict):
                d = SDict("dict")
                for k, v in f.items():
                    d.set_item(k, v)
                f = d
            has_default = f.kind in ("defaultdict", "Counter")
            out = []
            for v in self.vals:
                if has_default:
                    out.append(r.getitem(f, v))
                    continue
                out.append(r.call(f.get, v, math.nan))
            return self.like([plain(x) for x in out])
        if isinstance(f, (pd.Series, Vec)):
            return self.map(f.to_dict())
        return self.like([plain(r.call(f, plain(v))) for v in self.vals])

    def apply(self, f, convert_dtype=True, args=(), **k):
        r = rt()
        return self.like([plain(r.call(f, plain(v), *args, **k)) for v in self.vals])

    transform = apply

    def replace(self, to_replace=None, value=None, **k):
        r = rt()
        if isinstance(to_replace, (dict, SDict)) and value is None and not k:
            pr = to_replace.items() if type(to_replace) is dict else [(kk, vv) for _, kk, vv in to_replace.entries()]
            out = []
            for v in self.vals:
                w = v
                for kk, vv in pr:
                    w = r.ite(r.truth(r.cmp("==", v, kk)), vv, w)
                out.append(w)
            return self.like(out)
        if not r.is_sym(to_replace) and not r.is_sym(value) and not isinstance(to_replace, (list, tuple)) and not k:
            return self.like([r.ite(r.truth(r.cmp("==", v, to_replace)), value, v) for v in self.vals])
        if isinstance(to_replace, (list, tuple)) and not k:
            vals = value if isinstance(value, (list, tuple)) else [value] * len(to_replace)
            return self.replace(dict(zip(to_replace, vals)))
        return self.conc().replace(to_replace, value, **k)

    def where(self, c, other=math.nan):
        r = rt()
        cs = Vec.of(c).vals
        os_ = Vec.of(other).vals if Vec.of(other) is not None else [other] * len(cs)
        return self.like([r.ite(r.truth(m), v, o) for m, v, o in zip(cs, self.vals, os_)])

    def mask(self, c, other=math.nan):
        return self.where(Vec.of(c).unop("~"), other)

    def isin(self, xs):
        r = rt()
        return self.like([r.cmp("in", v, xs) for v in self.vals])

    def isna(self):
        return self.like([self._na(v) for v in self.vals])

    isnull = isna

    @staticmethod
    def _na(v):
        r = rt()
        if isinstance(v, SymUnion):
            return r.mkbool(r.ctx.lor_all([l for l, x in v.alts if Vec._na(x) is True]))
        if isinstance(v, Sym):
            return False
        return v is None or (isinstance(v, (float, np.floating)) and v != v) or v is pd.NaT or v is pd.NA

    def notna(self):
        return self.isna().unop("~")

    notnull = notna

    def dropna(self, *a, **k):
        return self._mask(self.notna())

    def fillna(self, value=None, **k):
        r = rt()
        if value is None:
            return self.conc().fillna(value, **k)
        return self.like([r.ite(r.truth(self._na(v)), value, v) for v in self.vals])

    @property
    def hasnans(self):
        r = rt()
        return r.call(any, SList([self._na(v) for v in self.vals], self.guards))

    # ------------------------------------------------------------ reductions
    def sum(self, *a, **k):
        return tonp(rt().call(sum, SList(self.vals, self.guards)))

    def prod(self, *a, **k):
        r = rt()
        p = 1
        for g, v in self.pairs():
            p = r.ite(g, r.bop("*", p, v), p)
        return tonp(p)

    def mean(self, *a, **k):
        r = rt()
        return tonp(r.bop("/", tonp(r.call(sum, SList(self.vals, self.guards))), self.length()))

    def max(self, *a, **k):
        return tonp(rt().call(max, SList(self.vals, self.guards)))

    def min(self, *a, **k):
        return tonp(rt().call(min, SList(self.vals, self.guards)))

    def any(self, *a, **k):
        return tonp(rt().call(any, SList(self.vals, self.guards)))

    def all(self, *a, **k):
        return tonp(rt().call(all, SList(self.vals, self.guards)))

    def count(self, *a):
        r = rt()
        n = 0
        for g, v in self.pairs():
            n = r.bop("+", n, r.mkbool(r.ctx.land(g, r.truth(self._na(v)) ^ 1)))
        return n

    def abs(self):
        r = rt()
        return self.like([r.call(abs, v) for v in self.vals])

    def round(self, nd=0, **k):
        r = rt()
        return self.like([r.call(round, v, nd) for v in self.vals])

    def cumsum(self, *a, **k):
        r = rt()
        self._need()
        out = []
        t = 0
        for i, v in enumerate(self.vals):
            t = v if i == 0 else r.bop("+", t, v)
            if isinstance(t, SymBool):
                t = r.bop("+", t, 0)
            out.append(plain(t))
        return self.like(out)

    def cumprod(self, *a, **k):
        r = rt()
        self._need()
        out = []
        t = 1
        for v in self.vals:
            t = r.bop("*", t, v)
            out.append(t)
        return self.like(out)

    def _cum(self, f):
        r = rt()
        self._need()
        out = []
        for v in self.vals:
            out.append(v if not out else r.call(f, out[-1], v))
        return self.like(out)

    def cummax(self, *a, **k):
        return self._cum(max)

    def cummin(self, *a, **k):
        return self._cum(min)

    def _need(self):
        if self.guards is not None:
            self.definite()

    def diff(self, periods=1):
        if not self.series:
            raise AttributeError("diff")
        r = rt()
        self._need()
        v = self.vals
        return self.like([math.nan if not 0 <= i - periods < len(v) else r.bop("-", v[i], v[i - periods]) for i in range(len(v))])

    def shift(self, periods=1, freq=None, axis=0, fill_value=math.nan):
        self._need()
        v = self.vals
        return self.like([fill_value if not 0 <= i - periods < len(v) else v[i - periods] for i in range(len(v))])

    def unique(self):
        r = rt()
        two = self._two()
        if two is not None:
            return two
        seen = []
        vs, gs = [], []
        for g, v in self.pairs():
            dup = 0
            for h, w in seen:
                dup = r.ctx.lor(dup, r.ctx.land(h, r.truth(r.cmp("==", v, w))))
                if dup == 1:
                    break
            p = r.ctx.land(g, dup ^ 1)
            if p != 0 and (p == 1 or r.feasible([p])):
                seen.append((p, v))
                vs.append(v)
                gs.append(p)
        pos = r.compact(list(zip(gs, vs)))
        pos = [(r.resolve(g), v) for g, v in pos]
        pos = [(g, v) for g, v in pos if g != 0]
        return Vec([v for _, v in pos], None, False, guards=[g for g, _ in pos])

    def _two(self):
        """distinct values of a two-valued series"""
        r = rt()
        if self.guards is not None or len(self.vals) < 3:
            return None
        oh = {}
        for v in self.vals:
            if self._na(v) is not False:
                return None
            c = r.cases(v, 3)
            if c is None:
                return None
            for l, y in c:
                oh.setdefault((type(y), y), []).append(l)
            if len(oh) > 2:
                return None
        if len(oh) != 2:
            return None
        (_, a), (_, b) = oh
        if a == b:
            return None
        first = self.vals[0]
        la, lb = [r.ctx.lor_all(x) for x in oh.values()]
        both = r.resolve(r.ctx.land(la, lb))
        if both == 0:
            return Vec([first], None, False)
        c = dict((y, l) for l, y in r.cases(first, 3))
        other = r.union([(c.get(a, 0), b), (c.get(b, 0), a)])
        return Vec([first, other], None, False, guards=None if both == 1 else [1, both])

    def nunique(self, dropna=True):
        r = rt()
        x = self
        if dropna and any(self._na(v) is not False for v in self.vals):
            x = self.dropna()
        oh = {}
        ok = True
        for g, v in x.pairs():
            c = r.cases(v, 64)
            if c is None:
                ok = False
                break
            for l, y in c:
                oh.setdefault(y, []).append(r.ctx.land(g, l))
        if not ok:
            return x.unique().length()
        n = 0
        for l in oh.values():
            n = r.bop("+", n, r.mkbool(r.resolve(r.ctx.lor_all(l))))
        n = r.bop("+", n, 0)
        return n

    def value_counts(self, normalize=False, sort=True, ascending=False, bins=None, dropna=True):
        return Counts(self, normalize, sort, ascending)

    def duplicated(self, *a, **k):
        return self.conc().duplicated(*a, **k)

    def drop_duplicates(self, *a, **k):
        return self.conc().drop_duplicates(*a, **k)

    def nlargest(self, n=5, keep="first"):
        if n == 1:
            return _One(self, self.max())
        return self.conc().nlargest(n, keep)

    def nsmallest(self, n=5, keep="first"):
        if n == 1:
            return _One(self, self.min())
        return self.conc().nsmallest(n, keep)

    def head(self, n=5):
        return self._pos(slice(None, n)) if not rt().is_sym(n) else self.getitem(slice(None, n))

    def tail(self, n=5):
        if n == 0:
            return self._pos(slice(0, 0))
        return self._pos(slice(-n, None))

    def take(self, pos, *a, **k):
        self._need()
        return self._take([int(rt().conc(i)) for i in pos])

    def get(self, k, default=None):
        r = rt()
        try:
            return self._label(k)
        except (KeyError, IndexError):
            return default

    def items(self):
        return GenObj([(g, (plain(k), plain(v))) for (g, v), k in zip(self.pairs(), self.idx())])

    iteritems = items

    def keys(self):
        return self.index

    def item(self):
        self.definite()
        if len(self.vals) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return plain(self.vals[0])

    def equals(self, o):
        r = rt()
        w = Vec.of(o)
        if w is None or len(w.vals) != len(self.vals):
            return False
        return r.call(all, SList([r.cmp("==", a, b) for a, b in zip(self.vals, w.vals)]))

    def append(self, o, ignore_index=False):
        return concat([self, o], ignore_index)

    def dot(self, o):
        r = rt()
        w = Vec.of(o) or Vec(o, None, False)
        return r.call(sum, SList([r.bop("*", a, b) for a, b in zip(self.vals, w.vals)]))

    def sort_values(self, ascending=True, **k):
        r = rt()
        if k:
            return self.conc().sort_values(ascending=ascending, **k)
        s = r.call(sorted, SList(self.vals, self.guards), reverse=not ascending)
        return _NoLabels(s.pairs(), True)

    def sort(self, *a, **k):
        r = rt()
        self.vals = list(list.__iter__(r.call(sorted, SList(self.vals, self.guards))))
        return None

    def sort_index(self, *a, **k):
        self.definite()
        o = sorted(range(len(self.vals)), key=lambda i: self.idx()[i])
        return self._take(o)

    def repeat(self, n):
        return Vec([v for v in self.vals for _ in range(n)], None, self.series)

    def searchsorted(self, v, side="left", sorter=None):
        r = rt()
        op = "<" if side == "left" else "<="
        n = 0
        for w in self.vals:
            n = r.bop("+", n, r.cmp(op, w, v))
        return r.bop("+", n, 0)

    def fill(self, v):
        self.vals = [v] * len(self.vals)

    def nonzero(self):
        r = rt()
        m = [r.truth(v) for v in self.vals]
        return (Vec(list(range(len(m))), None, False, guards=m),)

    def conj(self):
        return self.like([SymCplx.of(v).conj() for v in self.vals])

    conjugate = conj

    def eq(self, o):
        return self.compare("==", self, o)

    def ne(self, o):
        return self.compare("!=", self, o)

    def lt(self, o):
        return self.compare("<", self, o)

    def le(self, o):
        return self.compare("<=", self, o)

    def gt(self, o):
        return self.compare(">", self, o)

    def ge(self, o):
        return self.compare(">=", self, o)

    def add(self, o):
        return self.binop("+", self, o)

    def sub(self, o):
        return self.binop("-", self, o)

    subtract = sub

    def mul(self, o):
        return self.binop("*", self, o)

    multiply = mul

    def div(self, o):
        return self.binop("/", self, o)

    truediv = divide = div

    def floordiv(self, o):
        return self.binop("//", self, o)

    def mod(self, o):
        return self.binop("%", self, o)

    def pow(self, o):
        return self.binop("**", self, o)

    def clip(self, lower=None, upper=None, **k):
        r = rt()
        out = self.vals
        if lower is not None:
            out = [r.call(max, v, lower) for v in out]
        if upper is not None:
            out = [r.call(min, v, upper) for v in out]
        return self.like(out)

    def between(self, a, b, inclusive="both"):
        r = rt()
        lo = "<=" if inclusive in ("both", "left") else "<"
        hi = "<=" if inclusive in ("both", "right") else "<"
        return self.like([r.and_(r.cmp(lo, a, v), lambda v=v: r.cmp(hi, v, b)) for v in self.vals])


def _binm(op):
    def f(self, o):
        return self.binop(op, self, o)

    def g(self, o):
        return self.binop(op, o, self)

    return f, g


for _n, _o in {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**",
               "and": "&", "or": "|", "xor": "^", "lshift": "<<", "rshift": ">>"}.items():
    for cls in (Vec, SymCplx):
        _f, _g = _binm(_o)
        setattr(cls, f"__{_n}__", _f)
        setattr(cls, f"__r{_n}__", _g)


class _Loc:
    __psx_vec__ = True

    def __init__(self, v, pos):
        self.v = v
        self.pos = pos

    def is_sym(self):
        return False

    def truth(self):
        return True

    def merge(self, c, b):
        return None

    def mergekey(self):
        return id(self)

    def getitem(self, k):
        r = rt()
        if self.pos:
            if isinstance(k, slice):
                if r.is_sym(k):
                    return Vec.getitem(self.v, k)
                return self.v._pos(k)
            if isinstance(k, (list, Vec, np.ndarray)):
                kv = k if isinstance(k, list) else Vec.of(k).vals
                if kv and all(isinstance(x, (bool, np.bool_, SymBool)) for x in kv):
                    return self.v._mask(k)
                self.v._need()
                return self.v._take([int(r.conc(i)) for i in kv])
            return self.v._at(k)
        if isinstance(k, slice):
            if k.start is None and k.stop is None:
                return self.v._pos(k)
            lab = self.v.index
            pos = pd.Series(range(len(lab)), index=lab).loc[r.conc(k)]
            return self.v._take(list(pos))
        if isinstance(k, (list, Vec, np.ndarray)):
            return self.v._mask(k)
        return self.v._label(k)

    __getitem__ = getitem

    def setitem(self, k, x):
        if self.pos:
            l = SList(self.v.vals, None, cg=1)
            rt()._list_set(l, k, x)
            self.v.vals = list(list.__iter__(l))
        else:
            self.v.setitem(k, x)

    __setitem__ = setitem

    def conc(self):
        s = self.v.conc()
        return s.iloc if self.pos else s.loc


class _One:
    """series with one element whose label is symbolic (nlargest(1))"""

    def __init__(self, src, v):
        self.src = src
        self.v = v

    @property
    def iloc(self):
        return _Loc(Vec([self.v], None, True), True)

    iat = iloc

    @property
    def values(self):
        return Vec([self.v], None, False)

    def to_numpy(self):
        return self.values

    def max(self):
        return self.v

    min = sum = item = mean = max

    def squeeze(self):
        return self.v

    def tolist(self):
        return SList([plain(self.v)])

    def __iter__(self):
        return iter([plain(self.v)])

    def __len__(self):
        return 1

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.src.conc().nlargest(1), name)


class _NoLabels:
    def __new__(cls, pairs, series):
        return Vec([v for _, v in pairs], None, False, guards=[g for g, _ in pairs])


class Counts:
    """value_counts(): counts per label; the order of equal counts is concretised on demand"""

    __psx_vec__ = True
    __array_ufunc__ = None

    def __init__(self, vec, normalize=False, sort=True, ascending=False):
        r = rt()
        self.vec = vec
        self.args = (normalize, sort, ascending)
        d = SDict("dict")
        self.ok = True
        n = len(vec.vals)
        acc = {}
        for g, v in vec.pairs():
            na = Vec._na(v)
            if na is True:
                continue
            c = r.cases(v, 200)
            if c is None:
                self.ok = False
                break
            for l, x in c:
                l = r.ctx.land(l, g)
                if l == 0:
                    continue
                if isinstance(x, float) and x != x:
                    continue
                acc.setdefault(plain(x), []).append(l)
        if not self.ok:
            return
        self.d = {}
        for x, ls in acc.items():
            tot = r.ctx.const(0)
            for l in ls:
                tot = tot + r.ctx.b2i(l)
            v = r.mknum(tot, "i")
            if normalize:
                v = r.bop("/", v, vec.length())
            p = r.resolve(r.ctx.lor_all(ls))
            if p != 0:
                self.d[x] = (p, v)

    def is_sym(self):
        return True

    def truth(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def merge(self, c, b):
        return None

    def mergekey(self):
        return id(self)

    def conc(self):
        return self.vec.conc().value_counts(*self.args)

    def _look(self, k, default=UNDEF):
        r = rt()
        if not self.ok:
            return self.conc()[k]
        if isinstance(k, SymUnion):
            return r.dist(k, lambda x: self._look(x, default))
        if isinstance(k, Sym):
            c = r.cases(k, 200)
            if c is None:
                return self._look(r.conc(k), default)
            out = []
            for l, x in c:
                with r.under(l) as live:
                    if live:
                        out.append((l, self._look(x, default)))
            return r.union(out)
        if k in self.d:
            p, v = self.d[k]
            if p == 1:
                return tonp(v)
            if default is not UNDEF:
                return r.ite(p, tonp(v), default)
            r.raise_under(r.ctx.land(r.abs(), p ^ 1), KeyError(k))
            return tonp(v)
        if default is not UNDEF:
            return default
        r.raise_under(r.abs(), KeyError(k))
        return UNDEF

    def getitem(self, k):
        r = rt()
        if isinstance(k, (int, np.integer)) and not isinstance(k, bool) and self.ok and any(isinstance(x, (str, bool)) for x in self.d):
            return self.conc()[k]
        if isinstance(k, (slice, list, Vec)):
            return r.getitem(self.conc(), k)
        return self._look(k)

    __getitem__ = getitem

    @property
    def at(self):
        return _CLoc(self)

    loc = at

    def get(self, k, default=None):
        return self._look(k, default)

    def length(self):
        r = rt()
        if not self.ok:
            return len(self.conc())
        return r.call(sum, SList([r.mkbool(p) for p, _ in self.d.values()]))

    def __len__(self):
        return rt().conc(self.length())

    def contains(self, x):
        r = rt()
        if not self.ok:
            return x in self.conc()
        l = 0
        for k, (p, _) in self.d.items():
            l = r.ctx.lor(l, r.ctx.land(p, r.truth(r.cmp("==", x, k))))
        return r.mkbool(l)

    def __contains__(self, x):
        return bool(self.contains(x))

    def _vals(self):
        return SList([v for _, v in self.d.values()], [p for p, _ in self.d.values()])

    def max(self, *a, **k):
        return tonp(rt().call(max, self._vals())) if self.ok else self.conc().max()

    def min(self, *a, **k):
        return tonp(rt().call(min, self._vals())) if self.ok else self.conc().min()

    def sum(self, *a, **k):
        return tonp(rt().call(sum, self._vals())) if self.ok else self.conc().sum()

    def reindex(self, labels=None, fill_value=math.nan, index=None, **k):
        labels = list(labels if labels is not None else index)
        return Vec([plain(self._look(x, fill_value)) for x in labels], pd.Index(labels), True)

    def to_dict(self, *a):
        d = SDict("dict")
        d.unordered = True
        for k, (p, v) in self.d.items():
            d.e[k] = [p, v]
        return d

    def sort_index(self, *a, **k):
        if self.ok and all(p == 1 for p, _ in self.d.values()) and not a and not k:
            ks = sorted(self.d)
            return Vec([self.d[x][1] for x in ks], pd.Index(ks), True)
        return self.conc().sort_index(*a, **k)

    def iter_pairs(self):
        return iter([(1, v) for v in self.conc()])

    def __iter__(self):
        return iter(self.conc())

    def binop(self, op, a, b):
        r = rt()
        x = self.conc() if a is self else a
        y = self.conc() if b is self else b
        return r.bop(op, x, y)

    def compare(self, op, a, b):
        r = rt()
        x = self.conc() if a is self else a
        y = self.conc() if b is self else b
        return r.cmp(op, x, y)

    def unop(self, op):
        return rt().uop(op, self.conc())

    def setitem(self, k, v):
        raise Unsupported("value_counts assignment")

    delitem = setitem

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.conc(), name)


class _CLoc:
    def __init__(self, c):
        self.c = c

    def __getitem__(self, k):
        if isinstance(k, (slice, list, Vec)):
            return self.c.conc().loc[k]
        return self.c._look(k)


def concat(objs, ignore_index=False, **k):
    vs = []
    for _, o in rt().iterate(objs):
        v = Vec.of(o)
        if v is None:
            raise Unsupported("concat")
        v.definite()
        vs.append(v)
    vals = [x for v in vs for x in v.vals]
    if ignore_index:
        return Vec(vals, None, True)
    ix = vs[0].idx()
    for v in vs[1:]:
        ix = ix.append(v.idx())
    return Vec(vals, pd.Index(list(ix)), True)


class NDVec:
    pass


SYM_CLASSES.update({Vec, Counts, SymCplx, _Loc})
R.SERIES_TYPES = (Vec, Counts)
