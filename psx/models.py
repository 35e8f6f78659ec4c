"""Models of library functions on symbolic values.

Every model computes what the function computes; what has no model is
tabulated over the (few) values its arguments can take or concretised by
forking (RT.call_native).
"""
import bisect
import builtins
import collections
import copy
import dataclasses
import functools
import heapq
import io
import itertools
import math
import operator
import os
import pathlib
import pickle
import random
import statistics
import types
import warnings
from fractions import Fraction
from numbers import Integral, Number, Rational, Real

import collections.abc as cabc
import numpy as np
import pandas as pd
import scipy.fft
import scipy.special
import scipy.stats
from sortedcontainers import SortedDict

from psx import rt as R
from psx.rt import MODELS, SYM_CLASSES, _CMPS, _CNAMES, _NAMES, _OPS, _Star, model
from psx.term import INCREASING, Poly, Unsupported, _norm, frac
from psx.chars import Chars, binary
from psx.values import DView, GenObj, SDict, SList, SSet, Sym, SymBool, SymNum, SymStr, SymUnion, UNDEF
from psx.vec import Counts, SymCplx, Vec, concat, plain, round_poly, tonp


def lift(rt, x):
    v = Vec.of(x)
    return v if v is not None else x


def pairs(rt, x):
    return [(g, v) for g, v in rt.iterate(x) if g != 0]


def concrete(rt, *xs):
    return not any(rt.is_sym(x) for x in xs)


# ------------------------------------------------------------------ types
_DICTKIND = {"dict": dict, "defaultdict": collections.defaultdict, "Counter": collections.Counter,
             "OrderedDict": collections.OrderedDict, "SortedDict": SortedDict}


def typeof(rt, v):
    if isinstance(v, SymNum):
        if v.np:
            return np.int64 if v.kind == "i" else np.float64
        return int if v.kind == "i" else float
    if isinstance(v, SymBool):
        return np.bool_ if v.np else bool
    if isinstance(v, SymStr) or type(v) is Chars:
        return str
    if isinstance(v, SList):
        return list
    if isinstance(v, SDict):
        return _DICTKIND[v.kind]
    if isinstance(v, SSet):
        return set
    if isinstance(v, GenObj):
        return types.GeneratorType
    if isinstance(v, DView):
        return type({}.items()) if v.what not in "kv" else type({}.keys()) if v.what == "k" else type({}.values())
    if isinstance(v, Vec):
        return pd.Series if v.series else np.ndarray
    if isinstance(v, Counts):
        return pd.Series
    if isinstance(v, SymCplx):
        return np.complex128
    return type(v)


@model(isinstance)
def m_isinstance(rt, v, t):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_isinstance(rt, x, t))
    if isinstance(t, (list, SList)):
        t = tuple(t)
    if isinstance(v, (Sym, SList, SDict, SSet, GenObj, DView)) or type(v) in SYM_CLASSES:
        return issubclass(typeof(rt, v), t)
    return isinstance(v, t)


@model(issubclass)
def m_issubclass(rt, a, b):
    return issubclass(a, tuple(b) if isinstance(b, list) else b)


@model(type)
def m_type(rt, *a, **k):
    if len(a) != 1:
        return type(*a, **k)
    v = a[0]
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_type(rt, x))
    return typeof(rt, v)


@model(callable)
def m_callable(rt, v):
    return callable(v) and not isinstance(v, Sym)


@model(id)
def m_id(rt, v):
    return id(v)


@model(hasattr)
def m_hasattr(rt, o, name):
    if isinstance(o, SymUnion):
        return rt.dist(o, lambda x: m_hasattr(rt, x, name))
    if isinstance(o, (Sym, SList, SDict, SSet, GenObj, DView)) or type(o) in SYM_CLASSES:
        return hasattr(typeof(rt, o), name)
    return hasattr(o, name)


@model(getattr)
def m_getattr(rt, o, name, *d):
    name = rt.conc(name)
    if d:
        try:
            return rt.getattr(o, name)
        except AttributeError:
            return d[0]
    return rt.getattr(o, name)


@model(setattr)
def m_setattr(rt, o, name, v):
    rt.setattr(o, rt.conc(name), v)


@model(builtins.__build_class__)
def m_bc(rt, *a, **k):
    return builtins.__build_class__(*a, **k)


@model(super)
def m_super(rt, *a):
    return super(*a)


@model(property, staticmethod, classmethod, object)
def m_prop(rt, *a, **k):
    raise Unsupported("descriptor")


for _t in (property, staticmethod, classmethod, object):
    R.MODELS[_t] = (lambda t: lambda rt, *a, **k: t(*a, **k))(_t)
    R.MODEL_IDS[id(_t)] = (_t, R.MODELS[_t])


# ------------------------------------------------------------------ numbers
@model(int)
def m_int(rt, v=0, *base, **k):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_int(rt, x, *base, **k))
    if base or k or isinstance(v, (str, SymStr, Chars)):
        b = base or tuple(k.values())
        if concrete(rt, v, b):
            return int(v, *[rt.conc(x) for x in b])
        if type(v) is Chars and len(v.items) and (not b or b[0] == 2):
            ds = [m_int(rt, x) if not b else m_int(rt, x, 2) for x in v.items]
            if b and all(x in (0, 1) if not isinstance(x, Sym) else True for x in ds):
                bits = []
                for x in reversed(ds):
                    t = rt.to_bits(x)
                    if t is None or t[1] != 0 or len(t[0]) != 1:
                        break
                    bits.append(t[0][0])
                else:
                    return rt.from_bits(bits, 0)
        r = rt.tabulate(lambda s: int(s, *b), (v,), {}, 300)
        return r[0] if r is not None else int(rt.conc(v), *b)
    if isinstance(v, SymBool):
        return rt.mknum(rt.num(v), "i")
    if isinstance(v, SymNum):
        if v.kind == "i":
            return plain(v)
        return m_trunc(rt, v)
    if isinstance(v, (Vec, Counts)) or hasattr(v, "item"):
        return int(rt.conc(v)) if not isinstance(v, Vec) else m_int(rt, v.item())
    m = getattr(type(v), "__int__", None) or getattr(type(v), "__index__", None)
    if m is not None and getattr(m, "__psx__", False):
        return m(v)
    return int(v)


@model(float)
def m_float(rt, v=0.0):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_float(rt, x))
    if isinstance(v, SymBool):
        return rt.mknum(rt.num(v), "f")
    if isinstance(v, SymNum):
        return SymNum(v._poly, "f", False, v.alts if v.alts is None else [(l, m_float(rt, x)) for l, x in v.alts], None) if v.bits is None else rt.mknum(v.poly, "f")
    if isinstance(v, SymStr):
        return float(rt.conc(v))
    if isinstance(v, Vec):
        return m_float(rt, v.item())
    return float(v)


for _t in (np.float64, np.float32, np.longdouble):
    model(_t)(lambda rt, v=0.0: tonp(m_float(rt, v)))
for _t in (np.int64, np.int32, np.int_, np.int16):
    model(_t)(lambda rt, v=0: tonp(m_int(rt, v)))


@model(bool)
def m_bool(rt, v=False):
    return rt.mkbool(rt.truth(v))


model(np.bool_)(lambda rt, v=False: rt.mkbool(rt.truth(v), True))


@model(operator.truth)
def m_truth(rt, v):
    return rt.mkbool(rt.truth(v))


@model(operator.not_)
def m_not(rt, v):
    return rt.not_(v)


@model(complex)
def m_complex(rt, re=0, im=0):
    if concrete(rt, re, im):
        return complex(re, im)
    return SymCplx(re, im)


def _steps(rt, q, cap=64):
    """floor of a f(k) + b, f increasing and k an integer with bounds: the
    places where it steps are found with f itself, so rounding is accounted for"""
    ctx = rt.ctx
    atom = None
    rest = 0
    for m, c in q.terms.items():
        if atom is None and len(m) == 1 and ctx.atoms[m[0]][0] == "uf" and ctx.atoms[m[0]][1] in INCREASING:
            atom, sign = ctx.atoms[m[0]], c
        elif not m:
            rest = c
        else:
            return None
    if atom is None or len(atom[2]) != 1:
        return None
    f, arg = INCREASING[atom[1]], atom[2][0]
    if not arg.isint():
        return None
    lo, hi = arg.bounds()
    if lo is None or hi is None or hi > 2 ** 52 or lo < (0 if atom[1] == "sqrt" else 1):
        return None
    lo, hi = int(lo), int(hi)

    def g(k):
        return math.floor(sign * Fraction(f(k)) + rest)

    if abs(g(hi) - g(lo)) > cap:
        return None
    out = ctx.const(g(lo))
    at = lo
    while g(at) != g(hi):
        a, b = at, hi  # g(a) == g(at) != g(b)
        while b - a > 1:
            mid = (a + b) // 2
            if g(mid) == g(at):
                a = mid
            else:
                b = mid
        lit = ctx.le0(ctx.const(b) - arg)
        out = out + ctx.b2i(lit).scale(g(b) - g(at))
        at = b
    return out


def _round_to(rt, v, fn, name):
    """floor / ceil / trunc of a symbolic number"""
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: _round_to(rt, x, fn, name))
    if isinstance(v, Vec):
        return v.like([_round_to(rt, x, fn, name) for x in v.vals])
    if not isinstance(v, Sym):
        m = getattr(type(v), f"__{name}__", None)
        if m is not None and getattr(m, "__psx__", False):
            return m(v)
        return fn(v)
    if rt.kind(v) == "i" or v.poly.isint():
        return rt.mknum(rt.num(v), "i")
    r = rt.tabulate(fn, (v,), {}, 128)
    if r is not None:
        return r[0]
    ctx = rt.ctx
    p = v.poly

    def fl(q):
        lo, hi = q.bounds()
        if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
            return ctx.const(math.floor(lo))
        st = _steps(rt, q)
        if st is not None:
            return st
        den = 1
        for c in q.terms.values():
            if type(c) is Fraction:
                den = math.lcm(den, c.denominator)
        if den > 1:
            whole = q.scale(den)
            if whole.isint():
                return rt.quotient(whole, den)
        # integer part of the polynomial stays outside
        keep, out = {}, {}
        for m, c in q.terms.items():
            if type(c) is int and Poly(ctx, {m: 1}).isint():
                out[m] = c
            else:
                keep[m] = c
        return Poly(ctx, {(ctx.atom("floor", Poly(ctx, keep)),): 1}) + Poly(ctx, out)

    if name == "floor":
        return rt.mknum(fl(p), "i")
    if name == "ceil":
        return rt.mknum(fl(p.scale(-1)).scale(-1), "i")
    c = rt.mkbool(ctx.le0(p.scale(-1)))
    return rt.ite(rt.truth(c), rt.mknum(fl(p), "i"), rt.mknum(fl(p.scale(-1)).scale(-1), "i"))


@model(math.floor)
def m_floor(rt, v):
    return _round_to(rt, v, math.floor, "floor")


@model(math.ceil)
def m_ceil(rt, v):
    return _round_to(rt, v, math.ceil, "ceil")


@model(math.trunc)
def m_trunc(rt, v):
    return _round_to(rt, v, math.trunc, "trunc")


@model(np.floor)
def m_npfloor(rt, v, *a, **k):
    if concrete(rt, v):
        return np.floor(rt.conc(v))
    return tonp(m_float(rt, m_floor(rt, v))) if not isinstance(v, Vec) else v.like([m_float(rt, m_floor(rt, x)) for x in v.vals])


@model(np.ceil)
def m_npceil(rt, v, *a, **k):
    if concrete(rt, v):
        return np.ceil(rt.conc(v))
    return tonp(m_float(rt, m_ceil(rt, v))) if not isinstance(v, Vec) else v.like([m_float(rt, m_ceil(rt, x)) for x in v.vals])


@model(round)
def m_round(rt, v, nd=None):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_round(rt, x, nd))
    if not isinstance(v, Sym):
        if isinstance(v, Vec):
            return v.round(nd or 0)
        return round(v) if nd is None else round(v, nd)
    if rt.kind(v) == "i" and (nd is None or nd >= 0):
        return v
    f = (lambda x: round(x)) if nd is None else (lambda x: round(x, nd))
    r = rt.tabulate(f, (v,), {}, 200)
    if r is not None:
        return r[0]
    if nd is None or nd == 0:
        # away from ties the nearest integer
        return m_floor(rt, rt.bop("+", v, 0.5))
    sc = 10 ** nd
    return rt.bop("/", m_floor(rt, rt.bop("+", rt.bop("*", v, sc), 0.5)), sc)


@model(np.round, np.around)
def m_npround(rt, v, nd=0, **k):
    return m_round(rt, v, nd)


@model(abs)
def m_abs(rt, v):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_abs(rt, x))
    if type(v) in SYM_CLASSES:
        return v.abs()
    if isinstance(v, SymBool):
        return rt.mknum(rt.num(v), "i")
    if isinstance(v, SymNum):
        if v.alts is not None and v._poly is None:
            return rt.union([(l, m_abs(rt, x)) for l, x in v.alts])
        lo, hi = v.poly.bounds()
        if lo is not None and lo >= 0:
            return v
        if hi is not None and hi <= 0:
            return rt.uop("-", v)
        r = rt.tabulate(abs, (v,), {}, 40)
        if r is not None:
            return r[0]
        c = rt.truth(rt.cmp(">=", v, 0))
        k = rt.implied(c)
        if k is not None:
            return v if k else rt.uop("-", v)
        return rt.ite(c, v, rt.uop("-", v))
    return abs(v)


for _f in (np.abs, np.absolute, math.fabs, np.fabs, operator.abs):
    model(_f)(lambda rt, v, *a, **k: m_abs(rt, v if not isinstance(v, SList) else Vec(v, None, False)))


@model(divmod)
def m_divmod(rt, a, b):
    return (rt.bop("//", a, b), rt.bop("%", a, b))


@model(pow, operator.pow)
def m_pow(rt, a, b, *m):
    if m:
        return rt.bop("%", rt.bop("**", a, b), m[0])
    return rt.bop("**", a, b)


model(math.pow)(lambda rt, a, b: m_float(rt, rt.bop("**", m_float(rt, a), b)))
model(np.power)(lambda rt, a, b: rt.bop("**", a, b))
model(np.square)(lambda rt, a: rt.bop("**", lift(rt, a), 2))


def _uf(rt, name, fn, args, cap=64, npf=False):
    """fn(*args): tabulated when the arguments take few values, else uninterpreted with bounds"""
    args = tuple(m_float(rt, a) if isinstance(a, SymBool) else a for a in args)
    for i, a in enumerate(args):
        if isinstance(a, SymUnion):
            return rt.dist(a, lambda x: _uf(rt, name, fn, args[:i] + (x,) + args[i + 1:], cap, npf))
    vec = next((a for a in args if isinstance(a, Vec)), None)
    if vec is not None:
        j = [i for i, a in enumerate(args) if a is vec][0]
        return vec.like([_uf(rt, name, fn, args[:j] + (x,) + args[j + 1:], cap, npf) for x in vec.vals])
    if concrete(rt, args):
        v = fn(*[rt.conc(a) for a in args])
        return v
    if any(not isinstance(a, Sym) and not math.isfinite(a) for a in args):
        r = rt.tabulate(fn, args, {}, 300)
        if r is not None:
            return r[0]
        return fn(*[rt.conc(a) for a in args])
    r = rt.tabulate(fn, args, {}, cap)
    if r is not None:
        return r[0]
    ctx = rt.ctx
    return rt.mknum(Poly(ctx, {(ctx.atom("uf", name, tuple(rt.num(a) for a in args)),): 1}), "f", npf)


def _dom(rt, bad, exc):
    """the literal under which an argument lies outside the domain"""
    if bad == 0:
        return
    rt.raise_under(rt.ctx.land(rt.abs(), bad), exc)


def _fn1(name, fn, lo=None, strict=False, npf=False, uname=None):
    def h(rt, v, *a, **k):
        if isinstance(v, SymUnion):
            return rt.dist(v, lambda x: h(rt, x, *a, **k))
        if isinstance(v, (SList,)) and npf:
            v = Vec(v, None, False)
        if concrete(rt, v) or a or k:
            return fn(*[rt.conc(x) for x in (v,) + a], **{n: rt.conc(x) for n, x in k.items()})
        if lo is not None and isinstance(v, SymNum) and not npf:
            bad = rt.truth(rt.cmp("<=" if strict else "<", v, lo))
            _dom(rt, bad, ValueError("math domain error"))
        return _uf(rt, uname or name, fn, (v,), npf=npf)

    return h


model(math.sqrt)(_fn1("sqrt", math.sqrt, 0))
model(np.sqrt)(_fn1("sqrt", lambda x: float(np.sqrt(x)), npf=True))
model(math.erfc)(_fn1("erfc", math.erfc))
model(scipy.special.erfc)(_fn1("erfc", lambda x: float(scipy.special.erfc(x)), npf=True))
model(math.erf)(_fn1("erf", math.erf))
model(math.exp)(_fn1("exp", math.exp))
model(np.exp)(_fn1("exp", lambda x: float(np.exp(x)), npf=True))
model(math.log2)(_fn1("log2", math.log2, 0, True))
model(np.log2)(_fn1("log2", lambda x: float(np.log2(x)), npf=True))
model(np.log)(_fn1("log", lambda x: float(np.log(x)), npf=True))
model(math.log10)(_fn1("log10", math.log10, 0, True))


@model(math.log)
def m_log(rt, v, *base):
    if concrete(rt, v, base):
        return math.log(rt.conc(v), *base)
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_log(rt, x, *base))
    if isinstance(v, SymNum):
        _dom(rt, rt.truth(rt.cmp("<=", v, 0)), ValueError("math domain error"))
    x = _uf(rt, "log", math.log, (v,))
    return rt.bop("/", x, math.log(rt.conc(base[0]))) if base else x


@model(scipy.special.gammaincc)
def m_gammaincc(rt, a, x, *r, **k):
    from psx.term import igamc as f

    return _uf(rt, "gammaincc", f, (a, x), npf=True)


@model(scipy.special.gammainc)
def m_gammainc(rt, a, x, *r, **k):
    return rt.bop("-", 1, m_gammaincc(rt, a, x))


@model(scipy.special.chdtrc)
def m_chdtrc(rt, v, x):
    return m_gammaincc(rt, rt.bop("/", v, 2), rt.bop("/", x, 2))


@model(scipy.special.ndtr)
def m_ndtr(rt, x, *a, **k):
    return _uf(rt, "normcdf", lambda q: float(scipy.special.ndtr(q)), (x,), npf=True)


def _func(f):
    """models for plain functions reached as bound methods of native objects"""
    def deco(h):
        R.FUNCS[f] = h
        MODELS[f] = h
        return h
    return deco


def _meth(obj, name):
    """models for methods of distribution objects are keyed by (object, name)"""
    def deco(h):
        R.METHODS[(id(obj), name)] = (obj, h)
        return h
    return deco


@_meth(scipy.stats.norm, "cdf")
def m_normcdf(rt, x, loc=0, scale=1):
    if concrete(rt, x, loc, scale):
        return scipy.special.ndtr((x - loc) / scale) if not isinstance(x, Vec) else scipy.stats.norm.cdf(rt.conc(x), loc, scale)
    return m_ndtr(rt, rt.bop("/", rt.bop("-", x, loc), scale))


@_meth(scipy.stats.norm, "sf")
def m_normsf(rt, x, loc=0, scale=1):
    return m_ndtr(rt, rt.uop("-", rt.bop("/", rt.bop("-", x, loc), scale)))


@_meth(scipy.stats.chi2, "sf")
def m_chi2sf(rt, x, df, loc=0, scale=1):
    if concrete(rt, x, df, loc, scale):
        return scipy.stats.chi2.sf(rt.conc(x), df, loc, scale)
    return m_gammaincc(rt, rt.bop("/", df, 2), rt.bop("/", x, 2))


@_meth(scipy.stats.chi2, "cdf")
def m_chi2cdf(rt, x, df, loc=0, scale=1):
    return rt.bop("-", 1, m_chi2sf(rt, x, df, loc, scale))


def _density(name, fn):
    def h(rt, x, *a, **k):
        if concrete(rt, x, a, k):
            return fn(rt.conc(x), *[rt.conc(y) for y in a], **{n: rt.conc(y) for n, y in k.items()})
        if k or not a and name[:4] == "chi2" or len(a) > 1:
            raise Unsupported(name)
        return _uf(rt, name, lambda *v: float(fn(*v)), (x,) + a, npf=True)
    return h


for _d, _n in ((scipy.stats.chi2, "chi2"), (scipy.stats.halfnorm, "halfnorm"), (scipy.stats.norm, "norm")):
    for _q in ("pdf", "ppf", "isf", "cdf", "sf", "logpdf"):
        if (id(_d), _q) not in R.METHODS:
            _meth(_d, _q)(_density(f"{_n}.{_q}", getattr(_d, _q)))


@model(np.linspace)
def m_linspace(rt, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if concrete(rt, start, stop, num):
        return np.linspace(rt.conc(start), rt.conc(stop), rt.conc(num), endpoint, retstep, dtype, axis)
    num = rt.conc(num)
    if not endpoint or retstep or dtype is not None or num < 2:
        raise Unsupported("linspace")
    span = rt.bop("-", stop, start)
    vals = [tonp(m_float(rt, rt.bop("+", start, rt.bop("*", span, Fraction(i, num - 1))))) for i in range(num)]
    return Vec(vals, None, False)


from collections import namedtuple as _nt

Power_divergenceResult = _nt("Power_divergenceResult", "statistic pvalue")


@model(scipy.stats.chisquare)
def m_chisquare(rt, f_obs, f_exp=None, ddof=0, axis=0, **kw):
    if concrete(rt, f_obs, f_exp):
        return scipy.stats.chisquare(rt.conc(f_obs), rt.conc(f_exp) if f_exp is not None else None, ddof=ddof, **kw)
    o = [v for g, v in _defpairs(rt, f_obs)]
    n = len(o)
    if f_exp is None:
        t = m_sum(rt, SList(o))
        e = [rt.bop("/", t, n)] * n
    else:
        e = [v for g, v in _defpairs(rt, f_exp)]
        if len(e) != n:
            raise ValueError("operands could not be broadcast together")
        so, se = m_sum(rt, SList(o)), m_sum(rt, SList(e))
        d = m_abs(rt, rt.bop("-", so, se))
        tol = 1.4901161193847656e-08
        # scipy: relative difference of the sums above sqrt(eps) is an error
        mn = m_min(rt, so, se)
        bad = rt.truth(rt.cmp(">", d, rt.bop("*", tol, mn)))
        _dom(rt, bad, ValueError("For each axis slice, the sum of the observed frequencies must agree with the sum of the expected frequencies"))
    stat = 0.0
    for x, y in zip(o, e):
        dd = rt.bop("-", x, y)
        if not isinstance(y, Sym):
            if y == 0:
                t = rt.bop("/", tonp(rt.bop("*", dd, dd)), np.float64(0.0))
            else:
                t = rt.bop("/", _square(rt, dd), float(y))
        else:
            t = rt.bop("/", tonp(_square(rt, dd)), tonp(y))
        stat = rt.bop("+", stat, t)
    dfree = n - 1 - ddof
    if dfree <= 0:
        return Power_divergenceResult(stat, float("nan"))
    p = m_gammaincc(rt, dfree / 2, rt.bop("/", stat, 2))
    return Power_divergenceResult(tonp(stat), tonp(p))


def _square(rt, d):
    r = rt.tabulate(lambda x: x * x, (d,), {}, 48)
    return r[0] if r is not None else rt.bop("*", d, d)


def _defpairs(rt, x):
    x = lift(rt, x) if isinstance(x, (np.ndarray, pd.Series)) else x
    out = []
    for g, v in pairs(rt, x):
        if g == 1 or rt.decide_lit(g):
            out.append((1, v))
    return out


@model(math.isclose)
def m_isclose(rt, a, b, rel_tol=1e-09, abs_tol=0.0):
    if concrete(rt, a, b):
        return math.isclose(rt.conc(a), rt.conc(b), rel_tol=rel_tol, abs_tol=abs_tol)
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if isinstance(x, SymUnion):
            return rt.dist(x, lambda z: m_isclose(rt, z, y, rel_tol, abs_tol))
    r = rt.tabulate(lambda p, q: math.isclose(p, q, rel_tol=rel_tol, abs_tol=abs_tol), (a, b), {})
    if r is not None:
        return r[0]
    d = rt.bop("-", a, b)
    if concrete(rt, d) and rt.conc(d) == 0:
        return True
    # |a - b| <= r max(|a|, |b|), without absolute values
    x, y = rt.bop("-", a, b), rt.bop("-", b, a)
    ctx = rt.ctx
    out = 0
    for z in (a, b):
        t = rt.bop("*", rel_tol, z)
        le = [rt.truth(rt.cmp("<=", u, v)) for u in (x, y) for v in (t, rt.bop("*", -1, t))]
        out = ctx.lor(out, ctx.land(ctx.lor(le[0], le[1]), ctx.lor(le[2], le[3])))
    if abs_tol:
        out = ctx.lor(out, ctx.land(*[rt.truth(rt.cmp("<=", u, abs_tol)) for u in (x, y)]))
    return rt.mkbool(out)


@model(np.isclose)
def m_npisclose(rt, a, b, rtol=1e-05, atol=1e-08, **k):
    if concrete(rt, a, b):
        return np.isclose(rt.conc(a), rt.conc(b), rtol, atol)
    d = m_abs(rt, rt.bop("-", a, b))
    return rt.cmp("<=", d, rt.bop("+", atol, rt.bop("*", rtol, m_abs(rt, b))))


@model(math.isnan, np.isnan)
def m_isnan(rt, v):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_isnan(rt, x))
    if isinstance(v, Vec):
        return v.isna()
    return False if isinstance(v, Sym) else bool(math.isnan(v))


@model(math.isfinite, np.isfinite)
def m_isfinite(rt, v):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_isfinite(rt, x))
    if isinstance(v, Vec):
        return v.like([m_isfinite(rt, x) for x in v.vals])
    return True if isinstance(v, Sym) else bool(math.isfinite(v))


@model(math.isinf, np.isinf)
def m_isinf(rt, v):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_isinf(rt, x))
    return False if isinstance(v, Sym) else bool(math.isinf(v))


@model(pd.isna, pd.isnull)
def m_pdisna(rt, v):
    if isinstance(v, Vec):
        return v.isna()
    if isinstance(v, Sym):
        return Vec._na(v)
    return pd.isna(rt._unwrap(v))


@model(pd.notna, pd.notnull)
def m_pdnotna(rt, v):
    return rt.not_(m_pdisna(rt, v)) if not isinstance(v, Vec) else v.notna()


# ------------------------------------------------------------------ strings
@model(str)
def m_str(rt, v="", *a, **k):
    if a or k:
        return str(v, *a, **k)
    if isinstance(v, (str, SymStr, Chars)):
        return v
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_str(rt, x))
    f = type(v).__str__
    if getattr(f, "__psx__", False):
        return f(v)
    if isinstance(v, Sym) or (isinstance(v, (tuple, list, SDict)) and rt.is_sym(v)):
        return SymStr([(R._FMT, v, 115, "")])
    return str(rt._unwrap(v)) if isinstance(v, (SList, SDict, DView, SSet)) else str(v)


@model(repr)
def m_repr(rt, v):
    if isinstance(v, SymUnion):
        return rt.dist(v, lambda x: m_repr(rt, x))
    if isinstance(v, Sym) or (isinstance(v, (tuple, list, SDict)) and rt.is_sym(v)):
        return SymStr([(R._FMT, v, 114, "")])
    return repr(rt._unwrap(v)) if isinstance(v, (SList, SDict, DView, SSet)) else repr(v)


@model(bin, oct, hex)
def m_bin(rt, *a):
    raise Unsupported("bin")


def _radix(fn):
    def h(rt, v):
        r = rt.tabulate(fn, (v,), {}, 300)
        return r[0] if r is not None else fn(rt.conc(v))

    return h


for _f in (bin, oct, hex):
    R.MODELS[_f] = _radix(_f)
    R.MODEL_IDS[id(_f)] = (_f, R.MODELS[_f])


@model(format)
def m_format(rt, v, spec=""):
    return rt.fmt(v, -1, spec)


@model(hash)
def m_hash(rt, v):
    return hash(rt.conc(v))


@model(ord)
def m_ord(rt, v):
    r = rt.tabulate(ord, (v,), {}, 300)
    return r[0] if r is not None else ord(rt.conc(v))


@model(chr)
def m_chr(rt, v):
    r = rt.tabulate(chr, (v,), {}, 300)
    return r[0] if r is not None else chr(rt.conc(v))


@model(print)
def m_print(rt, *a, **k):
    return None


# ------------------------------------------------------------------ iteration
@model(len, operator.length_hint)
def m_len(rt, x):
    return rt.m_len(x)


@model(iter)
def m_iter(rt, x, *s):
    if s:
        raise Unsupported("iter with sentinel")
    if isinstance(x, GenObj):
        return x
    m = getattr(type(x), "__iter__", None)
    if m is not None and getattr(m, "__psx__", False):
        return m(x)
    return GenObj(rt.iterate(x), unordered=getattr(x, "unordered", False))


@model(next)
def m_next(rt, it, *d):
    if isinstance(it, SymUnion):
        return rt.dist(it, lambda x: m_next(rt, x, *d))
    if not isinstance(it, GenObj):
        nx = getattr(type(it), "__next__", None)
        if nx is None:
            raise TypeError(f"'{type(it).__name__}' object is not an iterator")
        try:
            return nx(it)
        except StopIteration:
            if d:
                return d[0]
            raise
    ctx = rt.ctx
    a = rt.abs()
    rem = a
    alts = []
    if not alts and it.buf == [] and isinstance(it.src, _Peek):
        pass
    pulled = []
    while rem != 0 and (rem == a and not alts or rt.feasible([rem])):
        x = it.pull()
        if x is None:
            break
        g, v = x
        t = ctx.land(rem, g)
        left = ctx.land(g, rem ^ 1)
        if t != 0:
            alts.append((t, v))
        if left != 0 and not (left == 0):
            pulled.append((left, v))
        rem = ctx.land(rem, g ^ 1)
        if a != 1 and not pulled:
            # under a guard the element stays for the other paths
            out = ctx.land(g, a ^ 1)
            if out != 0:
                pulled.append((out, v))
        if rem == 0:
            break
    # elements consumed only on some paths stay for the others
    keep = []
    seen = set()
    for g, v in pulled:
        if (g, id(v)) not in seen:
            seen.add((g, id(v)))
            keep.append((g, v))
    it.buf = keep + it.buf
    if rem != 0 and rt.feasible([rem]):
        if d:
            alts.append((rem, d[0]))
        else:
            rt.raise_under(rem, StopIteration())
    return rt.union(alts) if alts else UNDEF


class _Peek:
    pass


@model(range)
def m_range(rt, *a):
    if concrete(rt, a):
        return range(*[plain(rt.conc(x)) for x in a])
    a = tuple(a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    for x in (start, stop, step):
        if isinstance(x, SymNum) and x.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if rt.loop_stop is not None:
        for x in (start, stop, step):
            if isinstance(x, SymNum) and rt.onehot(x, 64) is None:
                raise rt.loop_stop
    if rt.fork or rt.is_sym(start) or rt.is_sym(step) or step <= 0:
        return range(rt.conc(start), rt.conc(stop), rt.conc(step))
    return SymRange(rt, start, stop, step)


class SymRange(GenObj):
    """range with a symbolic end, iterable more than once"""

    def __init__(self, rt, start, stop, step):
        self.rt = rt
        self.start, self.stop, self.step = start, stop, step
        items = []
        hi = rt.num(stop).bounds()[1]
        oh = rt.onehot(stop, 300) if isinstance(stop, SymNum) else None
        if oh is not None:
            hi = max(oh)
        if hi is None:
            stop = rt.conc(stop)
            hi = stop
        i = start
        while i < hi:
            g = rt.truth(rt.cmp("<", i, stop))
            if g == 0:
                break
            items.append((g, i))
            i += step
            if len(items) > R.MAX_ITER:
                raise Unsupported("range")
        self.items_ = items
        super().__init__(iter(items))

    def pairs(self):
        return self.items_


R.SRANGE = SymRange


@model(enumerate)
def m_enumerate(rt, x, start=0):
    ps = rt.iterate(x)

    def gen():
        i = start
        for g, v in ps:
            yield g, (i, v)
            if g == 1:
                i = rt.bop("+", i, 1)
            else:
                i = rt.bop("+", i, rt.mknum(rt.ctx.b2i(g), "i"))

    return GenObj(gen())


@model(zip)
def m_zip(rt, *xs, strict=False):
    its = []
    for x in xs:
        if isinstance(x, GenObj) and len(xs) > 1:
            its.append((x, rt.iterate(x)))
        else:
            its.append((x, rt.iterate(x)))

    def gen():
        cols = None
        # lockstep over definite elements; guarded ones need compaction
        srcs = [iter(i) for _, i in its]
        if not srcs:
            return
        while True:
            row = []
            for s in srcs:
                try:
                    p = next(s)
                    while p[0] == 0:
                        p = next(s)
                except StopIteration:
                    return
                row.append(p)
            if all(g == 1 for g, _ in row):
                yield 1, tuple(v for _, v in row)
                continue
            # from here on elements may be absent: positional alignment
            rest = [rt.compact([row[i]] + [p for p in s if p[0] != 0]) for i, s in enumerate(map(_limited, srcs))]
            for j in range(min(len(r) for r in rest)):
                g = rt.ctx.land_all([r[j][0] for r in rest])
                if g != 0:
                    yield g, tuple(r[j][1] for r in rest)
            return

    return GenObj(gen())


def _limited(s):
    for i, p in enumerate(s):
        if i > 5000:
            raise Unsupported("zip of an unbounded iterator")
        yield p


@model(itertools.zip_longest)
def m_zip_longest(rt, *xs, fillvalue=None):
    cols = [rt.positional(x) for x in xs]
    n = max(len(c) for c in cols)
    out = []
    for j in range(n):
        g = rt.ctx.lor_all([c[j][0] for c in cols if j < len(c)])
        out.append((g, tuple(rt.ite(c[j][0], c[j][1], fillvalue) if j < len(c) else fillvalue for c in cols)))
    return GenObj(out)


@model(map)
def m_map(rt, f, *xs):
    def gen():
        src = rt.iterate(xs[0]) if len(xs) == 1 else m_zip(rt, *xs).src
        for g, v in src:
            args = (v,) if len(xs) == 1 else v
            if g == 1:
                yield 1, rt.call(f, *args)
            else:
                with rt.under(g) as live:
                    r = rt.call(f, *args) if live else None
                if live:
                    yield g, r

    return GenObj(gen())


@model(filter)
def m_filter(rt, f, x):
    def gen():
        for g, v in rt.iterate(x):
            with rt.under(g) as live:
                if not live:
                    continue
                t = rt.truth(v if f is None else rt.call(f, v))
            p = rt.ctx.land(g, t)
            if p != 0:
                yield p, v

    return GenObj(gen())


@model(itertools.filterfalse)
def m_filterfalse(rt, f, x):
    return m_filter(rt, lambda v: rt.not_(v if f is None else rt.call(f, v)), x)


@model(reversed)
def m_reversed(rt, x):
    m = getattr(type(x), "__reversed__", None)
    if m is not None and getattr(m, "__psx__", False):
        return m(x)
    if isinstance(x, range):
        return GenObj([(1, v) for v in reversed(x)])
    if isinstance(x, SymUnion):
        return GenObj(rt.seq_items_rev(x)) if hasattr(rt, "seq_items_rev") else GenObj(_revunion(rt, x))
    return GenObj(pairs(rt, x)[::-1])


def _revunion(rt, u):
    # each alternative reversed, then merged by position
    return rt.seq_items(SymUnion([(l, SList(vals := [v for _, v in ps], [g for g, _ in ps])) for l, v in u.alts if rt.ctx.land(rt.abs(), l) != 0 for ps in [pairs(rt, v)[::-1]]]))


@model(sum, math.fsum, np.sum)
def m_sum(rt, x, start=0, **k):
    if type(x) in SYM_CLASSES and not isinstance(x, Vec):
        if isinstance(x, Counts):
            return x.sum()
    if isinstance(x, (np.ndarray, pd.Series)):
        return sum(x, start) if not k and x.ndim == 1 and concrete(rt, start) else np.sum(x, **k)
    ps = pairs(rt, x)
    return _sum(rt, ps, start)


def _sum(rt, ps, start=0):
    ctx = rt.ctx
    terms = {}
    kind = "i"
    npf = False
    other = None
    allc = True
    tot = start
    if not all(rt.is_num(v) for _, v in ps) or not rt.is_num(start):
        for g, v in ps:
            if g == 1:
                tot = rt.bop("+", tot, v)
            else:
                with rt.under(g) as live:
                    if live:
                        new = rt.bop("+", tot, v)
                if live:
                    tot = rt.ite(g, new, tot)
        return tot
    if all(g == 1 and not isinstance(v, Sym) for g, v in ps):
        vals = [v for _, v in ps]
        if not isinstance(start, Sym):
            return sum(vals, start)
        return rt.bop("+", start, sum(vals))
    fin = [(g, v) for g, v in ps if isinstance(v, Sym) or math.isfinite(v)]
    acc = {}
    for g, v in fin + [(1, start)]:
        if rt.kind(v) == "f":
            kind = "f"
        npf = npf or rt.isnp(v)
        if g == 1:
            p = rt.num(v)
        elif isinstance(v, Sym):
            p = ctx.b2i(g) * rt.num(v)
        else:
            p = ctx.b2i(g).scale(frac(v)) if v != 0 else ctx.const(0)
        for m, c in p.terms.items():
            acc[m] = _norm(acc.get(m, 0) + c)
    tot = rt.mknum(Poly(ctx, {m: c for m, c in acc.items() if c != 0}), kind, npf)
    for g, v in ps:
        if not (isinstance(v, Sym) or math.isfinite(v)):
            tot = rt.ite(g, v if g == 1 else v, tot)
    return tot


def _extreme(rt, ps, key, default, sign, name):
    """first element with the largest key (sign=1) / smallest key (sign=-1)"""
    ctx = rt.ctx
    ps = [(g, v) for g, v in ps if g != 0]
    if not ps:
        if default is not UNDEF:
            return default
        raise ValueError(f"{name}() arg is an empty sequence")
    allnum = key is None and all(rt.is_num(v) and (isinstance(v, Sym) or math.isfinite(v)) for _, v in ps)
    anyg = ctx.lor_all([g for g, _ in ps])
    isb = [isinstance(v, (bool, np.bool_, SymBool)) for _, v in ps]
    if key is None and all(isb) and anyg == 1 and any(isinstance(v, Sym) or g != 1 for g, v in ps):
        if sign > 0:
            lit = ctx.lor_all([ctx.land(g, rt.truth(v)) for g, v in ps])
        else:
            lit = ctx.land_all([ctx.land(g, rt.truth(v) ^ 1) ^ 1 for g, v in ps])
        return rt.mkbool(lit, all(rt.isnp(v) for _, v in ps))
    if any(isb):
        allnum = False
    if allnum and (any(isinstance(v, Sym) for _, v in ps) or any(g != 1 for g, _ in ps)):
        dom = {}
        ok = True
        for g, v in ps:
            d = rt.onehot(v, 80) if isinstance(v, Sym) else {_norm(frac(v)): 1}
            if d is None:
                ok = False
                break
            for x, l in d.items():
                t = ctx.land(g, l)
                if t != 0:
                    dom[x] = ctx.lor(dom.get(x, 0), t)
            if len(dom) > 200:
                ok = False
                break
        if ok:
            kind = "i" if all(rt.kind(v) == "i" for _, v in ps) else "f"
            alts = []
            rest = 1
            for x in sorted(dom, reverse=sign > 0):
                t = ctx.land(rest, dom[x])
                if t != 0:
                    alts.append((t, rt.cval(x, kind)))
                rest = ctx.land(rest, dom[x] ^ 1)
                if rest == 0:
                    break
            if default is not UNDEF and rest != 0:
                alts.append((rest, default))
            elif rest != 0 and rt.feasible([ctx.land(rt.abs(), rest)]):
                rt.raise_under(ctx.land(rt.abs(), rest), ValueError(f"{name}() arg is an empty sequence"))
            return rt.union(alts)
    have, cur, curk = 0, None, None
    op = ">" if sign > 0 else "<"
    for g, v in ps:
        with rt.under(g) as live:
            if not live:
                continue
            k = v if key is None else rt.call(key, v)
            if have == 0:
                better = 1
            else:
                with rt.under(have) as l2:
                    better = rt.truth(rt.cmp(op, k, curk)) if l2 else 0
                if l2:
                    better = ctx.lor(have ^ 1, better)
                else:
                    better = 1
        take = ctx.land(g, better)
        if have == 0:
            cur, curk = v, k
        elif take != 0:
            kk = rt.implied(take) if rt.path or rt.guard != 1 or rt.base != 1 else None
            if kk is not None:
                take = int(kk)
            cur = rt.ite(take, v, cur)
            curk = rt.ite(take, k, curk)
        have = ctx.lor(have, g)
    if have != 1:
        miss = ctx.land(rt.abs(), have ^ 1)
        if miss != 0 and rt.feasible([miss]):
            if default is not UNDEF:
                return rt.ite(have, cur, default)
            rt.raise_under(miss, ValueError(f"{name}() arg is an empty sequence"))
    return cur


def _mm(sign, name):
    def h(rt, *a, key=None, default=UNDEF, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Counts):
                return x.max() if sign > 0 else x.min()
            if isinstance(x, (np.ndarray, pd.Series)):
                x = [v for v in x]
            ps = rt.positional(x) if isinstance(x, SymUnion) else pairs(rt, x)
        else:
            ps = [(1, v) for v in a]
        return _extreme(rt, ps, key, default, sign, name)

    return h


m_max = _mm(1, "max")
m_min = _mm(-1, "min")
model(max)(m_max)
model(min)(m_min)
for _f in (np.max, np.amax):
    model(_f)(lambda rt, x, *a, **k: tonp(m_max(rt, x)))
for _f in (np.min, np.amin):
    model(_f)(lambda rt, x, *a, **k: tonp(m_min(rt, x)))


def _np2(sign):
    f = m_max if sign > 0 else m_min

    def h(rt, a, b, **k):
        if isinstance(a, Vec) or isinstance(b, Vec):
            return (a if isinstance(a, Vec) else b)._zip(a, b, lambda x, y: f(rt, x, y))
        return tonp(f(rt, a, b))

    return h


model(np.maximum)(_np2(1))
model(np.minimum)(_np2(-1))


@model(any, np.any)
def m_any(rt, x, *a, **k):
    l = 0
    for g, v in rt.iterate(x):
        if g == 0:
            continue
        t = rt.truth(v)
        l = rt.ctx.lor(l, rt.ctx.land(g, t))
        if l == 1:
            return True
    return rt.mkbool(l)


@model(all, np.all)
def m_all(rt, x, *a, **k):
    l = 1
    for g, v in rt.iterate(x):
        if g == 0:
            continue
        t = rt.truth(v)
        l = rt.ctx.land(l, rt.ctx.lor(g ^ 1, t))
        if l == 0:
            return False
    return rt.mkbool(l)


def _lt(rt, a, b):
    return rt.cmp("<", a, b)


@model(sorted)
def m_sorted(rt, x, key=None, reverse=False):
    if isinstance(x, (np.ndarray, pd.Series)):
        x = list(x)
    if isinstance(x, (set, frozenset, dict)) or (isinstance(x, (list, tuple, range, str)) and not rt.is_sym(x) and key is None):
        if key is None:
            return SList(sorted(x, reverse=rt.conc(reverse)))
    ps = rt.positional(x)
    rev = rt.conc(reverse)
    items = []
    for g, v in ps:
        if g == 1 or rt.decide_lit(g):
            items.append(v)
    keys = items if key is None else [rt.call(key, v) for v in items]
    if not any(rt.is_sym(k) for k in keys):
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=rev)
        return SList([items[i] for i in order])
    if key is None and all(rt.is_num(v) for v in items) and not rt.fork and len(items) <= 64:
        vals = list(items)
        n = len(vals)
        for i in range(n):  # odd-even transposition network
            for j in range(i % 2, n - 1, 2):
                a, b = vals[j], vals[j + 1]
                vals[j], vals[j + 1] = m_min(rt, a, b), m_max(rt, a, b)
        if rev:
            vals.reverse()
        return SList(vals)
    out = []
    for v, k in zip(items, keys):  # insertion, stable, by forking
        i = len(out)
        if rev:
            while i > 0 and rt.decide(rt.cmp("<", out[i - 1][1], k)):
                i -= 1
        else:
            while i > 0 and rt.decide(rt.cmp("<", k, out[i - 1][1])):
                i -= 1
        out.insert(i, (v, k))
    return SList([v for v, _ in out])


@model(np.sort)
def m_npsort(rt, x, *a, **k):
    return Vec(list.__iter__(m_sorted(rt, x)), None, False)


# ------------------------------------------------------------------ containers
@model(list)
def m_list(rt, x=()):
    if isinstance(x, (np.ndarray, pd.Series)):
        return SList(list(x))
    ps = [(g, v) for g, v in rt.iterate(x) if g != 0]
    return SList([v for _, v in ps], [g for g, _ in ps])


@model(tuple)
def m_tuple(rt, x=()):
    if isinstance(x, tuple):
        return tuple(x)
    ps = rt.positional(x)
    out = []
    for g, v in ps:
        if g != 1 and not rt.decide_lit(g):
            break
        out.append(v)
    return tuple(out)


def _sd(kind):
    def h(rt, *a, **k):
        factory = None
        if kind == "defaultdict":
            factory = a[0] if a else None
            a = a[1:]
        d = SDict(kind, factory)
        if kind == "Counter":
            if a:
                _counter_update(rt, d, a[0])
            if k:
                _counter_update(rt, d, k)
            return d
        for x in a:
            if x is not None:
                d.update(x)
        if k:
            d.update(k)
        return d

    return h


def _counter_update(rt, d, x):
    if isinstance(x, (dict, SDict)):
        for g, (kk, v) in rt.iterate(rt.call(rt.getattr(x, "items"))):
            with rt.under(g) as live:
                if live:
                    d.aug_item(kk, "+", v)
        return
    for g, v in rt.iterate(x):
        with rt.under(g) as live:
            if live:
                d.aug_item(v, "+", 1)


R.counter_update = _counter_update
model(dict)(_sd("dict"))
model(collections.defaultdict)(_sd("defaultdict"))
model(collections.Counter)(_sd("Counter"))
model(collections.OrderedDict)(_sd("OrderedDict"))
model(SortedDict)(_sd("SortedDict"))


@model(dict.fromkeys)
def m_fromkeys(rt, it, v=None):
    d = SDict("dict")
    for g, k in rt.iterate(it):
        with rt.under(g) as live:
            if live:
                d.set_item(k, v)
    return d


@model(set, frozenset)
def m_set(rt, x=()):
    if not isinstance(x, (GenObj, SList, SymUnion, SDict, SSet, DView)) and type(x) not in SYM_CLASSES and not rt.is_sym(x):
        m = getattr(type(x), "__iter__", None)
        if m is None or not getattr(m, "__psx__", False):
            return set(x)
    return SSet(x)


@model(collections.deque)
def m_deque(rt, x=(), maxlen=None):
    if maxlen is None:
        return Deque(m_list(rt, x).pairs())
    ps = _defpairs(rt, x)
    return Deque(ps[-maxlen:] if maxlen else [], maxlen)


class Deque(SList):
    __slots__ = ("maxlen",)

    def __init__(self, ps=(), maxlen=None):
        SList.__init__(self, [v for _, v in ps], [g for g, _ in ps] if ps else None)
        self.maxlen = maxlen

    def append(self, v):
        SList.append(self, v)
        if self.maxlen is not None and list.__len__(self) > self.maxlen:
            SList.pop(self, 0)

    def popleft(self):
        return SList.pop(self, 0)

    def appendleft(self, v):
        SList.insert(self, 0, v)

    def rotate(self, n=1):
        vals = list(SList._definite(self))
        if vals:
            n %= len(vals)
            self._set(vals[-n:] + vals[:-n] if n else vals, None)


@model(slice)
def m_slice(rt, *a):
    return slice(*a)


@model(copy.copy)
def m_copy(rt, x):
    if isinstance(x, SymUnion):
        return rt.dist(x, lambda y: m_copy(rt, y))
    if isinstance(x, SList):
        return x.copy()
    if isinstance(x, (SDict, SSet, Vec)):
        return x.copy()
    if isinstance(x, (Sym, tuple)):
        return x
    return copy.copy(x)


@model(copy.deepcopy)
def m_deepcopy(rt, x, *a):
    if isinstance(x, SymUnion):
        return rt.dist(x, lambda y: m_deepcopy(rt, y))
    if isinstance(x, Sym):
        return x
    if isinstance(x, tuple):
        vals = [m_deepcopy(rt, y) for y in x]
        return tuple(vals) if type(x) is tuple else type(x)(*vals)
    if isinstance(x, SList):
        return SList([m_deepcopy(rt, v) for v in list.__iter__(x)], None if x.guards is None else list(x.guards))
    if isinstance(x, (SDict, Vec)):
        return x.copy()
    return copy.deepcopy(x, *a)


# ------------------------------------------------------------------ itertools, functools, operator
@model(itertools.chain)
def m_chain(rt, *xs):
    def gen():
        for x in xs:
            yield from rt.iterate(x)

    return GenObj(gen())


@model(itertools.chain.from_iterable)
def m_chainfi(rt, xs):
    def gen():
        for g, x in rt.iterate(xs):
            for h, v in rt.iterate(x):
                t = rt.ctx.land(g, h)
                if t != 0:
                    yield t, v

    return GenObj(gen())


@model(itertools.islice)
def m_islice(rt, x, *a):
    a = tuple(rt.conc(v) for v in a)
    s = slice(*a) if len(a) > 1 else slice(a[0])
    st, sp, step = s.start or 0, s.stop, s.step or 1
    if isinstance(x, GenObj):
        src = x
        out = []

        def gen():
            i = 0
            while sp is None or i < sp:
                p = src.pull()
                if p is None:
                    return
                if p[0] != 1:
                    rest = rt.compact([p] + [q for q in iter(src.pull, None)])
                    for q in rest[max(st - i, 0): None if sp is None else sp - i: step]:
                        yield q
                    return
                if i >= st and (i - st) % step == 0:
                    yield p
                i += 1

        return GenObj(gen())
    if not rt._nativelike(x) or isinstance(x, (Sym, SList)) or type(x) in SYM_CLASSES or isinstance(x, (tuple, list, DView, SDict)):
        it = rt.iterate(x)

        def gen2():
            i = 0
            for p in it:
                if sp is not None and i >= sp:
                    return
                if p[0] != 1:
                    rest = rt.compact([p] + list(it))
                    for q in rest[max(st - i, 0): None if sp is None else sp - i: step]:
                        yield q
                    return
                if i >= st and (i - st) % step == 0:
                    yield p
                i += 1
                if sp is not None and i >= sp:
                    return

        return GenObj(gen2())
    return GenObj((1, v) for v in itertools.islice(x, *a))


@model(itertools.product)
def m_product(rt, *xs, repeat=1):
    cols = [_defpairs(rt, x) for x in xs] * rt.conc(repeat)
    cols = [[v for _, v in c] for c in cols]
    return GenObj((1, t) for t in itertools.product(*cols))


def _comb(fn):
    def h(rt, x, *a):
        vals = [v for _, v in _defpairs(rt, x)]
        return GenObj((1, t) for t in fn(vals, *[rt.conc(y) for y in a]))

    return h


for _f in (itertools.permutations, itertools.combinations, itertools.combinations_with_replacement):
    model(_f)(_comb(_f))


@model(itertools.repeat)
def m_repeat(rt, v, *n):
    if not n:
        return GenObj((1, v) for _ in itertools.count())
    return GenObj((1, v) for _ in range(rt.conc(n[0])))


@model(itertools.count)
def m_count(rt, start=0, step=1):
    def gen():
        i = start
        while True:
            yield 1, i
            i = rt.bop("+", i, step)

    return GenObj(gen())


@model(itertools.cycle)
def m_cycle(rt, x):
    ps = _defpairs(rt, x)
    return GenObj(p for p in itertools.cycle(ps))


@model(itertools.accumulate)
def m_accumulate(rt, x, f=None, initial=None):
    def gen():
        tot = initial
        have = initial is not None
        if have:
            yield 1, tot
        for g, v in rt.positional(x):
            if not have:
                tot = v
                have = True
            else:
                with rt.under(g) as live:
                    if not live:
                        continue
                    tot = rt.bop("+", tot, v) if f is None else rt.call(f, tot, v)
            yield g, tot

    return GenObj(gen())


@model(itertools.starmap)
def m_starmap(rt, f, x):
    return GenObj((g, rt.call(f, *[v for _, v in rt.iterate(t)])) for g, t in rt.iterate(x))


@model(itertools.takewhile)
def m_takewhile(rt, f, x):
    def gen():
        alive = 1
        for g, v in rt.iterate(x):
            with rt.under(rt.ctx.land(alive, g)) as live:
                if not live:
                    continue
                t = rt.truth(rt.call(f, v))
            p = rt.ctx.land_all([alive, g, t])
            if p != 0:
                yield p, v
            alive = rt.ctx.land(alive, rt.ctx.lor(g ^ 1, t))
            if alive == 0:
                return

    return GenObj(gen())


@model(itertools.dropwhile)
def m_dropwhile(rt, f, x):
    def gen():
        drop = 1
        for g, v in rt.iterate(x):
            if drop != 0:
                with rt.under(rt.ctx.land(drop, g)) as live:
                    t = rt.truth(rt.call(f, v)) if live else 1
                drop = rt.ctx.land(drop, rt.ctx.lor(g ^ 1, t))
            p = rt.ctx.land(g, drop ^ 1)
            if p != 0:
                yield p, v

    return GenObj(gen())


@model(itertools.pairwise)
def m_pairwise(rt, x):
    def gen():
        ps = rt.positional(x)
        for (g, a), (h, b) in zip(ps, ps[1:]):
            t = rt.ctx.land(g, h)
            if t != 0:
                yield t, (a, b)

    return GenObj(gen())


@model(itertools.compress)
def m_compress(rt, x, sel):
    def gen():
        for g, (v, s) in m_zip(rt, x, sel).src:
            t = rt.ctx.land(g, rt.truth(s))
            if t != 0:
                yield t, v

    return GenObj(gen())


@model(itertools.tee)
def m_tee(rt, x, n=2):
    ps = pairs(rt, x)
    return tuple(GenObj(list(ps)) for _ in range(n))


@model(itertools.groupby)
def m_groupby(rt, x, key=None):
    """groups start where the key changes: (guard, (key, group)) per possible start"""
    ps = rt.positional(x)
    keys = [v if key is None else rt.call(key, v) for _, v in ps]
    ctx = rt.ctx
    out = []
    n = len(ps)
    same = [0] * n
    for i in range(1, n):
        same[i] = rt.truth(rt.cmp("==", keys[i], keys[i - 1]))
    for i in range(n):
        st = ctx.land(ps[i][0], same[i] ^ 1)
        if st == 0:
            continue
        items = [(1, ps[i][1])]
        alive = 1
        for j in range(i + 1, n):
            alive = ctx.land_all([alive, same[j], ps[j][0]])
            if alive == 0:
                break
            items.append((alive, ps[j][1]))
        out.append((st, (keys[i], GenObj(items))))
    return GenObj(out)


@model(functools.reduce)
def m_reduce(rt, f, x, *init):
    ps = rt.positional(x)
    if init:
        cur = init[0]
    else:
        if not ps:
            raise TypeError("reduce() of empty iterable with no initial value")
        if ps[0][0] != 1:
            rt.raise_under(ps[0][0] ^ 1, TypeError("reduce() of empty iterable with no initial value"))
        cur = ps[0][1]
        ps = ps[1:]
    for g, v in ps:
        with rt.under(g) as live:
            if not live:
                continue
            new = rt.call(f, cur, v)
        cur = new if g == 1 else rt.ite(g, new, cur)
    return cur


class LRU:
    """functools.lru_cache: a call with equal arguments returns the stored result"""

    def __init__(self, f, maxsize, typed):
        self.f = f
        self.maxsize = maxsize
        self.typed = typed
        functools.update_wrapper(self, f)

    __psx__ = True

    def __get__(self, o, cls=None):
        if o is None:
            return self
        return types.MethodType(self, o)

    def cache_clear(self):
        R.V.rt().lru.pop(id(self), None)

    def cache_info(self):
        return functools._CacheInfo(0, 0, self.maxsize, 0)

    def __call__(self, *a, **k):
        rt = R.V.rt()
        if rt is None or not getattr(rt, "lru_on", False):
            return rt.call(self.f, *a, **k) if rt is not None else self.f(*a, **k)
        key = tuple(a) + ((_KW,) + tuple(sorted(k.items())) if k else ())
        if self.typed:
            key += tuple(typeof(rt, x) for x in key)
        table = rt.lru.setdefault(id(self), [])
        hit = 0
        cached = []
        for k2, v in table:
            if len(k2) != len(key):
                continue
            e = 1
            for x, y in zip(k2, key):
                if x is _KW or y is _KW:
                    e = e if x is y else 0
                    continue
                e = rt.ctx.land(e, rt.truth(rt.cmp("==", x, y)))
                if e == 0:
                    break
            t = rt.ctx.land(e, hit ^ 1)
            kk = rt.implied(t) if t > 1 else bool(t)
            if kk is True:
                cached.append((1, v))
                hit = 1
                break
            if kk is False:
                continue
            cached.append((t, v))
            hit = rt.ctx.lor(hit, t)
        if hit == 1 and len(cached) == 1:
            return cached[0][1]
        if hit != 0 and rt.decide_lit(hit):
            return rt.union(cached)
        r = rt.call(self.f, *a, **k)
        table.append((key, r))
        return r


_KW = object()


@model(functools.lru_cache)
def m_lru(rt, maxsize=128, typed=False):
    if callable(maxsize):
        return LRU(maxsize, 128, typed)
    return lambda f: LRU(f, maxsize, typed)


@model(functools.cache)
def m_cache(rt, f):
    return LRU(f, None, False)


@model(functools.cached_property)
def m_cached_property(rt, f):
    return property(f)


@model(functools.wraps)
def m_wraps(rt, f, *a, **k):
    def deco(g):
        functools.update_wrapper(g, f, *a, **k)
        try:
            g.__psx__ = True
        except AttributeError:
            pass
        return g

    return deco


model(functools.partial)(lambda rt, *a, **k: functools.partial(*a, **k))
model(functools.cmp_to_key)(lambda rt, f: functools.cmp_to_key(f))

for _n in ("attrgetter", "itemgetter", "methodcaller"):
    model(getattr(operator, _n))((lambda f: lambda rt, *a, **k: f(*a, **k))(getattr(operator, _n)))

for _o, _f in _OPS.items():
    model(_f)((lambda o: lambda rt, a, b: rt.bop(o, a, b))(_o))
for _o, _f in _CMPS.items():
    if _o not in ("in", "not in"):
        model(_f)((lambda o: lambda rt, a, b: rt.cmp(o, a, b))(_o))
model(operator.neg)(lambda rt, a: rt.uop("-", a))
model(operator.inv)(lambda rt, a: rt.uop("~", a))
model(operator.contains)(lambda rt, a, b: rt.cmp("in", b, a))
model(operator.getitem)(lambda rt, a, b: rt.getitem(a, b))
model(operator.index)(lambda rt, a: m_int(rt, a))
model(operator.countOf)(lambda rt, a, b: _sum(rt, [(rt.ctx.land(g, rt.truth(rt.cmp("==", v, b))), 1) for g, v in rt.iterate(a)]))
for _o, _f in {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "|": operator.ior, "&": operator.iand, "^": operator.ixor}.items():
    model(_f)((lambda o: lambda rt, a, b: rt.iop(o, a, b))(_o))


def _bis(side):
    op = "<" if side == "left" else "<="

    def h(rt, a, x, lo=0, hi=None, key=None):
        if isinstance(a, SymUnion):
            return rt.dist(a, lambda y: h(rt, y, x, lo, hi, key))
        ps = rt.positional(a)
        n = 0
        if rt.fork:
            # the list is sorted: a binary search by forking is exact
            vals = [v for g, v in ps if g == 1 or rt.decide_lit(g)]
            i, j = lo, len(vals) if hi is None else hi
            while i < j:
                m = (i + j) // 2
                v = vals[m] if key is None else rt.call(key, vals[m])
                if rt.decide(rt.cmp(op, v, x)):
                    i = m + 1
                else:
                    j = m
            return i
        if hi is not None or lo:
            ps = ps[lo:hi]
        acc = []
        for g, v in ps:
            v = v if key is None else rt.call(key, v)
            acc.append((rt.ctx.land(g, rt.truth(rt.cmp(op, v, x))), 1))
        return rt.bop("+", lo, _sum(rt, acc))

    return h


model(bisect.bisect_left)(_bis("left"))
model(bisect.bisect_right)(_bis("right"))


@model(bisect.insort_right, bisect.insort_left)
def m_insort(rt, a, x, *r, **k):
    i = rt.conc(_bis("right")(rt, a, x))
    a.insert(i, x)


@model(heapq.nlargest)
def m_nlargest(rt, n, x, key=None):
    return SList(m_sorted(rt, x, key=key, reverse=True)[: rt.conc(n)])


@model(heapq.nsmallest)
def m_nsmallest(rt, n, x, key=None):
    return SList(m_sorted(rt, x, key=key)[: rt.conc(n)])


@model(statistics.mean, statistics.fmean, np.mean)
def m_mean(rt, x, *a, **k):
    ps = pairs(rt, x)
    if concrete(rt, [v for _, v in ps]) and all(g == 1 for g, _ in ps):
        return np.mean([v for _, v in ps])
    n = _sum(rt, [(g, 1) for g, _ in ps])
    return rt.bop("/", tonp(_sum(rt, ps)), n)


# ------------------------------------------------------------------ dataclasses
@model(dataclasses.dataclass)
def m_dataclass(rt, *a, **k):
    if a and isinstance(a[0], type):
        return dataclasses.dataclass(*a, **k)
    return lambda c: dataclasses.dataclass(c, **k)


@model(dataclasses.astuple)
def m_astuple(rt, o, *, tuple_factory=tuple):
    if isinstance(o, SymUnion):
        return rt.dist(o, lambda x: m_astuple(rt, x))
    return tuple(_plain_dc(rt, rt.getattr(o, f.name), tuple) for f in dataclasses.fields(o))


@model(dataclasses.asdict)
def m_asdict(rt, o, *, dict_factory=dict):
    if isinstance(o, SymUnion):
        return rt.dist(o, lambda x: m_asdict(rt, x))
    d = SDict("dict")
    for f in dataclasses.fields(o):
        d.set_item(f.name, rt.getattr(o, f.name))
    return d


def _plain_dc(rt, v, t):
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return m_astuple(rt, v)
    if isinstance(v, SList):
        return v.copy()
    return v


@model(dataclasses.replace)
def m_replace(rt, o, **k):
    if isinstance(o, SymUnion):
        return rt.dist(o, lambda x: m_replace(rt, x, **k))
    vals = {f.name: rt.getattr(o, f.name) for f in dataclasses.fields(o) if f.init}
    vals.update(k)
    return rt.call(type(o), **vals)


model(dataclasses.field)(lambda rt, *a, **k: dataclasses.field(*a, **k))
model(dataclasses.fields)(lambda rt, o: SList(dataclasses.fields(o)))
model(dataclasses.is_dataclass)(lambda rt, o: dataclasses.is_dataclass(o))


# ------------------------------------------------------------------ numpy
@model(np.arange)
def m_arange(rt, *a, **k):
    if concrete(rt, a):
        return np.arange(*a, **k)
    if k or any(isinstance(x, float) for x in a):
        return np.arange(*[rt.conc(x) for x in a], **k)
    x = m_range(rt, *a)
    if isinstance(x, range):
        return np.arange(*[rt.conc(x) for x in a])
    return Vec([v for _, v in x.pairs()], None, False, guards=[g for g, _ in x.pairs()])


@model(np.array, np.asarray, np.asanyarray, np.fromiter)
def m_array(rt, x, dtype=None, *a, **k):
    if isinstance(x, (Vec, Counts)):
        v = x.conc() if isinstance(x, Counts) else Vec(x.vals, None, False, guards=x.guards, dtype=x._dtype)
        return v.astype(dtype) if dtype is not None else v
    if isinstance(x, (SList, tuple, list, GenObj, DView)):
        vals = [v for _, v in _defpairs(rt, x)]
        if any(rt.is_sym(v) for v in vals):
            if any(isinstance(v, (list, tuple)) for v in vals):
                return np.array(rt.conc(SList(vals)), dtype, *a, **k)
            v = Vec(vals, None, False)
            return v.astype(dtype) if dtype is not None else v
        return np.array([rt._unwrap(v) for v in vals], dtype=dtype)
    if isinstance(x, (Sym,)):
        return tonp(x)
    return np.array(rt._unwrap(x), dtype, *a, **k)


def _vecfn(name):
    def h(rt, x, *a, **k):
        if isinstance(x, SList) or isinstance(x, tuple):
            x = m_array(rt, x)
        if isinstance(x, Vec):
            return getattr(x if name in ("sum", "any", "all") else x, name)(*a, **k)
        return getattr(np, name)(rt._unwrap(x), *[rt.conc(y) for y in a], **k)

    return h


for _n in ("cumsum", "cumprod", "prod", "ravel"):
    model(getattr(np, _n))(_vecfn(_n))


@model(np.diff)
def m_npdiff(rt, x, n=1, **k):
    v = Vec.of(x) if not isinstance(x, (list, tuple)) else Vec(x, None, False)
    if v is None or concrete(rt, v):
        return np.diff(rt.conc(x), n, **k)
    v._need()
    vals = v.vals
    for _ in range(n):
        vals = [_npsub(rt, b, a) for a, b in zip(vals, vals[1:])]
    return Vec(vals, None, False)


def _npsub(rt, b, a):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return rt.cmp("!=", a, b)
    return rt.bop("-", b, a)


@model(np.count_nonzero)
def m_cnz(rt, x, *a, **k):
    return _sum(rt, [(rt.ctx.land(g, rt.truth(v)), 1) for g, v in pairs(rt, x)])


@model(np.where)
def m_where(rt, c, *xy):
    if not xy:
        return (Vec.of(c).nonzero())
    if concrete(rt, c, xy):
        return np.where(rt.conc(c), *[rt.conc(x) for x in xy])
    cv = Vec.of(c)
    if cv is None:
        return rt.ite(rt.truth(c), *xy)
    x, y = xy
    xs = Vec.of(x).vals if Vec.of(x) is not None else [x] * len(cv.vals)
    ys = Vec.of(y).vals if Vec.of(y) is not None else [y] * len(cv.vals)
    return Vec([rt.ite(rt.truth(m), p, q) for m, p, q in zip(cv.vals, xs, ys)], None, False)


@model(np.concatenate, np.hstack)
def m_concatenate(rt, xs, *a, **k):
    vs = [Vec.of(x) if not isinstance(x, (list, tuple)) else Vec(x, None, False) for _, x in rt.iterate(xs)]
    if any(v is None for v in vs) or all(concrete(rt, v) for v in vs):
        return np.concatenate([rt.conc(x) for _, x in rt.iterate(xs)], *a, **k)
    for v in vs:
        v.definite()
    return Vec([x for v in vs for x in v.vals], None, False)


@model(np.append)
def m_npappend(rt, a, b, *r, **k):
    bs = b if isinstance(b, (Vec, list, tuple, np.ndarray, pd.Series)) else [b]
    return m_concatenate(rt, [a, bs])


@model(np.insert)
def m_npinsert(rt, a, i, v, *r, **k):
    if concrete(rt, a, v):
        return np.insert(rt.conc(a), i, rt.conc(v))
    vec = Vec.of(a).definite()
    vals = list(vec.vals)
    vals.insert(rt.conc(i), v)
    return Vec(vals, None, False)


@model(np.unique)
def m_npunique(rt, x, *a, **k):
    if a or k or concrete(rt, x):
        return np.unique(rt.conc(x), *a, **k)
    v = Vec.of(x) or Vec(x, None, False)
    u = v.unique()
    return m_npsort(rt, u)


@model(np.bincount)
def m_bincount(rt, x, weights=None, minlength=0):
    if concrete(rt, x) or weights is not None:
        return np.bincount(rt.conc(x), rt.conc(weights), minlength)
    v = Vec.of(x) or Vec(x, None, False)
    hi = 0
    for _, e in v.pairs():
        b = rt.num(e).bounds()[1] if isinstance(e, Sym) else e
        if b is None:
            return np.bincount(rt.conc(x), None, minlength)
        hi = max(hi, int(b))
    if hi + 1 > minlength:
        return np.bincount(rt.conc(v), None, minlength)
    out = []
    for k in range(hi + 1):
        out.append(_sum(rt, [(rt.ctx.land(g, rt.truth(rt.cmp("==", e, k))), 1) for g, e in v.pairs()]))
    return Vec(out + [0] * (minlength - len(out)), None, False)


@model(np.array_equal)
def m_arreq(rt, a, b, *r, **k):
    x, y = Vec.of(a) or Vec(a, None, False), Vec.of(b) or Vec(b, None, False)
    if len(x.vals) != len(y.vals):
        return False
    return m_all(rt, SList([rt.cmp("==", p, q) for p, q in zip(x.vals, y.vals)]))


@model(np.dot, np.inner, np.vdot)
def m_npdot(rt, a, b):
    if concrete(rt, a, b):
        return np.dot(rt.conc(a), rt.conc(b))
    return (Vec.of(a) or Vec(a, None, False)).dot(b)


def _fftc(n):
    out = []
    for j in range(n):
        row = []
        for k in range(n):
            t = (j * k) % n
            row.append((round(math.cos(2 * math.pi * t / n), 15), round(-math.sin(2 * math.pi * t / n), 15)))
        out.append(row)
    return out


def _fft(real_only, fn):
    def h(rt, x, n=None, *a, **k):
        v = Vec.of(x) if not isinstance(x, (list, tuple)) else Vec(x, None, False)
        if v is None or concrete(rt, v):
            return fn(rt.conc(x), n, *a, **k)
        if n is not None or a or k:
            return fn(rt.conc(x), n, *a, **k)
        v.definite()
        N = len(v.vals)
        M = _fftc(N)
        out = []
        for j in range(N // 2 + 1 if real_only else N):
            re = _sum(rt, [(1, rt.bop("*", w[0], e)) for w, e in zip(M[j], v.vals) if w[0] != 0])
            im = _sum(rt, [(1, rt.bop("*", w[1], e)) for w, e in zip(M[j], v.vals) if w[1] != 0])
            out.append(SymCplx(re, im))
        return Vec(out, None, False)

    return h


for _m in (scipy.fft, np.fft):
    model(_m.fft)(_fft(False, _m.fft))
    model(_m.rfft)(_fft(True, _m.rfft))


# ------------------------------------------------------------------ pandas
@model(pd.Series)
def m_series(rt, data=None, index=None, dtype=None, name=None, copy=False, **k):
    if isinstance(data, (Vec,)):
        v = Vec(data.vals, data._index if data.series else None, True, name or data.name, data.guards, data._dtype)
        if index is not None:
            v._index = pd.Index(list(index))
        return v.astype(dtype) if dtype is not None else v
    if isinstance(data, Counts):
        return data
    if isinstance(data, (dict, SDict)):
        d = rt.conc(data) if not rt.is_sym(data) else data
        if isinstance(d, dict):
            return pd.Series(d, index=index, dtype=dtype, name=name)
        ks, vs = [], []
        for p, kk, v in d.entries():
            if p == 1 or rt.decide_lit(p):
                ks.append(rt.conc(kk))
                vs.append(v)
        return Vec(vs, pd.Index(ks), True, name)
    if isinstance(data, (SList, tuple, list, GenObj, SymUnion)):
        ps = rt.positional(data)
        vals = []
        for g, v in ps:
            if g == 1 or rt.decide_lit(g):
                vals.append(v)
        if any(rt.is_sym(v) for v in vals):
            v = Vec(vals, pd.Index(list(index)) if index is not None else None, True, name)
            return v.astype(dtype) if dtype is not None else v
        return pd.Series([rt._unwrap(v) for v in vals], index=index, dtype=dtype, name=name)
    it = getattr(type(data), "__iter__", None)
    if it is not None and getattr(it, "__psx__", False):
        return m_series(rt, m_list(rt, data), index, dtype, name)
    if isinstance(data, Sym):
        n = len(index) if index is not None else 1
        return Vec([data] * n, pd.Index(list(index)) if index is not None else None, True, name)
    return pd.Series(rt._unwrap(data), index=rt._unwrap(index), dtype=dtype, name=name)


# ------------------------------------------------------------------ files
def _virtual(rt, path):
    files = rt.files
    if not files:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    return files.get(p)


@model(open, io.open)
def m_open(rt, file, mode="r", *a, **k):
    d = _virtual(rt, file)
    if d is None and isinstance(mode, str) and not set(mode) & set("wxa+"):
        return open(rt.conc(file), mode, *a, **k)
    from harness.filestub import File, Out, Stored

    if d is None:  # never the real file
        file, d = rt.conc(file), ("out", None)

    if d[0] in ("out", "stored") and mode in ("wb", "w", "wt", "xb", "x"):
        if d[0] == "stored" and "x" in mode:
            raise FileExistsError(file)
        rt.files[os.fspath(file)] = ("stored", Out("b" not in mode))
        return rt.files[os.fspath(file)][1]
    if d[0] in ("out", "stored") and mode in ("ab", "a", "at"):
        out = Out("b" not in mode)
        out.parts = list(d[1].parts) if d[0] == "stored" else []
        rt.files[os.fspath(file)] = ("stored", out)
        return out
    if d[0] == "out" and mode in ("rb", "r", "rt"):
        raise FileNotFoundError(file)
    if d[0] == "stored" and mode in ("rb", "r", "rt"):
        return Stored(d[1])
    if d[0] != "bytes" or "b" not in mode or "r" not in mode:
        raise Unsupported("open")
    return File(d[1])


@_func(pathlib.Path.open)
def m_popen(rt, path, mode="r", *a, **k):
    return m_open(rt, path, mode, *a, **k)


@_func(pathlib.Path.read_bytes)
def m_readbytes(rt, path):
    d = _virtual(rt, path)
    if d is None:
        return path.read_bytes()
    if d[0] in ("out", "stored"):
        return m_open(rt, path, "rb").read()
    if d[0] != "bytes":
        raise Unsupported("read_bytes")
    from harness.filestub import Content

    return Content(d[1])


def _put(text):
    def h(rt, path, data, *a, **k):
        f = m_open(rt, path, "w" if text else "wb")
        f.write(data)

    return h


_func(pathlib.Path.write_bytes)(_put(False))
_func(pathlib.Path.write_text)(_put(True))


@model(os.path.getsize)
def m_getsize(rt, path):
    d = _virtual(rt, path)
    return os.path.getsize(path) if d is None else len(d[1])


@model(os.path.exists, os.path.isfile)
def m_pexists(rt, path):
    d = _virtual(rt, path)
    return d[0] != "out" if d is not None else os.path.exists(path)


def _octets(rt, x):
    from harness.filestub import Content, File

    if isinstance(x, Content):
        return list(x.data)
    if isinstance(x, File):
        return list(x.read())
    d = _virtual(rt, x) if isinstance(x, (str, os.PathLike)) else None
    return list(d[1]) if d is not None else None


def _bytesvec(rt, x, dtype, count, offset):
    if np.dtype(dtype) not in (np.dtype("uint8"), np.dtype("int8")) or np.dtype(dtype) == np.dtype("int8"):
        raise Unsupported("dtype of bytes")
    v = x[offset:] if count in (-1, None) else x[offset:offset + count]
    return Vec([tonp(b) for b in v], None, False, None, None, np.dtype("uint8"))


@model(np.frombuffer)
def m_frombuffer(rt, buffer, dtype=float, count=-1, offset=0, **k):
    x = _octets(rt, buffer)
    if x is None:
        return np.frombuffer(buffer, dtype, count, offset, **k)
    return _bytesvec(rt, x, dtype, count, offset)


@model(np.fromfile)
def m_fromfile(rt, file, dtype=float, count=-1, sep="", offset=0, **k):
    x = _octets(rt, file)
    if x is None:
        return np.fromfile(file, dtype, count, sep, offset, **k)
    return _bytesvec(rt, x, dtype, count, offset)


@model(np.unpackbits)
def m_unpackbits(rt, a, axis=None, count=None, bitorder="big"):
    if not isinstance(a, Vec):
        return np.unpackbits(rt.conc(a), axis, count, bitorder)
    out = []
    for b in a.vals:
        bits = rt.to_bits(b)
        if bits is None:
            raise Unsupported("unpackbits")
        bs = (list(bits[0]) + [0] * 8)[:8]
        if bitorder == "big":
            bs = bs[::-1]
        out.extend(tonp(rt.mknum(rt.num(SymBool(l)), "i")) if l > 1 else np.uint8(l) for l in bs)
    if count is not None:
        out = out[:count]
    return Vec(out, None, False, None, None, np.dtype("uint8"))


@model(int.from_bytes)
def m_frombytes(rt, data, byteorder="big", *, signed=False):
    x = _octets(rt, data)
    if x is None:
        return int.from_bytes(data, byteorder, signed=signed)
    if signed:
        raise Unsupported("from_bytes")
    out = 0
    for b in x if byteorder == "big" else x[::-1]:
        out = rt.bop("+", rt.bop("*", out, 256), b)
    return out


@model(bytes, bytearray)
def m_bytes(rt, x=b"", *a, **k):
    from harness.filestub import Content

    if isinstance(x, Content):
        return x
    if isinstance(x, SList) and rt.is_sym(x):
        return Content(x)
    return bytes(rt.conc(x), *a, **k)


@model(pd.read_csv)
def m_readcsv(rt, path, **k):
    d = _virtual(rt, path)
    if d is None:
        return pd.read_csv(path, **k)
    if d[0] != "table":
        raise Unsupported("read_csv")
    rows = d[1]
    for o in ("engine", "encoding", "low_memory", "memory_map", "compression", "skipinitialspace"):
        k.pop(o, None)
    header = k.pop("header", "infer")
    names = k.pop("names", None)
    skip = k.pop("skiprows", None) or 0
    nrows = k.pop("nrows", None)
    usecols = k.pop("usecols", None)
    squeeze = k.pop("squeeze", None) or False
    keep = [k.pop("na_filter", True), k.pop("keep_default_na", True)]
    sep = k.pop("sep", None) or k.pop("delimiter", None) or ","
    dtype = k.pop("dtype", None)
    k.pop("skip_blank_lines", None)
    if k or sep != "," or not isinstance(skip, int) or dtype not in (None, object, "object"):
        raise Unsupported("read_csv")
    if not all(keep):
        rows = [[rt.tabulate(lambda x: "NA" if x != x else x, (x,), {})[0] if rt.is_sym(x) else "NA" if x != x else x for x in r] for r in rows]
    rows = rows[skip:]
    if header in ("infer", 0) and names is None:
        rows = rows[1:]  # names taken from the data: whatever they are
    elif header == 0:
        rows = rows[1:]
    elif header not in (None, "infer"):
        raise Unsupported("read_csv")
    if nrows is not None:
        rows = rows[:nrows]
    width = len(d[1][0]) if d[1] else 0
    if not rows and width == 0:
        raise pd.errors.EmptyDataError("No columns to parse from file")
    cols = list(range(width))
    if usecols is not None:
        cols = [c for c in cols if c in list(usecols)]
    from harness.framestub import Frame

    keys = list(names) if names is not None else cols
    f = Frame({key: m_series(rt, SList([r[c] for r in rows])) for key, c in zip(keys, cols)})
    return f.squeeze() if squeeze else f


@model(pd.DataFrame)
def m_dataframe(rt, data=None, *a, **k):
    if not a and not k and isinstance(data, (dict, SDict)):
        ps = list(data.items()) if isinstance(data, dict) and not isinstance(data, SDict) else [(kk, v) for p, kk, v in data.entries()]
        if rt.is_sym(data) or any(isinstance(v, (Vec, DView, SList, SymUnion)) for _, v in ps):
            from harness.framestub import Frame

            return Frame(data)
    return pd.DataFrame(rt._unwrap(data), *a, **k)


@model(pd.concat)
def m_concat(rt, objs, ignore_index=False, axis=0, **k):
    os_ = [o for _, o in rt.iterate(objs)]
    if os_ and any(type(o).__name__ == "Frame" for o in os_):
        from harness.framestub import Frame, joined

        return joined([o if isinstance(o, Frame) else Frame({c: o[c] for c in o.columns}) for o in os_])
    if not any(isinstance(o, (Vec, Counts)) for o in os_):
        return pd.concat([rt.conc(o) for o in os_], ignore_index=ignore_index, axis=axis, **k)
    if axis != 0:
        return pd.concat([rt.conc(o) for o in os_], axis=axis, **k)
    return concat([o.conc() if isinstance(o, Counts) else o for o in os_], ignore_index)


@model(pd.unique)
def m_pdunique(rt, x):
    v = Vec.of(x)
    return v.unique() if v is not None and rt.is_sym(v) else pd.unique(rt.conc(x))


@model(warnings.warn)
def m_warn(rt, message, category=None, *a, **k):
    if rt.warned is not None:
        if isinstance(message, Warning):
            category, message = type(message), str(message)
        rt.warned.append((rt.abs(), category or UserWarning, message))


# ------------------------------------------------------------------ more_itertools
try:
    import more_itertools as mi

    @model(mi.chunked)
    def m_chunked(rt, x, n, strict=False):
        vals = [v for _, v in _defpairs(rt, x)]
        n = rt.conc(n)
        return GenObj((1, SList(vals[i: i + n])) for i in range(0, len(vals), n))

    @model(mi.windowed)
    def m_windowed(rt, x, n, fillvalue=None, step=1):
        vals = [v for _, v in _defpairs(rt, x)]
        return GenObj((1, w) for w in mi.windowed(vals, rt.conc(n), fillvalue, rt.conc(step)))

    @model(mi.grouper)
    def m_grouper(rt, x, n, *a, **k):
        vals = [v for _, v in _defpairs(rt, x)]
        return GenObj((1, w) for w in mi.grouper(vals, n, *a, **k))

    @model(mi.split_at)
    def m_split_at(rt, x, pred, maxsplit=-1, keep_separator=False):
        ctx = rt.ctx
        ps = rt.positional(x)
        seps = [rt.truth(rt.call(pred, v)) for _, v in ps]
        out = []
        n = len(ps)

        def group(i):
            items, alive = [], 1
            for j in range(i, n):
                alive = ctx.land_all([alive, ps[j][0], seps[j] ^ 1])
                if alive == 0:
                    break
                items.append((alive, ps[j][1]))
            return SList([v for _, v in items], [g for g, _ in items])

        out.append((1, group(0)))
        for i in range(n):
            g = ctx.land(ps[i][0], seps[i])
            if g != 0:
                if keep_separator:
                    out.append((g, SList([ps[i][1]])))
                out.append((g, group(i + 1)))
        return GenObj(out)

    model(mi.ilen)(lambda rt, x: _sum(rt, [(g, 1) for g, _ in rt.iterate(x)]))
    model(mi.first)(lambda rt, x, *d: m_next(rt, m_iter(rt, x), *d))
    model(mi.pairwise)(m_pairwise)

    @model(mi.sliding_window)
    def m_sw(rt, x, n):
        vals = [v for _, v in _defpairs(rt, x)]
        n = rt.conc(n)
        return GenObj((1, tuple(vals[i: i + n])) for i in range(len(vals) - n + 1))

    @model(mi.consume)
    def m_consume(rt, it, n=None):
        for _ in rt.iterate(it):
            pass

    @model(mi.run_length.encode)
    def m_rle(rt, x):
        return GenObj((g, (k, m_list(rt, gr).__class__ and rt.m_len(m_list(rt, gr)))) for g, (k, gr) in m_groupby(rt, x).src)
except ImportError:  # pragma: no cover
    pass


# ------------------------------------------------------------------ random
class SymRandom:
    """source of symbolic bits; the harness sets rt.random_bits"""

    def __init__(self, *a):
        pass

    def getrandbits(self, k):
        rt = R.V.rt()
        k = rt.conc(k)
        return rt.from_bits([rt.ctx.new_bit(f"rnd{len(rt.ctx.nodes)}_{i}") for i in range(k)], 0) if k else 0

    def random(self):
        rt = R.V.rt()
        return rt.var_real(f"rnd{len(rt.ctx.nodes)}", 0, 1)


# ----------------------------------------------------------------- pickle
class Pickled:
    """what pickle would write: a copy made by the pickle protocol"""

    def __init__(self, obj):
        self.obj = obj


def _picklable(f):
    name = getattr(f, "__qualname__", "")
    if "<lambda>" in name or "<locals>" in name:
        raise AttributeError(f"Can't pickle local object {name!r}")


_OWN = {"__reduce__": object.__reduce__, "__reduce_ex__": object.__reduce_ex__, "__getstate__": getattr(object, "__getstate__", None)}


def _special(cls, name):
    """the class's own version of a method of the protocol"""
    m = getattr(cls, name, None)
    return None if m is None or m is _OWN.get(name) else m


def _copy_state(rt, x, memo):
    """x as it is after being pickled and unpickled"""
    if isinstance(x, SymUnion):
        parts = [(g, _copy_state(rt, v, memo)) for g, v in x.alts]
        return x if all(a is b for (_, a), (_, b) in zip(x.alts, parts)) else rt.union(parts)
    if isinstance(x, (Sym, Vec, DView, Counts)) or x is None or isinstance(x, (str, int, float, complex, bytes)):
        return x
    if id(x) in memo:
        return memo[id(x)][0]

    def keep(new):
        memo[id(x)] = (new, x)
        return new

    if isinstance(x, SDict):
        if x.kind == "defaultdict" and x.default_factory is not None:
            _picklable(x.default_factory)
        new = keep(x.copy())
        for c in new.e.values():
            c[1] = _copy_state(rt, c[1], memo)
        for c in new.sk:
            c[2] = _copy_state(rt, c[2], memo)
        return new
    if isinstance(x, SList):
        return keep(SList([_copy_state(rt, v, memo) for v in list.__iter__(x)], None if x.guards is None else list(x.guards)))
    if isinstance(x, GenObj) or isinstance(x, types.GeneratorType):
        raise TypeError("cannot pickle 'generator' object")
    if isinstance(x, (types.FunctionType, types.MethodType)) or callable(x) and not isinstance(x, type) and hasattr(x, "__qualname__"):
        _picklable(x)
        return x
    if isinstance(x, type):
        _picklable(x)
        return x
    if type(x) in (list, set, frozenset):
        return keep(type(x)([_copy_state(rt, v, memo) for v in x]))
    if type(x) is tuple:
        return tuple(_copy_state(rt, v, memo) for v in x)
    if isinstance(x, collections.defaultdict) and x.default_factory is not None:
        _picklable(x.default_factory)
    if type(x) is dict or type(x) in (collections.defaultdict, collections.Counter, collections.OrderedDict, SortedDict):
        new = keep(x.copy())
        for k, v in x.items():
            new[k] = _copy_state(rt, v, memo)
        return new
    cls = type(x)
    if not getattr(cls, "__module__", "").startswith(("coinflip", "harness")):
        return x
    _picklable(cls)
    reduce = _special(cls, "__reduce_ex__") or _special(cls, "__reduce__")
    if reduce is not None:
        args = (x, 4) if _special(cls, "__reduce_ex__") else (x,)
        got = rt.call(reduce, *args)
        if not isinstance(got, tuple) or len(got) not in (2, 3):
            raise Unsupported("pickle: __reduce__")
        new = keep(rt.call(_copy_state(rt, got[0], memo), *[_copy_state(rt, v, memo) for v in got[1]]))
        state = got[2] if len(got) == 3 else None
    else:
        if isinstance(x, (list, dict, set)) or getattr(cls, "__slots__", None):
            raise Unsupported("pickle: " + cls.__name__)
        if isinstance(x, tuple):
            new = keep(tuple.__new__(cls, [_copy_state(rt, v, memo) for v in x]))
        elif isinstance(x, BaseException):
            new = keep(rt.call(cls, *x.args))
        else:
            new = keep(cls.__new__(cls))
        get = _special(cls, "__getstate__")
        state = rt.call(get, x) if get is not None else dict(getattr(x, "__dict__", {}))
    if state is not None:
        state = _copy_state(rt, state, memo)
        put = _special(cls, "__setstate__")
        if put is not None:
            rt.call(put, new, state)
        elif state:
            for k, v in (state.items() if isinstance(state, dict) else [(k, v) for _, k, v in state.entries()]):
                new.__dict__[k] = v
    return new


@model(pickle.dumps)
def m_pdumps(rt, obj, protocol=None, **k):
    return Pickled(_copy_state(rt, obj, {}))


@model(pickle.loads)
def m_ploads(rt, data, **k):
    if not isinstance(data, Pickled):
        raise Unsupported("pickle.loads")
    return _copy_state(rt, data.obj, {})


@model(pickle.dump)
def m_pdump(rt, obj, file, protocol=None, **k):
    rt.call(rt.getattr(file, "write"), m_pdumps(rt, obj))


@model(pickle.load)
def m_pload(rt, file, **k):
    return m_ploads(rt, rt.call(rt.getattr(file, "read")))
