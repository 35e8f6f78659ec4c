"""Goals, their discharge, and replay of counterexamples on the real code.

A harness is a plain Python function ``h(inp, **params)``.  The same source is
executed twice: symbolically (transformed, together with the transformed
``coinflip`` sources), where ``inp`` hands out symbolic values and collects
goals for the solver, and natively (ordinary CPython, ordinary pandas, the
real code), where ``inp`` hands out the values of one solver model and checks
the goals on the spot.  Only counterexamples that fail natively are reported.
"""
import json
import math
import os
import subprocess
import sys
import time
from fractions import Fraction

import numpy as np
import pandas as pd
import z3

from psx.term import Budget, Ctx, Poly, Unsupported, _norm, frac
from psx.chars import Chars
from psx.values import CUR, UNDEF, GenObj, SDict, SList, SymBool, SymNum, SymStr, SymUnion

TOL = 1e-9


class Violated(Exception):
    """a goal that fails whatever the inputs on this path"""


class SymInputs:
    def __init__(self, rt, ctx):
        self.rt = rt
        self.ctx = ctx
        self.vars = {}
        self.goals = []
        self.covers = {}

    def begin(self):
        self.goals = []
        self.rt.files = {}
        self.rt.warned = None
        self.rt.loop_stop = None

    def warnings(self):
        """the warnings issued from here on: [(category, text), ...] (forking runs)"""
        self.rt.warned = []

    def warned(self):
        out = [(c, m) for g, c, m in self.rt.warned]
        if any(g != 1 for g, c, m in self.rt.warned):
            raise Unsupported("warning under a condition")
        return out

    def stop_at_loops(self, exc):
        """loops over unknown numbers of steps end with this exception (symbolic runs only)"""
        self.rt.loop_stop = exc

    # inputs ---------------------------------------------------------------
    def bits(self, n, name="b"):
        key = ("bits", name)
        if key not in self.vars:
            self.vars[key] = self.ctx.new_bits(n, name)
        return SList([SymNum(self.ctx.b2i(l), "i") for l in self.vars[key]])

    def mixed(self, n, free, name="b", seed=1):
        """n bits of which those at the positions in free are symbolic"""
        out = fixed_bits(n, seed)
        for i, b in zip(free, list.__iter__(self.bits(len(free), name))):
            out[i] = b
        return SList(out)

    def flag(self, name):
        key = ("bits", name)
        if key not in self.vars:
            self.vars[key] = [self.ctx.new_bit(name + "0")]
        return SymBool(self.vars[key][0])

    def int(self, name, lo=None, hi=None):
        key = ("n", name)
        if key not in self.vars:
            self.vars[key] = self.rt.var_int(name, lo, hi)
        return self.vars[key]

    def real(self, name, lo=None, hi=None):
        key = ("n", name)
        if key not in self.vars:
            self.vars[key] = self.rt.var_real(name, lo, hi)
        return self.vars[key]

    def pick(self, name, options):
        """one of the options, chosen by a symbolic index"""
        n = len(options)
        if n == 1:
            return options[0]
        k = max(1, (n - 1).bit_length())
        key = ("bits", name)
        if key not in self.vars:
            self.vars[key] = self.ctx.new_bits(k, name)
        lits = self.vars[key]
        ctx = self.ctx
        alts = []
        rest = 1
        for i in range(n - 1):
            l = ctx.land_all([lits[j] if (i >> j) & 1 else lits[j] ^ 1 for j in range(k)])
            alts.append((l, options[i]))
            rest = ctx.land(rest, l ^ 1)
        alts.append((rest, options[-1]))
        return self.rt.union(alts)

    def fork(self, name, options):
        """one of the options, a separate path each"""
        v = self.pick(name, list(range(len(options))))
        return options[self.rt.conc(v)]

    def assume(self, cond):
        self.rt.assume(cond)

    def concrete(self, v):
        return self.rt.conc(v)

    def opaque_text(self):
        """texts of unknown numbers keep their length unknown"""
        self.rt.opaque_text = True

    def file(self, data):
        """path of a binary file with these bytes"""
        path = f"/nonexistent/psx/{len(self.rt.files)}"
        self.rt.files[path] = ("bytes", data)
        return path

    def table(self, rows):
        """path of a text file with a line per row, cells separated by commas"""
        path = f"/nonexistent/psx/{len(self.rt.files)}"
        self.rt.files[path] = ("table", rows)
        return path

    def output(self):
        """path of a file to be written"""
        path = f"/nonexistent/psx/{len(self.rt.files)}"
        self.rt.files[path] = ("out", None)
        return path

    def written(self, path):
        """was the file written?"""
        return self.rt.files[path][0] == "stored"

    # goals ------------------------------------------------------------------
    def _goal(self, kind, label, a, b, tol=None):
        a, b = self._snap(a), self._snap(b)
        self.goals.append((kind, label, a, b, tol, self.rt.abs()))

    def _snap(self, v):
        """goals are decided when the harness is done: keep what v is now"""
        if isinstance(v, SList):
            if any(isinstance(x, (list, SDict)) for x in list.__iter__(v)):
                return SList([self._snap(x) for x in list.__iter__(v)], None if v.guards is None else list(v.guards))
            return v.copy() if v.guards is not None else SList(list(list.__iter__(v)))
        if isinstance(v, SDict):
            return v.copy()
        if type(v) is list:
            return [self._snap(x) for x in v]
        if type(v) is tuple:
            return tuple(self._snap(x) for x in v)
        return v

    def same(self, label, a, b):
        self._goal("same", label, a, b)

    def close(self, label, a, b, tol=TOL):
        self._goal("close", label, a, b, tol)

    def tail(self, label, p, expected, shape, stat):
        """p = expected = gammaincc(shape, stat / 2); natively a rounding
        error of stat is allowed for, as the function is steep at 0"""
        self._goal("close", label, p, expected, TOL)

    def true(self, label, c):
        self._goal("true", label, c, True)

    def fail(self, label):
        self._goal("true", label, False, True)

    def is_symbolic(self):
        return True


class NativeInputs:
    def __init__(self, model):
        self.model = model
        self.results = []
        self.assumed = True
        self.scratch = []

    def file(self, data):
        import os
        import tempfile

        if not self.scratch:
            self.scratch.append(tempfile.mkdtemp(prefix="psx"))
        fd, path = tempfile.mkstemp(prefix="psx", dir=self.scratch[0])
        with os.fdopen(fd, "wb") as f:
            f.write(bytes(data))
        return path

    def output(self):
        import os

        path = self.file(b"")
        os.unlink(path)
        return path

    def written(self, path):
        import os

        return os.path.exists(path)

    def table(self, rows):
        return self.file("".join(",".join("NA" if x != x else str(x) for x in r) + "\n" for r in rows).encode())

    def warnings(self):
        import warnings

        self.catcher = warnings.catch_warnings(record=True)
        self.log = self.catcher.__enter__()
        warnings.simplefilter("always")

    def warned(self):
        return [(w.category, str(w.message)) for w in self.log]

    def stop_at_loops(self, exc):
        pass

    def cleanup(self):
        import shutil

        for path in self.scratch:
            shutil.rmtree(path, ignore_errors=True)

    def bits(self, n, name="b"):
        return [int(self.model["b"].get(f"{name}{i}", 0)) for i in range(n)]

    def mixed(self, n, free, name="b", seed=1):
        out = fixed_bits(n, seed)
        for i, b in zip(free, self.bits(len(free), name)):
            out[i] = b
        return out

    def flag(self, name):
        return bool(self.model["b"].get(name + "0", 0))

    def int(self, name, lo=None, hi=None):
        v = self.model["n"].get(name)
        return int(Fraction(v)) if v is not None else (lo if lo is not None else 0)

    def real(self, name, lo=None, hi=None):
        v = self.model["n"].get(name)
        v = Fraction(v) if v is not None else Fraction(lo if lo is not None else 0)
        return int(v) if v.denominator == 1 else float(v)

    def pick(self, name, options):
        n = len(options)
        if n == 1:
            return options[0]
        k = max(1, (n - 1).bit_length())
        i = 0
        for j in range(k):
            if self.model["b"].get(f"{name}{j}", 0):
                i |= 1 << j
        return options[min(i, n - 1)]

    fork = pick

    def assume(self, cond):
        if not cond:
            raise Assumed

    def concrete(self, v):
        return v

    def opaque_text(self):
        pass

    def _rec(self, kind, label, a, b, ok):
        self.results.append({"label": label, "kind": kind, "actual": plain(a), "expected": plain(b), "ok": bool(ok)})

    def same(self, label, a, b):
        self._rec("same", label, a, b, nsame(a, b))

    def close(self, label, a, b, tol=TOL):
        self._rec("close", label, a, b, nclose(a, b, tol))

    def tail(self, label, p, expected, shape, stat):
        from scipy.special import gammaincc

        ok = nclose(p, expected, TOL)
        if not ok and isnum(p) and isnum(stat) and 0 <= float(p) <= 1:
            e = 1e-9 * max(1.0, abs(float(stat)))
            lo = gammaincc(float(shape), (float(stat) + e) / 2)
            hi = gammaincc(float(shape), max(float(stat) - e, 0.0) / 2)
            ok = lo - TOL <= float(p) <= hi + TOL
        self._rec("close", label, p, expected, bool(ok))

    def true(self, label, c):
        self._rec("true", label, bool(c), True, bool(c))

    def fail(self, label):
        self._rec("true", label, False, True, False)

    def is_symbolic(self):
        return False


def fixed_bits(n, seed):
    if isinstance(seed, str):
        return [int(seed[i % len(seed)]) for i in range(n)]
    """a fixed pseudo-random background"""
    x, out = (seed * 2654435761) % 2147483647 or 1, []
    for _ in range(n):
        x = x * 16807 % 2147483647
        out.append(x >> 13 & 1)
    return out


class Assumed(Exception):
    pass


def plain(v):
    """JSON form"""
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ in ("SortedKeysView", "dict_keys", "dict_values"):
        return [plain(x) for x in v]
    if isinstance(v, (pd.Series, np.ndarray)):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if v is None or isinstance(v, str):
        return v
    return repr(v)


def isnum(v):
    return isinstance(v, (int, float, np.integer, np.floating, np.bool_)) or isinstance(v, bool)


def nsame(a, b):
    if isnum(a) and isnum(b):
        if a != a or b != b:
            return a != a and b != b
        return bool(a == b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(nsame(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def nclose(a, b, tol):
    if isnum(a) and isnum(b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) * 1.0001 + 1e-12
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(nclose(x, y, tol) for x, y in zip(a, b))
    return nsame(a, b)


# ------------------------------------------------------------------ discharge
class Prover:
    """decides goals on the current path of rt"""

    def __init__(self, rt, timeout_ms=20000):
        self.rt = rt
        self.ctx = rt.ctx
        self.timeout = timeout_ms
        self.unknown = 0
        self.closed = {}

    def bad(self, lit, hyp):
        """model of path + hyp + lit, None when impossible, 'unknown'"""
        ctx = self.ctx
        if lit == 0 or 0 in hyp:
            ctx.stats.structural_goals += 1
            return None
        lits = [x for x in self.rt.path + list(hyp) + [lit] if x != 1]
        q, m = ctx.solve(lits, self.timeout, "goal")
        if q == z3.unsat:
            return None
        if q == z3.sat:
            return m
        self.unknown += 1
        return "unknown"

    def feas(self, hyp):
        if 0 in hyp:
            return False
        hyp = [h for h in hyp if h != 1]
        if not hyp:
            return True
        return self.rt.feasible(hyp)

    def goal(self, g, extra=()):
        kind, label, a, b, tol, guard = g
        hyp = ([guard] if guard != 1 else []) + list(extra)
        if not self.feas(hyp):
            return None
        rt = self.rt
        if kind == "true":
            with rt.under(guard) as live:
                lit = rt.truth(a) if live else 1
            if lit > 1 and self.lit_has_uf(lit):
                # comparisons of uninterpreted terms: by value where possible
                x = self.expand_lit(lit, hyp)
                if x < 2 or not self.lit_has_uf(x):
                    return self.bad(x ^ 1, hyp)
            return self.bad(lit ^ 1, hyp)
        return self.eq(a, b, tol, hyp)

    def cases(self, v):
        if isinstance(v, SymUnion):
            return v.alts
        if isinstance(v, SymNum) and v.alts is not None and v._poly is None:
            return v.alts
        return None

    def eq(self, a, b, tol, hyp, depth=0):
        rt, ctx = self.rt, self.ctx
        ctx.check_deadline()
        if a is b:
            return None
        sa, sb = rt.is_sym(a), rt.is_sym(b)
        if not sa and not sb:
            a, b = rt._unwrap(a), rt._unwrap(b)
            ok = nclose(a, b, tol) if tol is not None else nsame(a, b)
            return None if ok else self.bad(1, hyp)
        # containers
        la, lb = self.items(a), self.items(b)
        if la is not None or lb is not None:
            if la is None or lb is None:
                if self.cases(a) is None and self.cases(b) is None:
                    return self.bad(1, hyp)
            else:
                if any(g != 1 for g, _ in la) or any(g != 1 for g, _ in lb):
                    return self.guarded_eq(a, b, tol, hyp)
                if len(la) != len(lb):
                    return self.bad(1, hyp)
                for (_, x), (_, y) in zip(la, lb):
                    m = self.eq(x, y, tol, hyp, depth)
                    if m is not None:
                        return m
                return None
        num = rt.is_num(a) and rt.is_num(b)
        if num and isinstance(a, (SymBool, SymNum)) or num and isinstance(b, (SymBool, SymNum)):
            if not (isinstance(a, (SymBool, SymNum)) and a is not None) and not isinstance(a, (int, float, np.number, np.bool_)):
                pass
            return self.numeq(a, b, tol, hyp, depth)
        ca = self.cases(a)
        if ca is not None:
            for l, x in ca:
                h = hyp + [l]
                if self.feas(h):
                    m = self.eq(x, b, tol, h, depth)
                    if m is not None:
                        return m
            return None
        cb = self.cases(b)
        if cb is not None:
            return self.eq(b, a, tol, hyp, depth)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return self.streq(a, b, hyp)
        lit = rt.truth(rt.cmp("==", a, b))
        return self.bad(lit ^ 1, hyp)

    def streq(self, a, b, hyp):
        rt = self.rt
        ca, cb = rt.cases(a, 2000), rt.cases(b, 2000)
        if ca is None or cb is None:
            if isinstance(a, SymStr) and isinstance(b, SymStr) and rt._streq(a, b):
                return None
            return self.eq(rt.conc(a), rt.conc(b), None, hyp)
        for l, x in ca:
            for m, y in cb:
                if x != y:
                    t = self.ctx.land(l, m)
                    r = self.bad(t, hyp)
                    if r is not None:
                        return r
        return None

    def items(self, v):
        rt = self.rt
        if isinstance(v, SList):
            return list(v.pairs())
        if type(v) in (list, tuple) or (isinstance(v, tuple) and not (len(v) == 4 and v and v[0] is _fmt())):
            return [(1, x) for x in v]
        if type(v).__name__ == "Vec":
            return list(v.pairs())
        if isinstance(v, (pd.Series, np.ndarray)):
            return [(1, x) for x in v.tolist()]
        return None

    def guarded_eq(self, a, b, tol, hyp):
        rt = self.rt
        for side in (a, b):
            if isinstance(side, SList) and side.guards is not None:
                rt.make_definite(side)
        from psx.vec import Vec

        if isinstance(a, Vec) and a.guards is not None:
            a._need()
        if isinstance(b, Vec) and b.guards is not None:
            b._need()
        return self.eq(SList([v for _, v in self.items(a)]), SList([v for _, v in self.items(b)]), tol, hyp)

    def numeq(self, a, b, tol, hyp, depth):
        rt, ctx = self.rt, self.ctx
        for x in (a, b):
            if not isinstance(x, (SymNum, SymBool)) and isinstance(x, (float, np.floating)) and not math.isfinite(x):
                # symbolic reals are finite
                other = b if x is a else a
                c = self.cases(other)
                if c is not None:
                    for l, y in c:
                        h = hyp + [l]
                        if self.feas(h):
                            m = self.eq(x, y, tol, h, depth + 1)
                            if m is not None:
                                return m
                    return None
                return self.bad(1, hyp)
        pa = self.rawpoly(a)
        pb = self.rawpoly(b)
        if pa is not None and pb is not None:
            if pa == pb:
                ctx.stats.structural_goals += 1
                return None
            d = pa - pb
            if self.small(d, tol):
                return None
        # by value: both sides one-hot
        oa, ob = self.vals(a), self.vals(b)
        if oa is not None and ob is not None:
            return self.byvalue(oa, ob, tol, hyp)
        for x, y, sw in ((a, b, False), (b, a, True)):
            c = self.cases(x)
            if c is not None:
                for l, v in c:
                    h = hyp + [l]
                    if ctx.land_all(h) == 0 or not self.feas(h):
                        continue
                    yy = self.restricted(y, l)
                    m = self.eq(v, yy, tol, h, depth + 1)
                    if m is not None:
                        return m
                return None
        pa, pb = rt.num(a), rt.num(b)
        return self.polyeq(pa, pb, tol, hyp, depth)

    def vals(self, v):
        if isinstance(v, (SymNum, SymBool)):
            try:
                oh = self.rt.onehot(v, 2500) if not isinstance(v, SymNum) or v.alts is not None else self.ctx.onehot(v.poly, 700)
            except Unsupported:
                return None
            if oh is None:
                return None
            return {_norm(frac(x)): l for x, l in oh.items()}
        return {_norm(frac(v)): 1}

    def byvalue(self, oa, ob, tol, hyp):
        ctx = self.ctx
        eps = 0 if tol is None else Fraction(tol)
        bs = sorted(ob.items())
        wrong = []
        if len(oa) * len(ob) > 200000:
            return "unknown"
        inv = {}
        for y, l in bs:
            inv.setdefault(l, []).append(y)
        for x, l in oa.items():
            e = eps * max(1, abs(x))
            # the same literal on the other side settles the value
            ys = inv.get(l)
            if ys is not None and all(abs(x - y) <= e for y in ys):
                ctx.stats.structural_goals += 1
                continue
            good = [m for y, m in bs if abs(x - y) <= e]
            wrong.append(ctx.land(l, ctx.lor_all(good) ^ 1))
        return self.bad(ctx.lor_all(wrong), hyp)

    def rawpoly(self, v):
        if isinstance(v, SymNum):
            return v._poly
        return self.rt.num(v)

    def small(self, d, tol):
        """|d| within tolerance for every input, by its bounds alone"""
        t = 0 if tol is None else Fraction(tol)
        d = self.ctx.reduce(d)
        lo, hi = d.bounds()
        if lo is not None and hi is not None and -t <= lo and hi <= t:
            self.ctx.stats.structural_goals += 1
            return True
        return False

    def restricted(self, v, lit):
        rt, ctx = self.rt, self.ctx
        if isinstance(v, SymNum):
            if v.alts is not None and v._poly is None:
                keep = [(l, x) for l, x in v.alts if ctx.land(l, lit) != 0]
                if len(keep) == 1:
                    return keep[0][1]
                return v
        return v

    def polyeq(self, p, q, tol, hyp, depth):
        r = self.polyeq_(p, q, tol, hyp, depth)
        if r is not None and (self.has_uf(p) or self.has_uf(q)):
            # the model may rest on the free values of uninterpreted terms
            x, y = self.expand(p, hyp), self.expand(q, hyp)
            if x is not None and y is not None:
                return self.byvalue(x, y, tol, hyp)
        return r

    def polyeq_(self, p, q, tol, hyp, depth):
        rt, ctx = self.rt, self.ctx
        p, q = self.simp(p, hyp), self.simp(q, hyp)
        d = ctx.reduce(p - q)
        c = d.is_const()
        t = 0 if tol is None else Fraction(tol)
        if c is not None:
            big = max([1] + [abs(x) for x in (p.is_const(), q.is_const()) if x is not None])
            if abs(c) <= t * big:
                ctx.stats.structural_goals += 1
                return None
            return self.bad(1, hyp)
        if self.small(d, tol):
            return None
        # uninterpreted applications whose arguments agree
        d2 = self.match_uf(p, q, hyp, depth)
        if d2 is not None:
            if self.small(d2, tol):
                return None
            d = d2
        # split on an if-then-else condition
        if depth < 40:
            c = self.split_lit(d)
            if c is not None:
                for l in (c, c ^ 1):
                    h = hyp + [l]
                    if not self.feas(h):
                        continue
                    m = self.polyeq_(p, q, tol, h, depth + 1)
                    if m is not None:
                        return m
                return None
        try:
            oh = ctx.onehot(d, 300)
        except Unsupported:
            oh = None
        if oh is not None:
            return self.bad(ctx.lor_all([l for v, l in oh.items() if abs(v) > t]), hyp)
        if self.has_uf(d):
            oh = self.expand(p, hyp), self.expand(q, hyp)
            if oh[0] is not None and oh[1] is not None:
                return self.byvalue(oh[0], oh[1], tol, hyp)
        hi = ctx.le0(d.addc(-t)) ^ 1
        lo = ctx.le0(d.scale(-1).addc(-t)) ^ 1
        return self.bad(ctx.lor(hi, lo), hyp)

    def has_uf(self, p):
        for m in p.terms:
            for a in m:
                k = self.ctx.atoms[a]
                if k[0] == "uf":
                    return True
                if k[0] == "ite" and (self.has_uf(k[2]) or self.has_uf(k[3]) or self.lit_has_uf(k[1])):
                    return True
                if k[0] in ("div", "fdiv") and (self.has_uf(k[1]) or self.has_uf(k[2])):
                    return True
        return False

    def lit_has_uf(self, l):
        ctx = self.ctx
        k = l >> 1
        if not ctx.theory_node[k]:
            return False
        key = ("uf", k)
        if key not in self.closed:
            kind, a, b = ctx.nodes[k]
            self.closed[key] = self.has_uf(a[1]) if kind == "t" else kind == "&" and (self.lit_has_uf(a) or self.lit_has_uf(b))
        return self.closed[key]

    def split_lit(self, d):
        """an undecided condition of an if-then-else atom in d"""
        ctx = self.ctx
        best = None
        seen = set()

        def walk(p):
            nonlocal best
            if id(p) in seen:
                return
            seen.add(id(p))
            for m in p.terms:
                for a in m:
                    k = ctx.atoms[a]
                    if k[0] == "ite":
                        if best is None or (k[1] >> 1) > (best >> 1):
                            best = k[1]
                    elif k[0] in ("div", "fdiv"):
                        walk(k[1])
                        walk(k[2])
                    elif k[0] == "uf":
                        for x in k[2]:
                            walk(x)

        walk(d)
        return best

    def simp(self, p, hyp):
        """p with every if-then-else condition settled by the hypotheses"""
        if not hyp:
            return p
        ctx, rt = self.ctx, self.rt
        h = ctx.land_all(hyp)
        memo = {}

        def lit(l):
            x = ctx.land(h, l)
            if x == 0:
                return 0
            if x == h:
                return 1
            k = ("s", l)
            if k not in memo:
                memo[k] = 2
                if not rt.feasible([h, l]):
                    memo[k] = 0
                elif not rt.feasible([h, l ^ 1]):
                    memo[k] = 1
            return memo[k]

        def atom(a):
            """polynomial of one atom"""
            k = ctx.atoms[a]
            if k[0] == "b":
                v = lit(k[1])
                return None if v == 2 else ctx.const(v)
            if k[0] == "ite":
                v = lit(k[1])
                if v == 1:
                    return go(k[2])
                if v == 0:
                    return go(k[3])
                x, y = go(k[2]), go(k[3])
                return None if x is k[2] and y is k[3] else ctx.nite(k[1], x, y)
            if k[0] == "div":
                x, y = go(k[1]), go(k[2])
                return None if x is k[1] and y is k[2] else rt.poly_div(x, y)
            if k[0] == "uf":
                xs = tuple(go(x) for x in k[2])
                if all(x is y for x, y in zip(xs, k[2])):
                    return None
                cs = [x.is_const() for x in xs]
                if all(c is not None for c in cs):
                    from psx.term import uf_eval

                    try:
                        return ctx.const(uf_eval(k[1], [float(c) for c in cs]))
                    except Exception:
                        pass
                return Poly(ctx, {(ctx.atom("uf", k[1], xs),): 1})
            return None

        def go(p):
            if id(p) in memo:
                return memo[id(p)][1]
            if len(p.terms) > 400:
                return p
            r = None
            for m, c in p.terms.items():
                subs = [(a, atom(a)) for a in m]
                if any(s is not None for _, s in subs):
                    if r is None:
                        r = p
                    t = ctx.const(c)
                    for a, s in subs:
                        t = t * (s if s is not None else Poly(ctx, {(a,): 1}))
                    r = r + Poly(ctx, {m: -c}) + t
            out = p if r is None else r
            memo[id(p)] = (p, out)
            return out

        return go(p)

    def match_uf(self, p, q, hyp, depth):
        ctx = self.ctx

        def ufs(x):
            return [(m, c, ctx.atoms[m[0]]) for m, c in x.terms.items() if len(m) == 1 and ctx.atoms[m[0]][0] == "uf"]

        up, uq = ufs(p), ufs(q)
        if not up or not uq:
            return None
        d = p - q
        used = set()
        changed = False
        for m, c, k in up:
            if m in q.terms:
                continue
            for m2, c2, k2 in uq:
                if m2 in used or k2[1] != k[1] or len(k2[2]) != len(k[2]) or m2 in p.terms:
                    continue
                key = (m, m2, tuple(hyp), tuple(self.rt.path))
                if key not in self.closed:
                    self.closed[key] = all(
                        self.polyeq_(x, y, 1e-9, hyp, depth + 1) is None for x, y in zip(k[2], k2[2])
                    )
                if self.closed[key]:
                    used.add(m2)
                    d = d + Poly(ctx, {m2: c2}) - Poly(ctx, {m: c2})
                    changed = True
                    break
        return d if changed else None

    def expand_lit(self, l, hyp):
        """a comparison of terms with uninterpreted applications, by value"""
        ctx = self.ctx
        key = ("xl", l, tuple(hyp), tuple(self.rt.path))
        if key in self.closed:
            return self.closed[key]
        out = l
        kind, a, b = ctx.nodes[l >> 1]
        if ctx.theory_node[l >> 1]:
            if kind == "t" and self.has_uf(a[1]):
                s = self.expand(a[1], hyp)
                if s is not None:
                    out = ctx.lor_all([g for v, g in s.items() if (v <= 0 if a[0] == "<=" else v == 0)]) ^ (l & 1)
            elif kind == "&":
                out = ctx.land(self.expand_lit(a, hyp), self.expand_lit(b, hyp)) ^ (l & 1)
        self.closed[key] = out
        return out

    def expand(self, p, hyp):
        """value split of a polynomial with uninterpreted applications"""
        ctx = self.ctx
        from psx.term import uf_eval

        def go(p):
            const = p.terms.get((), 0)
            acc = {const: 1}
            for m, c in p.terms.items():
                if not m:
                    continue
                if len(m) != 1:
                    return None
                k = ctx.atoms[m[0]]
                if k[0] == "uf":
                    args = [({_norm(frac(float(x))): l for x, l in s.items()} if s else None) for s in (ctx.onehot(x, 3000) for x in k[2])]
                    if any(s is None for s in args):
                        return None
                    combos = [((), 1)]
                    for s in args:
                        combos = [(t + (v,), ctx.land(l, g)) for t, l in combos for v, g in s.items()]
                        combos = [(t, l) for t, l in combos if l != 0]
                        if len(combos) > 3000:
                            return None
                    d = {}
                    for t, l in combos:
                        try:
                            v = frac(uf_eval(k[1], [float(x) for x in t]))
                        except (Exception, Unsupported):
                            if not self.feas(hyp + [l]):
                                continue  # outside the domain, and not reachable
                            return None
                        v = _norm(v * c)
                        d[v] = ctx.lor(d.get(v, 0), l)
                elif k[0] == "ite" and self.has_uf(Poly(ctx, {m: 1})):
                    d = {}
                    cond = self.expand_lit(k[1], hyp)
                    for g, br in ((cond, k[2]), (cond ^ 1, k[3])):
                        if g == 0:
                            continue
                        s = go(br)
                        if s is None:
                            return None
                        for v, l in s.items():
                            t = ctx.land(l, g)
                            if t != 0:
                                v = _norm(v * c)
                                d[v] = ctx.lor(d.get(v, 0), t)
                else:
                    s = ctx.onehot(Poly(ctx, {m: c}), 300)
                    if s is None:
                        return None
                    d = s
                nxt = {}
                for v, l in acc.items():
                    for w, g in d.items():
                        t = ctx.land(l, g)
                        if t != 0:
                            z = _norm(v + w)
                            nxt[z] = ctx.lor(nxt.get(z, 0), t)
                    if len(nxt) > 2500:
                        return None
                acc = nxt
            return acc

        try:
            return go(p)
        except (Unsupported, ValueError):
            return None


def _fmt():
    from psx import rt as R

    return R._FMT


# ------------------------------------------------------------------ evaluation
def evaluate(rt, v, asg, memo):
    ctx = rt.ctx
    if isinstance(v, SymBool):
        return bool(ctx.eval_lit(v.lit, asg, memo))
    if isinstance(v, SymNum):
        if v.alts is not None and v._poly is None:
            for l, x in v.alts:
                if ctx.eval_lit(l, asg, memo):
                    return evaluate(rt, x, asg, memo)
            raise LookupError
        x = ctx.eval_poly(v.poly, asg, memo)
        return int(x) if v.kind == "i" else float(x)
    if isinstance(v, SymUnion):
        for l, x in v.alts:
            if ctx.eval_lit(l, asg, memo):
                return evaluate(rt, x, asg, memo)
        raise LookupError
    if type(v) is Chars:
        return "".join(evaluate(rt, x, asg, memo) if not isinstance(x, str) else x for x in v.items)
    if isinstance(v, SymStr):
        return "".join(evaluate(rt, p, asg, memo) if not isinstance(p, str) else p for p in v.parts)
    if isinstance(v, tuple) and len(v) == 4 and v and v[0] is _fmt():
        from psx.rt import _fmtc

        return _fmtc(evaluate(rt, v[1], asg, memo), v[2], v[3])
    if isinstance(v, SList) or type(v).__name__ == "Vec":
        return [evaluate(rt, x, asg, memo) for g, x in v.pairs() if ctx.eval_lit(g, asg, memo)]
    if isinstance(v, (list, tuple)):
        return [evaluate(rt, x, asg, memo) for x in v]
    if isinstance(v, (pd.Series, np.ndarray)):
        return v.tolist()
    return v


def tojson(asg):
    b, n = {}, {}
    for (k, name), v in asg.items():
        if k == "b":
            b[name] = int(v)
        else:
            n[name] = str(Fraction(v))
    return {"b": b, "n": n}


# ------------------------------------------------------------------ native side
class Native:
    """server process running the harness on the real code"""

    def __init__(self, repo):
        self.repo = repo
        self.p = None

    def start(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ)
        env["PYTHONPATH"] = os.path.join(self.repo, "src") + os.pathsep + here
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["COLUMNS"] = "80"
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(here, "psx", "native.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=here,
            start_new_session=True,
        )
        self.owner = os.getpid()

    def alive(self):
        if self.p is None:
            return False
        if self.owner != os.getpid():
            return True
        return self.p.poll() is None

    def ensure(self):
        if not self.alive():
            self.start()

    def run(self, harness, params, model, timeout=60):
        import select

        self.ensure()
        try:
            self.p.stdin.write(json.dumps({"harness": harness, "params": params, "model": model}) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return {"error": "native process died"}
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.stop()
            return {"error": "timeout"}
        line = self.p.stdout.readline()
        if not line:
            self.stop()
            return {"error": "native process died"}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            try:
                self.p.wait(5)
            except Exception:
                pass
            self.p = None


def native_run(harness, params, model):
    """one native execution: {"results": [...]} or {"raised": ...}"""
    import importlib
    import traceback

    mod, fn = harness.split(":")
    h = getattr(importlib.import_module(mod), fn)
    inp = NativeInputs(model)
    try:
        try:
            h(inp, **params)
        finally:
            inp.cleanup()
    except Assumed:
        return {"vacuous": True, "results": inp.results}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return {"results": inp.results, "raised": f"{type(e).__name__}: {e}", "at": [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-4:]]}
    return {"results": inp.results}


def failing(res):
    """description of the first thing that fails natively, or None"""
    if res.get("error") or res.get("vacuous"):
        return None
    for r in res["results"]:
        if not r["ok"]:
            return r
    if "raised" in res:
        return {"label": "uncaught exception", "actual": res["raised"], "expected": "no exception", "at": res.get("at")}
    return None
