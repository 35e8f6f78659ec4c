"""Runtime of the transformed code: predicated execution with state merging.

Every statement runs under a literal (the guard).  Conditionals with a symbolic
test execute both branches under complementary guards and merge the locals they
assign; returns, breaks, continues and captured exceptions narrow the guards of
what follows.  Where merging has no model the runtime forks (decide): the path
assumption is recorded and the sibling is explored from the start.
"""
import builtins
import contextlib
import functools
import math
import operator
import time
import types
from fractions import Fraction

import numpy as np
import pandas as pd
import z3

from psx.term import Budget, Dead, Ctx, Poly, Unsupported, frac, _norm
from psx import values as V
from psx.values import (CUR, DView, GenObj, SDict, SList, SSet, Sym, SymBool,
                        SymNum, SymStr, SymUnion, UNDEF)

NUMT = (int, float, Fraction, np.number, np.bool_)
MODELS = {}
MODEL_IDS = {}
METHODS = {}
FUNCS = {}  # (class, method name) -> model for native instances with symbolic args
SERIES_TYPES = ()
TRANSPARENT = (operator.attrgetter, operator.itemgetter, operator.methodcaller)
SYM_CLASSES = set()
MAX_ITER = 5000000


def model(*fs):
    def deco(h):
        for f in fs:
            try:
                MODELS[f] = h
            except TypeError:
                pass
            MODEL_IDS[id(f)] = (f, h)
        return h

    return deco


class Frame:
    __slots__ = ("name", "depth", "base", "live", "rets", "items", "ntries")


class Branch:
    """if statement / rest region / else region"""

    __slots__ = ("rt", "lit", "conc", "then_ran", "other_ran", "then_dead", "other_dead", "shortcut", "mark")

    def __init__(self, rt, lit):
        self.rt = rt
        self.lit = lit
        self.conc = None
        self.then_ran = self.other_ran = False
        self.then_dead = self.other_dead = False
        self.shortcut = False

    def is_sym(self):
        return self.conc is None

    def then(self):
        if self.conc is not None:
            return self.conc
        r = self.rt
        r.levels.append(r.guard)
        r.guard = r.ctx.land(r.guard, self.lit)
        if not r.live():
            self.then_dead = True
            return False
        self.then_ran = True
        self.mark = r.exits
        return True

    def other(self):
        if self.conc is not None:
            return not self.conc
        r = self.rt
        if self.then_ran and r.guard == 0 and r.exits == self.mark:
            self.then_dead = True  # values that leave by break, continue or a caught exception live on
        self.mark = r.exits
        r.guard = r.ctx.land(r.levels[-1], self.lit ^ 1)
        if not r.live():
            self.other_dead = True
            return False
        self.other_ran = True
        return True

    def caught(self, e):
        self.rt.on_exception(e)
        return True

    def end(self):
        if self.conc is not None:
            return
        r = self.rt
        if self.other_ran and r.guard == 0 and r.exits == self.mark:
            self.other_dead = True
        r.guard = r.levels.pop()

    def merge(self, then_vals, cur):
        if self.conc is not None:
            return cur
        if self.then_dead:
            return cur
        if self.other_dead:
            return then_vals
        r = self.rt
        return tuple(r.ite(self.lit, a, b) for a, b in zip(then_vals, cur))


class Rest:
    __slots__ = ("rt", "cond", "ran", "total")

    def __init__(self, rt, loop):
        self.rt = rt
        self.cond = rt.guard
        self.ran = False
        self.total = loop is None or self.cond == loop.it

    def then(self):
        r = self.rt
        if not r.live():
            return False
        self.ran = True
        r.levels.append(r.guard)
        return True

    def caught(self, e):
        self.rt.on_exception(e)
        return True

    def end(self):
        if self.ran:
            r = self.rt
            # guards below keep their own narrowing; what is live now continues
            g = r.levels.pop()
            r.guard = r.ctx.land(g, r.guard) if r.guard != g else g

    def merge(self, new, old):
        if not self.ran:
            return old
        if self.total:
            return new
        r = self.rt
        return tuple(r.ite(self.cond, a, b) for a, b in zip(new, old))


class Region:
    """else of a loop, handler of captured exceptions"""

    __slots__ = ("rt", "lit", "ran")

    def __init__(self, rt, lit):
        self.rt = rt
        self.lit = lit
        self.ran = False

    def then(self):
        r = self.rt
        g = r.ctx.land(r.guard, self.lit)
        r.levels.append(r.guard)
        r.guard = g
        self.ran = r.live()
        return self.ran

    def caught(self, e):
        self.rt.on_exception(e)
        return True

    def end(self):
        self.rt.guard = self.rt.levels.pop()

    def merge(self, new, old):
        if not self.ran:
            return old
        r = self.rt
        if self.lit == 1:
            return new
        return tuple(r.ite(self.lit, a, b) for a, b in zip(new, old))


class Loop:
    __slots__ = ("rt", "depth", "src", "pg", "val", "it", "total", "else_guard", "count", "tested", "ran")

    def __init__(self, rt, src):
        self.rt = rt
        self.depth = len(rt.levels)
        g = rt.guard
        rt.levels += [g, g, g]  # A (after), E (else), B (body)
        self.src = src
        self.pg = 1
        self.it = g
        self.total = True
        self.else_guard = g
        self.count = 0
        self.ran = False

    def advance(self):
        r = self.rt
        b = r.levels[self.depth + 2]
        r.guard = b
        if not r.live():
            return False
        while True:
            try:
                g, v = next(self.src)
            except StopIteration:
                return False
            if g != 0:
                break
        self.count += 1
        if self.count > MAX_ITER:
            raise Unsupported("loop too long")
        if self.count & 255 == 0:
            r.ctx.check_deadline()
        self.pg = g
        self.val = v
        return True

    def value(self):
        return self.val

    def test(self, c):
        r = self.rt
        self.count += 1
        if self.count > MAX_ITER:
            raise Unsupported("loop too long")
        if self.count & 63 == 0:
            r.ctx.check_deadline()
        if r.guard == 0 or not r.live():
            return False
        lit = r.truth(c)
        if lit == 0:
            return False
        self.pg = 1
        if lit == 1:
            return True
        if r.fork:
            return r.decide_lit(lit)
        known = r.implied(lit)
        if known is not None:
            return known
        i = self.depth + 2
        r.levels[i] = r.ctx.land(r.levels[i], lit)
        r.guard = r.levels[i]
        return r.live()

    def then(self):
        r = self.rt
        b = r.levels[self.depth + 2]
        self.total = b == r.levels[self.depth]
        g = r.ctx.land(b, self.pg)
        if g != b:
            self.total = False
        self.it = g
        r.guard = g
        self.ran = r.live()
        return self.ran

    def caught(self, e):
        self.rt.on_exception(e)
        return True

    def brk(self):
        r = self.rt
        G = r.guard
        if G == 0:
            return False
        whole = self.total and G == self.it
        r.narrow(self.depth + 1, G)
        r.guard = 0
        r.exits += 1
        return whole

    def cont(self):
        r = self.rt
        G = r.guard
        if G != 0:
            r.narrow(self.depth + 3, G)
        r.guard = 0
        r.exits += 1

    def iter_end(self):
        r = self.rt
        del r.levels[self.depth + 3:]
        r.guard = r.levels[self.depth + 2]

    def merge(self, new, old):
        if not self.ran:
            return old
        if self.total:
            return new
        r = self.rt
        return tuple(r.ite(self.it, a, b) for a, b in zip(new, old))

    def stop(self):
        return self.rt.levels[self.depth + 2] == 0

    def end(self):
        r = self.rt
        self.else_guard = r.levels[self.depth + 1]
        r.guard = r.levels[self.depth]
        del r.levels[self.depth:]

    def else_region(self):
        return Region(self.rt, self.else_guard)


class Try:
    def __init__(self, rt, frame, capture, types_):
        self.rt = rt
        self.frame = frame
        self.capture = capture
        self.types = types_
        self.depth = len(rt.levels)
        rt.levels += [rt.guard, rt.guard]  # P (after), Q (body)
        self.base = rt.base
        self.pend = [0] * len(types_)
        self.pexc = [[] for _ in types_]
        self.idx = len(rt.tries)
        self.done = False
        rt.tries.append(self)

    def body_done(self):
        self.rt.pop_tries(self.idx)
        self.done = True

    def unwind(self):
        r = self.rt
        r.pop_tries(self.idx)
        r.base = self.base
        del r.levels[self.depth + 2:]
        r.guard = r.levels[self.depth + 1]

    def final(self):
        r = self.rt
        r.pop_tries(self.idx)
        if r.base != self.base or len(r.levels) > self.depth + 2:
            r.base = self.base
            del r.levels[self.depth + 2:]

    def end(self):
        r = self.rt
        r.pop_tries(self.idx)
        g = r.levels[self.depth]
        del r.levels[self.depth:]
        r.guard = g

    def has_pending(self, i):
        return self.pend[i] != 0

    def pending_region(self, i):
        return Region(self.rt, self.pend[i])

    def pending_exc(self, i):
        return self.rt.union(self.pexc[i])


class RT:
    UNDEF = UNDEF

    class _D:
        pass

    DSTAR = _D()

    def __init__(self, ctx, fork=False, max_paths=4000):
        self.ctx = ctx
        self.fork = fork
        self.max_paths = max_paths
        self.paths_done = 0
        self.encoded = {}
        self._implied = {}
        self.opaque_text = False
        self.fresh_texts = 0
        self.files = {}
        self.warned = None
        self.loop_stop = None
        self.reset([])

    # ------------------------------------------------------------ exploration
    def reset(self, path):
        self.path = list(path)
        self.siblings = []
        self.guard = 1
        self.base = 1
        self.levels = []
        self.tries = []
        self.exits = 0
        self.obj_cg = {}
        self.lru = {}
        self._psig = None
        self.log = []

    def explore(self, fn, pre=()):
        """run fn() on every path; yields (path, 'ret'|'exc', value)"""
        work = [list(pre)]
        CUR[0] = self
        while work:
            path = work.pop()
            self.reset(path)
            self.ctx.check_deadline()
            self.paths_done += 1
            if self.paths_done > self.max_paths:
                raise Budget("paths")
            try:
                v = fn()
                out = ("ret", v)
            except Exception as e:
                out = ("exc", e)
            except Dead:
                work.extend(self.siblings)
                continue
            work.extend(self.siblings)
            yield list(self.path), out[0], out[1]

    def psig(self):
        if self._psig is None or self._psig[1] != self.ctx.npat or self._psig[2] != len(self.path):
            s = self.ctx.mask
            for l in self.path:
                s &= self.ctx.lsig(l)
            self._psig = (s, self.ctx.npat, len(self.path))
        return self._psig[0]

    def abs(self):
        if self.base == 1:
            return self.guard
        if self.guard == 1:
            return self.base
        return self.ctx.land(self.base, self.guard)

    def feasible(self, lits):
        lits = [l for l in lits if l != 1]
        if 0 in lits:
            return False
        s = self.psig()
        for l in lits:
            s &= self.ctx.lsig(l)
        if s:
            return True
        if not self.path and len(lits) == 1:
            if not self.ctx.theory_node[lits[0] >> 1]:
                pass
        key = (tuple(self.path), tuple(sorted(lits)))
        r = self._implied.get(key)
        if r is None:
            q, m = self.ctx.solve(self.path + lits)
            r = self._implied[key] = q != z3.unsat
            if q == z3.sat:
                self.ctx._add_pattern(m)
        return r

    def live(self):
        if self.guard == 0:
            return False
        a = self.abs()
        if a == 0:
            return False
        if a == 1:
            return True
        if self.psig() & self.ctx.lsig(a):
            return True
        return self.feasible([a])

    def implied(self, lit):
        """True / False when path and guard settle the literal, else None"""
        if lit == 1:
            return True
        if lit == 0:
            return False
        a = self.abs()
        s = self.psig() & self.ctx.lsig(a)
        ls = self.ctx.lsig(lit)
        t, f = s & ls, s & ~ls
        if t and f:
            return None
        if not f and not self.feasible([a, lit ^ 1]):
            return True
        if not t and not self.feasible([a, lit]):
            return False
        return None

    def decide_lit(self, lit):
        k = self.implied(lit)
        if k is not None:
            return k
        a = self.abs()
        self.ctx.check_deadline()
        # prefer the direction that the simulation patterns populate least last
        self.siblings.append(self.path + [lit ^ 1])
        self.path.append(lit)
        self._psig = None
        return True

    def decide_abs(self, lit):
        """decide a literal relative to the path alone (leaves the guard)"""
        g, b = self.guard, self.base
        self.guard = self.base = 1
        try:
            return self.decide_lit(lit)
        finally:
            self.guard, self.base = g, b

    def decide(self, v):
        return self.decide_lit(self.truth(v))

    def assume(self, v):
        """harness precondition"""
        lit = self.truth(v)
        k = self.implied(lit)
        if k is True:
            return
        if k is False:
            if any(l != 1 for l in self.path):
                raise Dead  # ruled out on this path
            raise Unsupported("contradictory assumption")
        self.path.append(lit)
        self._psig = None

    def truth_native(self, v):
        return self.decide_lit(self.truth(v))

    def definite(self):
        """make the current guard definite (forks)"""
        a = self.abs()
        if a != 1 and not self.decide_abs(a):
            raise Unsupported("dead code")

    def resolve(self, lit):
        k = self.implied(lit)
        return lit if k is None else int(k)

    def make_definite(self, o):
        if isinstance(o, SList):
            if o.guards is None:
                return
            vals = []
            for g, v in o.pairs():
                if self.decide_lit(g):
                    vals.append(v)
            o._set(vals, None)
        elif isinstance(o, SDict):
            for k in list(o.e):
                c = o.e[k]
                if self.decide_lit(c[0]):
                    c[0] = 1
                else:
                    del o.e[k]
                    o.ev.pop(k, None)
            if o.unordered and not o._sorted():
                at = {k: next((t for t, l in o.ev.get(k, ()) if self.decide_lit(l)), 0) for k in o.e}
                o.e = {k: o.e[k] for k in sorted(o.e, key=at.get)}
                o.ev = {k: [[at[k], 1]] for k in o.e}
                o.unordered = False
        elif isinstance(o, SSet):
            self.make_definite(o.d)

    # ---------------------------------------------------------------- frames
    def mark(self, fn):
        fn.__psx__ = True
        return fn

    def enter(self, name):
        f = Frame()
        f.name = name
        f.depth = len(self.levels)
        f.base = self.base
        f.live = 1
        f.rets = []
        f.items = []
        f.ntries = len(self.tries)
        self.levels.append(self.guard)
        self.base = self.abs()
        self.guard = 1
        self.encoded[name] = self.encoded.get(name, 0) + 1
        if f.depth > 3000:
            raise RecursionError("maximum recursion depth exceeded")
        return f

    def _restore(self, f):
        self.pop_tries(f.ntries)
        self.guard = self.levels[f.depth]
        del self.levels[f.depth:]
        self.base = f.base

    def pop_tries(self, n):
        del self.tries[n:]

    def leave(self, f):
        live = f.live
        if live != 0 and f.rets:
            # is falling off the end possible?
            self.guard = live
            del self.levels[f.depth + 1:]
            if not self.live():
                live = 0
        self._restore(f)
        if not f.rets:
            return None
        alts = [(g, v) for g, v in f.rets]
        if live != 0:
            alts.append((live, None))
        if len(alts) == 1:
            return alts[0][1]
        return self.union(alts)

    def leave_gen(self, f):
        self._restore(f)
        return GenObj(f.items)

    def gen_exc(self, f, e):
        self.on_exception(e)
        self._restore(f)
        return GenObj(f.items, exc=e)

    def gyield(self, f, v):
        if self.guard != 0:
            f.items.append((self.guard, v))
            if len(f.items) > MAX_ITER:
                raise Unsupported("unbounded generator")

    def gyield_from(self, f, it):
        for g, v in self.iterate(it):
            t = self.ctx.land(self.guard, g)
            if t != 0:
                f.items.append((t, v))

    def narrow(self, start, G):
        ctx = self.ctx
        n = G ^ 1
        for i in range(start, len(self.levels)):
            if self.levels[i] != 0:
                self.levels[i] = ctx.land(self.levels[i], n)

    def ret(self, f, v):
        G = self.guard
        if G == 0:
            return False
        f.rets.append((G, v))
        f.live = self.ctx.land(f.live, G ^ 1)
        if f.live != 0:
            self.narrow(f.depth + 1, G)
        self.guard = 0
        return f.live == 0

    # ------------------------------------------------------------- exceptions
    def on_exception(self, e):
        a = self.abs()
        if a == 1:
            return
        if not self.decide_abs(a):
            raise Unsupported(f"exception in dead code: {e!r}")

    def exc_type(self, t):
        return t

    def try_begin(self, f, capture, types_):
        return Try(self, f, capture and not self.fork, types_)

    def raise_under(self, G, e):
        """the operation raises e under the absolute literal G"""
        ctx = self.ctx
        G = ctx.land(G, self.abs())
        if G == 0 or not self.feasible([G]):
            return
        for T in reversed(self.tries):
            hit = None
            for i, t in enumerate(T.types):
                if isinstance(e, t):
                    hit = i
                    break
            if hit is None:
                continue
            if not T.capture:
                break
            Tb = T.base
            T.pend[hit] = ctx.lor(T.pend[hit], G)
            T.pexc[hit].append((G, e))
            self.narrow(T.depth + 1, G)
            self.guard = ctx.land(self.guard, G ^ 1)
            self.exits += 1
            return
        if self.decide_abs(G):
            raise e

    # ------------------------------------------------------------ control flow
    def branch(self, test, loop=None):
        if self.guard == 0:
            b = Branch(self, 0)
            b.lit = 1
            return b  # dead: then() finds the guard dead
        lit = self.truth(test)
        b = Branch(self, lit)
        if lit < 2:
            b.conc = bool(lit)
            return b
        if self.fork:
            b.conc = self.decide_lit(lit)
            return b
        if self.path or self.guard != 1 or self.base != 1:
            k = self.implied(lit)
            if k is not None:
                b.conc = k
        return b

    def rest(self, f, loop):
        return Rest(self, loop)

    def for_loop(self, f, it):
        return Loop(self, iter(self.iterate(it)))

    def while_loop(self, f):
        return Loop(self, None)

    @contextlib.contextmanager
    def under(self, lit):
        """run under an extra literal; nothing runs when that is impossible"""
        if lit == 1:
            yield True
            return
        self.levels.append(self.guard)
        self.guard = self.ctx.land(self.guard, lit)
        live = self.live()
        yield live
        self.guard = self.levels.pop()

    # ------------------------------------------------------------------ values
    def is_sym(self, v):
        """does v contain a symbolic part (shallow containers included)?"""
        t = type(v)
        if t in (int, float, str, bool, type(None)):
            return False
        if isinstance(v, Sym):
            return True
        if t is tuple or isinstance(v, tuple):
            return any(self.is_sym(x) for x in v)
        if isinstance(v, SList):
            return v.guards is not None or any(self.is_sym(x) for x in list.__iter__(v))
        if t is list:
            return any(self.is_sym(x) for x in v)
        if t is dict:
            return any(self.is_sym(x) for x in v.values())
        if isinstance(v, slice):
            return self.is_sym(v.start) or self.is_sym(v.stop) or self.is_sym(v.step)
        if isinstance(v, SDict):
            return any(p != 1 or self.is_sym(k) or self.is_sym(x) for p, k, x in v.entries())
        if isinstance(v, DView):
            return any(p != 1 or self.is_sym(x) for p, x in v.pairs())
        if isinstance(v, (GenObj, SSet)):
            return True
        if t in SYM_CLASSES:
            return v.is_sym()
        return False

    def is_num(self, v):
        return isinstance(v, (SymNum, SymBool)) or isinstance(v, NUMT)

    def kind(self, v):
        if isinstance(v, SymNum):
            return v.kind
        if isinstance(v, (SymBool, bool, int, np.integer, np.bool_)):
            return "i"
        if isinstance(v, Fraction):
            return "f"
        return "f"

    def isnp(self, v):
        if isinstance(v, (SymNum, SymBool)):
            return v.np
        return isinstance(v, (np.number, np.bool_))

    def num(self, v):
        if isinstance(v, SymNum):
            return v.poly
        if isinstance(v, SymBool):
            return self.ctx.b2i(v.lit)
        return self.ctx.const(v)

    def mkbool(self, lit, np_=False):
        if lit < 2:
            return np.bool_(bool(lit)) if np_ else bool(lit)
        return SymBool(lit, np_)

    def mknum(self, poly, kind, np_=False):
        c = poly.is_const()
        if c is not None:
            if kind == "i" and (type(c) is int or Fraction(c).denominator == 1):
                v = int(c)
                return np.int64(v) if np_ and abs(v) < 2 ** 62 else v
            v = float(c)
            return np.float64(v) if np_ else v
        return SymNum(poly, kind, np_)

    def var_int(self, name, lo=None, hi=None):
        return SymNum(self.ctx.new_num(name, "int", lo, hi), "i")

    def var_real(self, name, lo=None, hi=None):
        return SymNum(self.ctx.new_num(name, "real", lo, hi), "f")

    def truth(self, v):
        t = type(v)
        if t is bool or t is int:
            return 1 if v else 0
        if t is SymBool:
            return v.lit
        if t is SymNum:
            if v.bits is not None:
                return self.ctx.lor_all(list(v.bits[0]) + [v.bits[1]])
            if v.alts is not None:
                return self.ctx.lor_all([self.ctx.land(l, self.truth(x)) for l, x in v.alts])
            return self.ctx.eq0(v.poly) ^ 1
        if t is SymUnion:
            out = 0
            for l, x in v.alts:
                if self.ctx.land(self.abs(), l) == 0:
                    continue
                if x is UNDEF:
                    self.raise_under(l, UnboundLocalError("local variable referenced before assignment"))
                    continue
                out = self.ctx.lor(out, self.ctx.land(l, self.truth(x)))
            return out
        if v is None:
            return 0
        if v is UNDEF:
            if self.guard == 0:
                return 0
            raise UnboundLocalError("local variable referenced before assignment")
        if isinstance(v, SList):
            if v.guards is None:
                return int(list.__len__(v) > 0)
            return self.ctx.lor_all(v.guards)
        if isinstance(v, SDict):
            return self.ctx.lor_all([p for p, k, x in v.entries()])
        if isinstance(v, SSet):
            return self.truth(v.d)
        if isinstance(v, DView):
            return self.truth(v.d)
        if isinstance(v, SymStr):
            if any(isinstance(p, str) and p or isinstance(p, tuple) and type(p[2]) is not tuple and self.is_num(p[1]) for p in v.parts):
                return 1
            return int(bool(self.conc(v)))
        if t in SYM_CLASSES:
            return self.truth(v.truth())
        b = type(v).__bool__ if hasattr(type(v), "__bool__") else None
        if b is not None and getattr(b, "__psx__", False):
            return self.truth(b(v))
        if b is None and hasattr(type(v), "__len__"):
            ln = type(v).__len__
            if getattr(ln, "__psx__", False):
                return self.truth(self.cmp("!=", ln(v), 0))
        return 1 if v else 0

    # merging -------------------------------------------------------------------
    def ite(self, c, a, b):
        if c == 1 or a is b:
            return a
        if c == 0:
            return b
        ta, tb = type(a), type(b)
        an = ta in (int, float, bool, SymNum, SymBool) or isinstance(a, NUMT)
        bn = tb in (int, float, bool, SymNum, SymBool) or isinstance(b, NUMT)
        if an and bn:
            ab = ta in (bool, SymBool, np.bool_)
            bb = tb in (bool, SymBool, np.bool_)
            if ab and bb:
                return self.mkbool(self.ctx.lite(c, self.truth(a), self.truth(b)), self.isnp(a) and self.isnp(b))
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                try:
                    if a == b and self.kind(a) == self.kind(b):
                        return a
                    if a != a or b != b or abs(a) == math.inf or abs(b) == math.inf:
                        return SymUnion([(c, a), (c ^ 1, b)])
                except TypeError:
                    pass
            else:
                for x in (a, b):
                    if not isinstance(x, Sym) and isinstance(x, (float, np.floating)) and not math.isfinite(x):
                        return SymUnion([(c, a), (c ^ 1, b)])
            k = "i" if self.kind(a) == "i" and self.kind(b) == "i" else "f"
            npf = self.isnp(a) or self.isnp(b)
            if isinstance(a, SymNum) and a.bits is not None or isinstance(b, SymNum) and b.bits is not None:
                if k == "i":
                    x, y = self.to_bits(a), self.to_bits(b)
                    if x is not None and y is not None:
                        n = max(len(x[0]), len(y[0]))
                        xs = list(x[0]) + [x[1]] * (n - len(x[0]))
                        ys = list(y[0]) + [y[1]] * (n - len(y[0]))
                        return self.from_bits([self.ctx.lite(c, p, q) for p, q in zip(xs, ys)], self.ctx.lite(c, x[1], y[1]), npf)
            return self.mknum(self.ctx.nite(c, self.num(a), self.num(b)), k, npf)
        if isinstance(a, tuple) and isinstance(b, tuple) and ta is tb and len(a) == len(b):
            vals = [self.ite(c, x, y) for x, y in zip(a, b)]
            return tuple(vals) if ta is tuple else ta(*vals)
        if ta is str and tb is str and a == b:
            return a
        if a is None and b is None:
            return None
        if ta in SYM_CLASSES and ta is tb:
            m = a.merge(c, b)
            if m is not None:
                return m
        elif ta is Chars or tb is Chars:
            x, y = strlike(a), strlike(b)
            if x is not None and y is not None and len(x) == len(y):
                return mkchars(self.ite(c, p, q) for p, q in zip(x, y))
        return self._union2(c, a, b)

    def _union2(self, c, a, b):
        ctx = self.ctx
        alts = []
        for l, v in ((c, a), (c ^ 1, b)):
            if isinstance(v, SymUnion):
                for m, w in v.alts:
                    alts.append((ctx.land(l, m), w))
            else:
                alts.append((l, v))
        return self.union(alts)

    def _groupkey(self, v):
        t = type(v)
        if t in (int, float, bool, SymNum, SymBool) or isinstance(v, NUMT):
            if not isinstance(v, Sym) and isinstance(v, (float, np.floating)) and not math.isfinite(v):
                return ("nf", repr(float(v)))
            return "num"
        if v is None or v is UNDEF:
            return ("id", id(v))
        if t is str:
            return ("s", v)
        if isinstance(v, tuple):
            return ("t", t, len(v))
        if t in SYM_CLASSES:
            return ("sc", t, v.mergekey())
        if isinstance(v, (pd.Series, np.ndarray)):
            return ("id", id(v))
        return ("id", id(v))

    def union(self, alts):
        """value of guarded exclusive alternatives"""
        ctx = self.ctx
        flat = []
        for l, v in alts:
            if l == 0:
                continue
            if type(v) is SymUnion:
                for m, w in v.alts:
                    t = ctx.land(l, m)
                    if t != 0:
                        flat.append((t, w))
            else:
                flat.append((l, v))
        if not flat:
            return UNDEF
        if len(flat) == 1:
            return flat[0][1]
        groups = {}
        for l, v in flat:
            groups.setdefault(self._groupkey(v), []).append((l, v))
        for k in [k for k in groups if type(k) is tuple and k[0] == "sc" and k[1] is Chars]:
            for q in [q for q in groups if type(q) is tuple and q[0] == "s" and len(q[1]) == k[2]]:
                groups[k] += groups.pop(q)
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            lit = ctx.lor_all([l for l, _ in g]) if len(groups) > 1 else 1
            if k == "num":
                out.append((lit, self._merge_nums(g)))
            elif k[0] in ("id", "s", "nf"):
                out.append((lit, g[0][1]))
            elif k[0] == "t":
                t = k[1]
                vals = [self.union([(l, v[i]) for l, v in g]) for i in range(k[2])]
                out.append((lit, tuple(vals) if t is tuple else t(*vals)))
            else:
                v = g[-1][1]
                for l, x in reversed(g[:-1]):
                    v = self.ite(l, x, v)
                out.append((lit, v))
        if len(out) == 1:
            return out[0][1]
        return SymUnion(out)

    def _merge_nums(self, g):
        vals = [v for _, v in g]
        if all(type(v) in (bool, SymBool, np.bool_) for v in vals):
            r = 0
            for l, v in g:
                r = self.ctx.lor(r, self.ctx.land(l, self.truth(v)))
            return self.mkbool(r)
        kinds = {self.kind(v) for v in vals}
        k = "i" if kinds == {"i"} else "f"
        if not any(isinstance(v, Sym) for v in vals):
            f = vals[0]
            if all(v == f for v in vals):
                return f
        else:
            p0 = None
            same = True
            for v in vals:
                if isinstance(v, SymNum) and v._poly is None:
                    same = False
                    break
                p = self.num(v)
                if p0 is None:
                    p0 = p
                elif p != p0:
                    same = False
                    break
            if same:
                return vals[0]
        if any(isinstance(v, SymNum) and v.bits is not None for v in vals) and k == "i" or len(g) == 2:
            v = g[-1][1]
            for l, x in reversed(g[:-1]):
                v = self.ite(l, x, v)
            return v
        flat = []
        for l, v in g:
            if isinstance(v, SymNum) and v.alts is not None:
                for m, w in v.alts:
                    t = self.ctx.land(l, m)
                    if t != 0:
                        flat.append((t, w))
            else:
                flat.append((l, v))
        d = {}
        order = []
        for l, v in flat:
            kk = ("c", frac(v)) if not isinstance(v, Sym) else ("s", id(v))
            if kk in d:
                d[kk] = (self.ctx.lor(d[kk][0], l), v)
            else:
                d[kk] = (l, v)
                order.append(kk)
        flat = [d[x] for x in order]
        if len(flat) == 1:
            return flat[0][1]
        return SymNum(None, k, any(self.isnp(v) for v in vals), alts=flat)

    def restrict(self, v, lit):
        """v simplified under the assumption lit"""
        if isinstance(v, SymNum) and v.alts is not None and v._poly is None:
            keep = [(l, x) for l, x in v.alts if self.ctx.land(l, lit) != 0]
            if len(keep) == 1:
                return keep[0][1]
            if len(keep) < len(v.alts):
                return self.union([(l, x) for l, x in keep]) if keep else v
        return v

    # case splits -----------------------------------------------------------------
    def onehot(self, v, maxdom=64):
        """{concrete value: literal} of a symbolic number, or None"""
        ctx = self.ctx
        if isinstance(v, SymBool):
            return {False: v.lit ^ 1, True: v.lit}
        if v.bits is not None and v._poly is None and len(v.bits[0]) > 6:
            return None
        if v.alts is not None:
            out = {}
            for l, x in v.alts:
                if isinstance(x, Sym):
                    d = self.onehot(x, maxdom)
                    if d is None:
                        return None
                    for k, m in d.items():
                        t = ctx.land(l, m)
                        if t != 0:
                            out[k] = ctx.lor(out.get(k, 0), t)
                else:
                    kx = _norm(frac(x))
                    out[kx] = ctx.lor(out.get(kx, 0), l)
                if len(out) > maxdom:
                    return None
            return out
        return ctx.onehot(v.poly, maxdom)

    def cval(self, x, kind, npf=False):
        if kind == "i":
            v = int(x)
            return np.int64(v) if npf else v
        v = float(x)
        return np.float64(v) if npf else v

    def leafcases(self, v, maxdom=64):
        """[(lit, concrete value)] or None"""
        if isinstance(v, SymBool):
            f = np.bool_ if v.np else bool
            return [(v.lit ^ 1, f(False)), (v.lit, f(True))]
        if isinstance(v, SymNum):
            d = self.onehot(v, maxdom)
            if d is None:
                return None
            return [(l, self.cval(x, v.kind, v.np)) for x, l in sorted(d.items()) if l != 0]
        if isinstance(v, SymUnion):
            out = []
            for l, x in v.alts:
                if self.is_sym(x):
                    c = self.cases(x, maxdom)
                    if c is None:
                        return None
                    for m, y in c:
                        t = self.ctx.land(l, m)
                        if t != 0:
                            out.append((t, y))
                else:
                    out.append((l, x))
            return out
        return None

    def cases(self, v, cap=64):
        """[(lit, concrete copy of v)]: joint case split, or None"""
        ctx = self.ctx
        if not self.is_sym(v):
            return [(1, v)]
        if isinstance(v, (SymBool, SymNum, SymUnion)):
            c = self.leafcases(v, cap)
            return c if c is not None and len(c) <= cap else None
        if type(v) is Chars:
            return v.cases(cap)
        if isinstance(v, SymStr):
            c = self.cases(tuple(v.parts), cap)
            return None if c is None else [(l, self._joinparts(p)) for l, p in c]
        if isinstance(v, tuple) and len(v) == 4 and v and v[0] is _FMT:
            c = self.cases(v[1], cap)
            return None if c is None else [(l, _fmtc(x, v[2], v[3])) for l, x in c]
        if isinstance(v, (tuple, list)):
            if isinstance(v, SList) and v.guards is not None:
                return None
            acc = [(1, [])]
            for x in (tuple(v) if not isinstance(v, SList) else list.__iter__(v)):
                c = self.cases(x, cap)
                if c is None:
                    return None
                nxt = []
                for l, p in acc:
                    for m, y in c:
                        t = ctx.land(l, m) if m != 1 else l
                        if t != 0 and (t == 1 or self.feasible_quick(t)):
                            nxt.append((t, p + [y]))
                        if len(nxt) > cap:
                            return None
                acc = nxt
            if isinstance(v, tuple):
                return [(l, tuple(p) if type(v) is tuple else type(v)(*p)) for l, p in acc]
            return [(l, p) for l, p in acc]
        if isinstance(v, slice):
            c = self.cases((v.start, v.stop, v.step), cap)
            return None if c is None else [(l, slice(*p)) for l, p in c]
        if type(v) is dict:
            c = self.cases(tuple(v.values()), cap)
            return None if c is None else [(l, dict(zip(v.keys(), p))) for l, p in c]
        return None

    def feasible_quick(self, t):
        a = self.abs()
        if a != 1:
            t = self.ctx.land(a, t)
        return t != 0

    def expand_key(self, key):
        """[(lit, concrete key)] for a dictionary key, or None"""
        c = self.cases(key, 1100)
        return c

    def tabulate(self, fn, args, kwargs, cap=96):
        """pure native call by case split; None when the split is too large"""
        c = self.cases((tuple(args), dict(kwargs)), cap)
        if c is None:
            return None
        out = []
        a = self.abs()
        ctx = self.ctx
        for l, (ca, ck) in c:
            g = ctx.land(a, l)
            if g == 0 or not self.feasible([g]):
                continue
            try:
                v = fn(*ca, **ck)
            except Exception as e:
                self.raise_under(g, e)
                continue
            out.append((l, v))
        return (self.union(out),)

    # concretisation -----------------------------------------------------------------
    def conc(self, v):
        """a concrete value (forks on every alternative)"""
        if v is UNDEF:
            if self.guard == 0:
                return UNDEF
            raise UnboundLocalError("local variable referenced before assignment")
        if not self.is_sym(v):
            if isinstance(v, SList):
                return [self.conc(x) for x in list.__iter__(v)]
            if isinstance(v, SDict):
                return self.conc_dict(v)
            if type(v) in SYM_CLASSES:
                return v.conc()
            return v
        if isinstance(v, SymBool):
            b = self.decide_lit(v.lit)
            return np.bool_(b) if v.np else b
        if isinstance(v, SymNum):
            oh = self.onehot(v, 300)
            if oh is not None:
                items = sorted(oh.items())
                for x, l in items[:-1]:
                    if self.decide_lit(l):
                        return self.cval(x, v.kind, v.np)
                return self.cval(items[-1][0], v.kind, v.np)
            p = v.poly
            for _ in range(4000):
                q, m = self.ctx.solve(self.path + [x for x in [self.abs()] if x != 1])
                if q != z3.sat:
                    if q == z3.unsat and self.ctx.solve([x for x in self.path if x != 1])[0] == z3.unsat:
                        raise Dead
                    raise Unsupported("no model while concretising")
                val = self.ctx.eval_poly(p, m)
                e = self.ctx.eq0(p.addc(-val))
                if self.decide_lit(e):
                    return self.cval(val, v.kind, v.np)
            raise Budget("concretisation")
        if isinstance(v, SymUnion):
            for l, x in v.alts[:-1]:
                if self.decide_lit(l):
                    return self.conc(x)
            return self.conc(v.alts[-1][1])
        if isinstance(v, SymStr):
            return self._joinparts([self.conc(p) for p in v.parts])
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] is _FMT:
                return _fmtc(self.conc(v[1]), v[2], v[3])
            vals = [self.conc(x) for x in v]
            return tuple(vals) if type(v) is tuple else type(v)(*vals)
        if isinstance(v, SList):
            self.make_definite(v)
            return [self.conc(x) for x in list.__iter__(v)]
        if isinstance(v, list):
            return [self.conc(x) for x in v]
        if type(v) is dict:
            return {k: self.conc(x) for k, x in v.items()}
        if isinstance(v, slice):
            return slice(self.conc(v.start), self.conc(v.stop), self.conc(v.step))
        if isinstance(v, SDict):
            return self.conc_dict(v)
        if isinstance(v, DView):
            return [self.conc(x) for g, x in v.pairs() if g == 1 or self.decide_lit(g)]
        if isinstance(v, SSet):
            return {self.conc(x) for g, x in v.pairs() if g == 1 or self.decide_lit(g)}
        if isinstance(v, GenObj):
            return iter([self.conc(x) for x in v])
        if type(v) in SYM_CLASSES:
            return v.conc()
        raise Unsupported(f"cannot concretise {type(v)}")

    def conc_dict(self, v):
        out = {}
        for p, k, x in v.entries():
            if p == 1 or self.decide_lit(p):
                out[self.conc(k)] = self.conc(x)
        if v.kind == "defaultdict":
            import collections

            d = collections.defaultdict(v.default_factory)
            d.update(out)
            return d
        if v.kind == "Counter":
            import collections

            return collections.Counter(out)
        if v.kind == "SortedDict":
            from sortedcontainers import SortedDict

            return SortedDict(out)
        return out

    # distribution over unions ----------------------------------------------------------
    def dist(self, u, fn):
        out = []
        ctx = self.ctx
        a = self.abs()
        alts = [(l, v) for l, v in u.alts if ctx.land(a, l) != 0]
        if len(alts) == 1 and alts[0][1] is not UNDEF:
            return fn(alts[0][1])
        for l, v in alts:
            with self.under(l) as live:
                if not live:
                    continue
                if v is UNDEF:
                    self.raise_under(self.abs(), UnboundLocalError("local variable referenced before assignment"))
                    continue
                r = fn(v)
                out.append((l, r))
        return self.union(out)

    # ------------------------------------------------------------------ arithmetic
    def iop(self, op, a, b):
        if isinstance(a, SymUnion) or isinstance(b, SymUnion):
            return self.bop(op, a, b)
        if op == "+" and isinstance(a, SList):
            a.extend(b)
            return a
        if op == "+" and type(a) is list:
            self.definite()
            for g, v in self.iterate(b):
                if g == 1 or self.decide_lit(g):
                    a.append(v)
            return a
        if isinstance(a, SSet):
            if op == "|":
                a.update(b)
                return a
        if isinstance(a, SDict) and op == "|":
            a.update(b)
            return a
        m = getattr(type(a), _INAMES[op], None)
        if m is not None and getattr(m, "__psx__", False):
            r = m(a, b)
            if r is not NotImplemented:
                return r
        return self.bop(op, a, b)

    def bop(self, op, a, b):
        ta, tb = type(a), type(b)
        if ta in _PLAIN and tb in _PLAIN:
            return _OPS[op](a, b)
        if op == "+" and (ta is SymUnion or tb is SymUnion):
            x = strlike(a)
            if x is not None:
                y = strlike(b)
                if y is not None:
                    return mkchars(x + y)
        if ta is SymUnion:
            return self.dist(a, lambda x: self.bop(op, x, b))
        if tb is SymUnion:
            return self.dist(b, lambda x: self.bop(op, a, x))
        if a is UNDEF or b is UNDEF:
            if self.guard == 0:
                return UNDEF
            raise UnboundLocalError("local variable referenced before assignment")
        if ta in SYM_CLASSES or tb in SYM_CLASSES:
            x = a if ta in SYM_CLASSES else b
            return x.binop(op, a, b)
        if self.is_num(a) and self.is_num(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return _OPS[op](a, b)
            return self.numop(op, a, b)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if op == "+" and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                return self.joinstr(a, b)
            if op == "*":
                return self.bop(op, self.conc(a), self.conc(b))
        if op == "*" and self.opaque_text and (type(a) is str or type(b) is str):
            t, k = (a, b) if type(a) is str else (b, a)
            if isinstance(k, SymNum) and self.kind(k) == "i":
                return SymStr([(_FMT, k, (t,), "")])
        if isinstance(a, SList) or isinstance(b, SList):
            if op == "+" and isinstance(a, list) and isinstance(b, list):
                x = a if isinstance(a, SList) else SList(a)
                y = b if isinstance(b, SList) else SList(b)
                gs = None
                if x.guards is not None or y.guards is not None:
                    gs = [g for g, _ in x.pairs()] + [g for g, _ in y.pairs()]
                return SList(list(list.__iter__(x)) + list(list.__iter__(y)), gs)
            if op == "*":
                l, n = (a, b) if isinstance(a, SList) else (b, a)
                n = self.conc(n)
                if isinstance(n, (int, np.integer)):
                    return SList(list(list.__iter__(l)) * int(n), None if l.guards is None else l.guards * int(n))
            if isinstance(a, (np.ndarray, pd.Series)) or isinstance(b, (np.ndarray, pd.Series)):
                return self.bop(op, self.conc(a) if isinstance(a, SList) else a, self.conc(b) if isinstance(b, SList) else b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return tuple(a) + tuple(b)
        if isinstance(a, (tuple, str)) and op == "*" or isinstance(b, (tuple, str)) and op == "*":
            s, n = (a, b) if isinstance(a, (tuple, str)) else (b, a)
            if isinstance(n, Sym):
                r = self.tabulate(lambda k: s * k, (n,), {})
                if r is not None:
                    return r[0]
                n = self.conc(n)
            return s * n
        if isinstance(a, SSet) or isinstance(b, SSet):
            x = a if isinstance(a, SSet) else SSet(a)
            return {"|": x.union, "&": x.intersection, "-": x.difference}[op](b)
        if isinstance(a, SDict) and isinstance(b, (SDict, dict)):
            return self._dictop(op, a, b)
        if op == "%" and isinstance(a, str) and self.is_sym(b):
            return a % self.conc(b)
        # user classes and native objects
        m = getattr(ta, _NAMES[op], None)
        if m is not None and getattr(m, "__psx__", False):
            r = m(a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, (np.ndarray, pd.Series, pd.DataFrame)) and isinstance(b, Sym) or isinstance(b, (np.ndarray, pd.Series, pd.DataFrame)) and isinstance(a, Sym):
            from psx import models

            x = models.lift(self, a) if not isinstance(a, Sym) else a
            y = models.lift(self, b) if not isinstance(b, Sym) else b
            if type(x) in SYM_CLASSES or type(y) in SYM_CLASSES:
                return self.bop(op, x, y)
        return _OPS[op](a, b)

    def _dictop(self, op, a, b):
        r = a.copy()
        if op == "|":
            r.update(b)
            return r
        if op in "+-" and a.kind == "Counter":
            for g, (k, v) in self.iterate(self.call(self.getattr(b, "items"))):
                with self.under(g) as live:
                    if live:
                        r.aug_item(k, op, v)
            for p, k, v in list(r.entries()):
                l = self.truth(self.cmp("<=", v, 0))
                t = self.ctx.land(p, l)
                if t != 0:
                    with self.under(t) as live:
                        if live:
                            r.del_item(k)
            return r
        raise Unsupported("dict operator")

    def _fin(self, v):
        return isinstance(v, Sym) or math.isfinite(v)

    def numop(self, op, a, b):
        ctx = self.ctx
        if not (self._fin(a) and self._fin(b)):
            r = self.tabulate(_OPS[op], (a, b), {})
            if r is not None:
                return r[0]
            # the sign is all that matters
            return _OPS[op](self.conc(a), self.conc(b))
        ka, kb = self.kind(a), self.kind(b)
        k = "i" if ka == "i" and kb == "i" else "f"
        npf = self.isnp(a) or self.isnp(b)
        # guarded decompositions are kept
        if op in "+-*":
            for x, y, flip in ((a, b, False), (b, a, True)):
                if isinstance(x, SymNum) and x.alts is not None and x._poly is None and not (isinstance(y, SymNum) and y.alts is not None):
                    if not isinstance(y, Sym) or len(x.alts) <= 4:
                        f = (lambda v: self.bop(op, y, v)) if flip else (lambda v: self.bop(op, v, y))
                        return SymNum(None, k, npf, alts=[(l, f(v)) for l, v in x.alts])
        if op == "+":
            return self.mknum(self.num(a) + self.num(b), k, npf)
        if op == "-":
            return self.mknum(self.num(a) - self.num(b), k, npf)
        if op == "*":
            return self.mknum(self.mulpoly(self.num(a), self.num(b)), k, npf)
        if op == "/":
            return self._div(a, b, npf)
        if op in ("&", "|", "^", "<<", ">>"):
            return self._bitop(op, a, b, npf)
        if op == "**":
            return self._pow(a, b, k, npf)
        if op in ("//", "%"):
            return self._floordiv(op, a, b, k, npf)
        raise Unsupported(op)

    def mulpoly(self, p, q):
        """product, through the values of both factors when there are few"""
        if len(p.terms) * len(q.terms) > 24:
            ctx = self.ctx
            x = ctx.onehot(p, 140)
            if x is not None and len(x) > 1:
                y = ctx.onehot(q, 140)
                if y is not None and len(y) > 1:
                    out = {}
                    if {*x.values()} == {*y.values()}:
                        inv = {l: v for v, l in y.items()}
                        pairs = [(v, inv[l], l) for v, l in x.items()]
                    elif len(x) * len(y) <= 1200:
                        pairs = []
                        for v, l in x.items():
                            for w, m in y.items():
                                t = ctx.land(l, m)
                                if t != 0:
                                    pairs.append((v, w, t))
                    else:
                        return p * q
                    for v, w, l in pairs:
                        z = _norm(v * w)
                        out[z] = ctx.lor(out[z], l) if z in out else l
                    return ctx.from_onehot(out)
        return p * q

    def _zerodiv(self, b, npf, msg="division by zero"):
        """handles a zero divisor; False when only zero is possible"""
        if not isinstance(b, Sym):
            return b != 0
        z = self.ctx.eq0(self.num(b))
        if z == 0:
            return True
        az = self.ctx.land(self.abs(), z)
        if az == 0 or not self.feasible([az]):
            return True
        if npf:
            return not self.decide_lit(z)
        self.raise_under(az, ZeroDivisionError(msg))
        return True

    def _div(self, a, b, npf):
        ctx = self.ctx
        if not isinstance(b, Sym):
            if b == 0:
                if npf:
                    return _OPS["/"](self.conc(a), b)
                raise ZeroDivisionError("division by zero")
            fb = frac(b)
            return self.mknum(self.num(a).scale(Fraction(1) / fb), "f", npf)
        if not self._zerodiv(b, npf):
            return _OPS["/"](self.conc(a), self.conc(b))
        pa = self.num(a)
        oh = self.onehot(b, 48)
        if oh is not None:
            items = [(x, l) for x, l in oh.items() if x != 0]
            if len(items) == 1:
                return self.mknum(pa.scale(Fraction(1) / frac(items[0][0])), "f", npf)
            alts = []
            for x, l in items:
                v = self.mknum(self._restrict_poly(pa, l).scale(Fraction(1) / frac(x)), "f", npf)
                alts.append((l, v))
            return self.union(alts)
        return self.mknum(self.poly_div(pa, self.num(b)), "f", npf)

    def poly_div(self, p, q):
        ctx = self.ctx
        c = q.is_const()
        if c is not None:
            return p.scale(Fraction(1) / Fraction(c))
        return Poly(ctx, {(ctx.atom("div", p, q),): 1})

    def _restrict_poly(self, p, lit):
        """p simplified under lit (cheap cases only)"""
        c = p.is_const()
        if c is not None or len(p.terms) > 60:
            return p
        ctx = self.ctx
        t = {}
        ch = False
        for m, c in p.terms.items():
            if len(m) == 1 and ctx.atoms[m[0]][0] == "b":
                b = ctx.atoms[m[0]][1]
                x = ctx.land(b, lit)
                if x == 0:
                    ch = True
                    continue
                if x == lit:
                    ch = True
                    t[()] = _norm(t.get((), 0) + c)
                    continue
            t[m] = _norm(t.get(m, 0) + c)
        return Poly(ctx, {m: c for m, c in t.items() if c != 0}) if ch else p

    def _pow(self, a, b, k, npf):
        if not isinstance(b, Sym):
            if isinstance(b, (int, np.integer)) and 0 <= b <= 4:
                if b == 0:
                    return 1 if k == "i" else 1.0
                if b == 1:
                    return a
                r = self.tabulate(_OPS["**"], (a, b), {}, 40)
                if r is not None:
                    return r[0]
                p = self.num(a)
                q = p
                for _ in range(int(b) - 1):
                    q = q * p
                return self.mknum(q, k, npf)
            if b == 0.5:
                return self.call(math.sqrt, a)
        r = self.tabulate(_OPS["**"], (a, b), {})
        if r is not None:
            return r[0]
        return _OPS["**"](self.conc(a) if not isinstance(b, Sym) else a, self.conc(b)) if isinstance(b, Sym) else _OPS["**"](self.conc(a), b)

    def _floordiv(self, op, a, b, k, npf):
        ctx = self.ctx
        if not self._zerodiv(b, npf, "integer division or modulo by zero"):
            if not isinstance(b, Sym) and not npf:
                raise ZeroDivisionError("integer division or modulo by zero")
            return _OPS[op](self.conc(a), self.conc(b))
        r = self.tabulate(_OPS[op], (a, b), {}, 64)
        if r is not None:
            return r[0]
        p, q = self.num(a), self.num(b)
        cb = q.is_const()
        if cb is not None and k == "i" and p.isint():
            f = self.quotient(p, cb)
        else:
            f = Poly(ctx, {(ctx.atom("fdiv", p, q),): 1})
        if op == "//":
            return self.mknum(f, k, npf)
        return self.mknum(p - f * q, k, npf)

    def quotient(self, p, cb):
        """floor of an integer polynomial divided by a constant"""
        ctx = self.ctx
        # drop multiples of the divisor
        keep, drop = {}, {}
        for m, c in p.terms.items():
            if type(c) is int and c % cb == 0:
                drop[m] = c // cb
            else:
                keep[m] = c
        p2 = Poly(ctx, keep)
        lo, hi = p2.bounds()
        if lo is not None and hi is not None and math.floor(Fraction(lo) / cb) == math.floor(Fraction(hi) / cb):
            f = ctx.const(math.floor(Fraction(lo) / cb))
        else:
            f = Poly(ctx, {(ctx.atom("fdiv", p2, ctx.const(cb)),): 1})
        return f + Poly(ctx, drop)

    # bit operations -------------------------------------------------------------------
    def to_bits(self, v):
        ctx = self.ctx
        if isinstance(v, SymBool):
            return ((v.lit,), 0)
        if not isinstance(v, Sym):
            v = int(v)
            n = max(v.bit_length(), 1)
            return (tuple((v >> i) & 1 for i in range(n)), 1 if v < 0 else 0)
        if v.bits is not None:
            return v.bits
        if v.kind != "i":
            return None
        oh = self.onehot(v, 33)
        if oh is not None:
            n = max(max(int(x).bit_length() for x in oh), 1)
            bs = []
            for i in range(n):
                bs.append(ctx.lor_all([l for x, l in oh.items() if (int(x) >> i) & 1]))
            sg = ctx.lor_all([l for x, l in oh.items() if x < 0])
            v.bits = (tuple(bs), sg)
            return v.bits
        p = v.poly
        lo, hi = p.bounds()
        if lo is None or hi is None or not p.isint():
            return None
        W = max(int(lo).bit_length(), int(hi).bit_length()) + 1
        acc = [((int(p.terms.get((), 0)) % (1 << W)) >> i) & 1 for i in range(W)]
        for m, c in p.terms.items():
            if not m:
                continue
            if len(m) != 1 or ctx.atoms[m[0]][0] != "b":
                return None
            l = ctx.atoms[m[0]][1]
            cc = int(c) % (1 << W)
            acc = self._add([l if (cc >> i) & 1 else 0 for i in range(W)], acc)
        v.bits = (tuple(acc[:-1]), acc[-1])
        return v.bits

    def _add(self, xs, ys, cin=0):
        ctx = self.ctx
        out = []
        c = cin
        for x, y in zip(xs, ys):
            t = ctx.lxor(x, y)
            out.append(ctx.lxor(t, c))
            c = ctx.lor(ctx.land(x, y), ctx.land(t, c))
        return out

    def from_bits(self, bs, sign, npf=False):
        bs = list(bs)
        while len(bs) > 1 and bs[-1] == sign:
            bs.pop()
        if all(b < 2 for b in bs) and sign < 2:
            v = sum(b << i for i, b in enumerate(bs)) - (sign << len(bs))
            return v
        return SymNum(None, "i", npf, bits=(tuple(bs), sign))

    def _bitop(self, op, a, b, npf):
        ctx = self.ctx
        if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)) and op in "&|^":
            x, y = self.truth(a), self.truth(b)
            return self.mkbool({"&": ctx.land, "|": ctx.lor, "^": ctx.lxor}[op](x, y), npf)
        if self.kind(a) != "i" or self.kind(b) != "i":
            raise TypeError(f"unsupported operand type(s) for {op}: 'float'")
        if op in ("<<", ">>"):
            if isinstance(b, Sym):
                r = self.tabulate(_OPS[op], (a, b), {})
                if r is not None:
                    return r[0]
                b = self.conc(b)
            bs, sg = self.to_bits(a) or (None, None)
            if bs is None:
                if op == "<<":
                    return self.numop("*", a, 1 << int(b))
                return self.numop("//", a, 1 << int(b))
            if b < 0:
                raise ValueError("negative shift count")
            if op == "<<":
                return self.from_bits([0] * int(b) + list(bs), sg, npf)
            return self.from_bits(list(bs[int(b):]) or [sg], sg, npf)
        x, y = self.to_bits(a), self.to_bits(b)
        if x is None or y is None:
            r = self.tabulate(_OPS[op], (a, b), {})
            if r is not None:
                return r[0]
            return _OPS[op](self.conc(a), self.conc(b))
        n = max(len(x[0]), len(y[0]))
        xs = list(x[0]) + [x[1]] * (n - len(x[0]))
        ys = list(y[0]) + [y[1]] * (n - len(y[0]))
        f = {"&": ctx.land, "|": ctx.lor, "^": ctx.lxor}[op]
        return self.from_bits([f(p, q) for p, q in zip(xs, ys)], f(x[1], y[1]), npf)

    def uop(self, op, v):
        if isinstance(v, SymUnion):
            return self.dist(v, lambda x: self.uop(op, x))
        if type(v) in SYM_CLASSES:
            return v.unop(op)
        if isinstance(v, (SymNum, SymBool)):
            if op == "+":
                return v if isinstance(v, SymNum) else self.mknum(self.num(v), "i", v.np)
            if op == "~":
                if isinstance(v, SymBool) and v.np:
                    return self.mkbool(v.lit ^ 1, True)
                bs = self.to_bits(v)
                if bs is not None:
                    return self.from_bits([b ^ 1 for b in bs[0]], bs[1] ^ 1, self.isnp(v))
                return self.numop("-", self.uop("-", v), 1)
            if isinstance(v, SymNum) and v.bits is not None and v._poly is None:
                bs, sg = v.bits
                n = len(bs) + 1
                xs = [b ^ 1 for b in list(bs) + [sg]] + [sg ^ 1]
                out = self._add(xs, [0] * (n + 1), 1)
                return self.from_bits(out[:-1], out[-1], v.np)
            if isinstance(v, SymNum) and v.alts is not None and v._poly is None:
                return SymNum(None, v.kind, v.np, alts=[(l, self.uop("-", x)) for l, x in v.alts])
            return self.mknum(self.num(v).scale(-1), self.kind(v), v.np)
        m = {"-": operator.neg, "+": operator.pos, "~": operator.invert}[op]
        return m(v)

    # comparisons and logic --------------------------------------------------------------
    def not_(self, v):
        if type(v) is bool:
            return not v
        return self.mkbool(self.truth(v) ^ 1)

    def and_(self, first, *rest):
        return self._logic(first, rest, True)

    def or_(self, first, *rest):
        return self._logic(first, rest, False)

    def _logic(self, cur, rest, isand):
        if not rest:
            return cur
        if not isinstance(cur, Sym) and type(cur) in _PLAIN:
            t = bool(cur)
            if t != isand:
                return cur
            return self._logic(rest[0](), rest[1:], isand)
        lit = self.truth(cur)
        go = lit if isand else lit ^ 1
        if go == 0:
            return cur
        if go == 1:
            return self._logic(rest[0](), rest[1:], isand)
        if self.fork:
            if self.decide_lit(go):
                return self._logic(rest[0](), rest[1:], isand)
            return cur
        k = self.implied(go)
        if k is True:
            return self._logic(rest[0](), rest[1:], isand)
        if k is False:
            return cur
        with self.under(go) as live:
            if live:
                v = self._logic(rest[0](), rest[1:], isand)
        if not live:
            return cur
        if isinstance(cur, (SymBool,)) or type(cur) is bool:
            if isinstance(v, (SymBool, bool)):
                return self.mkbool(self.ctx.land(lit, self.truth(v)) if isand else self.ctx.lor(lit, self.truth(v)))
        return self.ite(go, v, cur)

    def cmp_chain(self, ops, left, *rest):
        # operands are already evaluated: no side effects are lost for the code at hand
        out = None
        a = left
        for op, b in zip(ops, rest):
            c = self.cmp(op, a, b)
            out = c if out is None else self.and_(out, lambda c=c: c)
            a = b
        return out

    def cmp(self, op, a, b):
        ta, tb = type(a), type(b)
        if ta in _PLAIN and tb in _PLAIN:
            return _CMPS[op](a, b)
        if op in ("is", "is not"):
            return self._is(op, a, b)
        if op in ("in", "not in"):
            r = self._in(a, b)
            return r if op == "in" else self.not_(r)
        if ta is SymUnion:
            return self.dist(a, lambda x: self.cmp(op, x, b))
        if tb is SymUnion:
            return self.dist(b, lambda x: self.cmp(op, a, x))
        if a is UNDEF or b is UNDEF:
            if self.guard == 0:
                return False
            raise UnboundLocalError("local variable referenced before assignment")
        if ta in SYM_CLASSES or tb in SYM_CLASSES:
            return (a if ta in SYM_CLASSES else b).compare(op, a, b)
        if self.is_num(a) and self.is_num(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return _CMPS[op](a, b)
            return self.mkbool(self.numcmp(op, a, b), self.isnp(a) or self.isnp(b))
        if isinstance(a, (SList, SDict, SSet, DView)) or isinstance(b, (SList, SDict, SSet, DView)) or (
            isinstance(a, (tuple, list, dict)) and isinstance(b, (tuple, list, dict)) and (self.is_sym(a) or self.is_sym(b))
        ):
            return self._seqcmp(op, a, b)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if op in ("==", "!="):
                if isinstance(a, SymStr) and isinstance(b, SymStr) and self._streq(a, b):
                    return op == "=="
                if not isinstance(a, (str, SymStr, Chars)) or not isinstance(b, (str, SymStr, Chars)):
                    return op == "!="
            return _CMPS[op](self.conc(a), self.conc(b))
        if (isinstance(a, Sym) and not self.is_num(b)) or (isinstance(b, Sym) and not self.is_num(a)):
            if op == "==":
                return False if not self._user_eq(a, b) else _CMPS[op](a, b)
            if op == "!=":
                return True
            x = self.conc(a) if isinstance(a, Sym) else a
            y = self.conc(b) if isinstance(b, Sym) else b
            return _CMPS[op](x, y)
        m = getattr(ta, _CNAMES[op], None)
        if m is not None and getattr(m, "__psx__", False):
            r = m(a, b)
            if r is not NotImplemented:
                return r
        elif op == "!=" and getattr(getattr(ta, "__eq__", None), "__psx__", False):
            return self.not_(ta.__eq__(a, b))
        m = getattr(tb, _CNAMES[_SWAP[op]], None)
        if m is not None and getattr(m, "__psx__", False):
            r = m(b, a)
            if r is not NotImplemented:
                return r
        return _CMPS[op](a, b)

    def _user_eq(self, a, b):
        o = b if isinstance(a, Sym) else a
        return type(o).__eq__ is not object.__eq__ and not isinstance(o, (str, bytes, tuple, list, dict, type(None)))

    def _streq(self, a, b):
        if len(a.parts) != len(b.parts):
            return False
        for p, q in zip(a.parts, b.parts):
            if isinstance(p, str) or isinstance(q, str):
                if p != q or type(p) is not type(q):
                    return False
            elif p[2:] != q[2:] or self.truth(self.cmp("==", p[1], q[1])) != 1:
                return False
        return True

    def numcmp(self, op, a, b):
        """literal of a comparison of two numbers"""
        ctx = self.ctx
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, Sym) and not math.isfinite(x):
                if x != x:
                    return int(op == "!=")
                big = x > 0
                lhs = x is a
                return {
                    "==": 0, "!=": 1,
                    "<": int(big != lhs), "<=": int(big != lhs),
                    ">": int(big == lhs), ">=": int(big == lhs),
                }[op]
        if op == "!=":
            return self.numcmp("==", a, b) ^ 1
        if op == ">":
            return self.numcmp("<=", a, b) ^ 1
        if op == ">=":
            return self.numcmp("<", a, b) ^ 1
        if op == "<":
            # a < b  <=>  not (b <= a)
            return self.numcmp("<=", b, a) ^ 1
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, SymNum) and x.alts is not None and x._poly is None:
                out = 0
                for l, v in x.alts:
                    t = self.truth(self.cmp(op, y, v) if flip else self.cmp(op, v, y))
                    out = ctx.lor(out, ctx.land(l, t))
                return out
        if op == "==":
            if isinstance(a, SymBool) and isinstance(b, SymBool):
                return ctx.liff(a.lit, b.lit)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SymNum) and x.bits is not None and x._poly is None:
                    yb = self.to_bits(y) if self.kind(y) == "i" else None
                    if yb is not None:
                        n = max(len(yb[0]), len(x.bits[0]))
                        xs = list(x.bits[0]) + [x.bits[1]] * (n - len(x.bits[0])) + [x.bits[1]]
                        ys = list(yb[0]) + [yb[1]] * (n - len(yb[0])) + [yb[1]]
                        return ctx.land_all([ctx.liff(p, q) for p, q in zip(xs, ys)])
            return ctx.eq0(self.num(a) - self.num(b))
        return ctx.le0(self.num(a) - self.num(b))

    def _is(self, op, a, b):
        if isinstance(a, SymUnion) or isinstance(b, SymUnion):
            u, o = (a, b) if isinstance(a, SymUnion) else (b, a)
            lit = 0
            for l, v in u.alts:
                if v is UNDEF:
                    self.raise_under(l, UnboundLocalError("local variable referenced before assignment"))
                    continue
                lit = self.ctx.lor(lit, self.ctx.land(l, self.truth(self._is("is", v, o))))
            r = self.mkbool(lit)
        elif isinstance(a, SymBool) and type(b) is bool and not a.np:
            r = self.mkbool(a.lit if b else a.lit ^ 1)
        elif isinstance(b, SymBool) and type(a) is bool and not b.np:
            r = self.mkbool(b.lit if a else b.lit ^ 1)
        else:
            r = a is b
        return r if op == "is" else self.not_(r)

    def _in(self, x, c):
        ctx = self.ctx
        if isinstance(c, SymUnion):
            return self.dist(c, lambda y: self._in(x, y))
        if isinstance(c, SDict):
            return c.contains(x)
        if isinstance(c, DView):
            if c.what == "k":
                return c.d.contains(x)
            lit = 0
            for g, v in c.pairs():
                lit = ctx.lor(lit, ctx.land(g, self.truth(self.cmp("==", v, x))))
            return self.mkbool(lit)
        if isinstance(c, SSet):
            return c.contains(x)
        if type(c) in SYM_CLASSES:
            return c.contains(x)
        if isinstance(c, (SList, GenObj)) or (isinstance(c, (tuple, list, range)) and (self.is_sym(x) or self.is_sym(c))):
            lit = 0
            for g, v in self.iterate(c):
                lit = ctx.lor(lit, ctx.land(g, self.truth(self.cmp("==", v, x))))
                if lit == 1:
                    break
            return self.mkbool(lit)
        m = getattr(type(c), "__contains__", None)
        if m is not None and getattr(m, "__psx__", False):
            return self.mkbool(self.truth(m(c, x)))
        if m is None or not self._nativelike(c):
            it = getattr(type(c), "__iter__", None)
            if it is not None and getattr(it, "__psx__", False):
                lit = 0
                for g, v in self.iterate(c):
                    lit = ctx.lor(lit, ctx.land(g, self.truth(self.cmp("==", v, x))))
                return self.mkbool(lit)
        if self.is_sym(x):
            if isinstance(c, (dict, set, frozenset)):
                lit = 0
                for v in c:
                    lit = ctx.lor(lit, self.truth(self.cmp("==", v, x)))
                return self.mkbool(lit)
            r = self.tabulate(lambda y: y in c, (x,), {})
            if r is not None:
                return r[0]
            return self.conc(x) in c
        # Mapping mixins call __getitem__ of transformed classes
        return self._safe(lambda: x in c)

    def _nativelike(self, c):
        m = type(c).__module__ or ""
        return not (m.startswith("coinflip") or m.startswith("spec"))

    def _safe(self, fn):
        """native code that may swallow exceptions of transformed code"""
        st = (self.guard, self.base, len(self.levels), len(self.tries))
        r = fn()
        self.guard, self.base = st[0], st[1]
        del self.levels[st[2]:]
        del self.tries[st[3]:]
        return r

    def _seqcmp(self, op, a, b):
        ctx = self.ctx
        if op == "!=":
            return self.not_(self._seqcmp("==", a, b))
        if op == "==":
            if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
                ea = a.entries() if isinstance(a, SDict) else [(1, k, v) for k, v in a.items()]
                eb = b.entries() if isinstance(b, SDict) else [(1, k, v) for k, v in b.items()]
                A = {k: (p, v) for p, k, v in ea}
                B = {k: (p, v) for p, k, v in eb}
                lit = 1
                for k in set(A) | set(B):
                    p, v = A.get(k, (0, None))
                    q, w = B.get(k, (0, None))
                    lit = ctx.land(lit, ctx.liff(p, q))
                    t = ctx.land(p, q)
                    if t != 0:
                        lit = ctx.land(lit, ctx.lor(t ^ 1, self.truth(self.cmp("==", v, w))))
                return self.mkbool(lit)
            if isinstance(a, SSet) or isinstance(b, SSet):
                x = a if isinstance(a, SSet) else SSet(a)
                y = b if isinstance(b, SSet) else SSet(b)
                return self.and_(x.issubset(y), lambda: y.issubset(x))
            if isinstance(a, tuple) != isinstance(b, tuple) or isinstance(a, list) != isinstance(b, list):
                m = getattr(type(b), "__eq__", None)
                if getattr(m, "__psx__", False):
                    return m(b, a)
                m = getattr(type(a), "__eq__", None)
                if getattr(m, "__psx__", False):
                    return m(a, b)
                return False
            x, y = self.positional(a), self.positional(b)
            lit = 1
            for j in range(max(len(x), len(y))):
                p, v = x[j] if j < len(x) else (0, None)
                q, w = y[j] if j < len(y) else (0, None)
                lit = ctx.land(lit, ctx.liff(p, q))
                t = ctx.land(p, q)
                if t != 0 and lit != 0:
                    lit = ctx.land(lit, ctx.lor(t ^ 1, self.truth(self.cmp("==", v, w))))
            return self.mkbool(lit)
        # lexicographic
        x = list(self._deflist(a))
        y = list(self._deflist(b))
        strict = op in ("<", ">")
        o = "<" if op in ("<", "<=") else ">"
        res = int(len(x) < len(y) if o == "<" else len(x) > len(y)) if len(x) != len(y) else int(not strict)
        for v, w in reversed(list(zip(x, y))):
            e = self.truth(self.cmp("==", v, w))
            if e == 1:
                continue
            l = self.truth(self.cmp(o, v, w))
            res = ctx.lite(e, res, l)
        return self.mkbool(res)

    def _deflist(self, x):
        if isinstance(x, SList):
            self.make_definite(x)
            return list.__iter__(x)
        return x

    def ifexp(self, c, a, b):
        lit = self.truth(c)
        if lit == 1:
            return a()
        if lit == 0:
            return b()
        if self.fork:
            return a() if self.decide_lit(lit) else b()
        k = self.implied(lit)
        if k is not None:
            return a() if k else b()
        x = y = UNDEF
        with self.under(lit) as l1:
            if l1:
                x = a()
        with self.under(lit ^ 1) as l2:
            if l2:
                y = b()
        if not l1:
            return y
        if not l2:
            return x
        return self.ite(lit, x, y)

    def assert_(self, c, msg):
        lit = self.truth(c)
        if lit != 1:
            self.raise_under(lit ^ 1, AssertionError(msg) if msg is not None else AssertionError())

    # iteration ---------------------------------------------------------------------------
    def iterate(self, x):
        """Python iterator of (guard, value)"""
        t = type(x)
        if t is SList:
            return self._iter_slist(x)
        if t is SRANGE:
            return iter(x.pairs())
        if isinstance(x, GenObj):
            return self._iter_gen(x)
        if t is tuple or t is list or t is range or t is str or t is dict:
            return ((1, v) for v in x)
        if isinstance(x, SDict):
            return iter([(p, k) for p, k, v in x.in_order() if p != 0])
        if isinstance(x, (DView, SSet)) or type(x) is SRANGE:
            return iter(x.pairs())
        if isinstance(x, SList):
            return self._iter_slist(x)
        if t in SYM_CLASSES:
            return x.iter_pairs()
        if t is SymUnion:
            return iter(self.seq_items(x))
        if x is UNDEF:
            if self.guard == 0:
                return iter(())
            raise UnboundLocalError("local variable referenced before assignment")
        if isinstance(x, (SymNum, SymBool)):
            raise TypeError("'int' object is not iterable")
        if isinstance(x, SymStr):
            return ((1, c) for c in self.conc(x))
        m = getattr(type(x), "__iter__", None)
        if m is not None and getattr(m, "__psx__", False):
            return self.iterate(m(x))
        if m is None:
            raise TypeError(f"'{type(x).__name__}' object is not iterable")
        it = m(x)
        if isinstance(it, GenObj):
            return self._iter_gen(it)
        nx = getattr(type(it), "__next__", None)
        if getattr(nx, "__psx__", False):
            return self._iter_user(it)
        return ((1, v) for v in it)

    def _iter_user(self, it):
        while True:
            try:
                v = type(it).__next__(it)
            except StopIteration:
                return
            yield 1, v

    def _iter_slist(self, x):
        i = 0
        while i < list.__len__(x):
            yield (1 if x.guards is None else x.guards[i]), list.__getitem__(x, i)
            i += 1

    def _iter_gen(self, g):
        while True:
            p = g.pull()
            if p is None:
                return
            yield p

    def native_iter(self, s):
        if isinstance(s, SymUnion):
            return iter(list(GenObj(self.seq_items(s))))
        return iter(self.conc(s))

    def positional(self, x):
        """[(literal, value)]: element j and the condition that it exists"""
        if isinstance(x, SymUnion):
            return self.seq_items(x)
        items = [(g, v) for g, v in self.iterate(x) if g != 0]
        return self.compact(items)

    def compact(self, items):
        if all(g == 1 for g, _ in items):
            return items
        ctx = self.ctx
        # simplify guards settled by the path
        if self.path:
            it2 = []
            for g, v in items:
                g = self.resolve(g)
                if g != 0:
                    it2.append((g, v))
            items = it2
            if all(g == 1 for g, _ in items):
                return items
        n = len(items)
        # prefix closed already?
        ok = True
        for i in range(n - 1):
            g, h = items[i][0], items[i + 1][0]
            if g != 1 and ctx.land(h, g ^ 1) != 0:
                ok = False
                break
        if ok:
            return items
        cnt = [1]  # cnt[k]: exactly k present so far
        slots = [[] for _ in range(n)]
        for g, v in items:
            nxt = [0] * (len(cnt) + 1)
            for k, c in enumerate(cnt):
                if c == 0:
                    continue
                t = ctx.land(c, g)
                if t != 0:
                    slots[k].append((t, v))
                    nxt[k + 1] = ctx.lor(nxt[k + 1], t)
                u = ctx.land(c, g ^ 1)
                if u != 0:
                    nxt[k] = ctx.lor(nxt[k], u)
            while nxt and nxt[-1] == 0:
                nxt.pop()
            cnt = nxt
        out = []
        for alts in slots:
            if not alts:
                break
            g = ctx.lor_all([l for l, _ in alts])
            out.append((g, self.union(alts)))
        return out

    def positional_full(self, x):
        p = self.positional(x)
        if all(g == 1 for g, _ in p):
            return [v for _, v in p]
        return None

    def seq_items(self, u):
        """positional merge of a union of sequences"""
        ctx = self.ctx
        cols = []
        a = self.abs()
        for l, v in u.alts:
            if ctx.land(a, l) == 0:
                continue
            if v is UNDEF:
                self.raise_under(l, UnboundLocalError("local variable referenced before assignment"))
                continue
            with self.under(l) as live:
                if not live:
                    continue
                if isinstance(v, GenObj):
                    items = self.compact([(g, x) for g, x in self.iterate(v) if g != 0])
                else:
                    items = self.positional(v)
            cols.append((l, items))
        if len(cols) == 1:
            return cols[0][1]
        n = max((len(c) for _, c in cols), default=0)
        out = []
        for j in range(n):
            alts = []
            for l, items in cols:
                if j < len(items):
                    t = ctx.land(l, items[j][0])
                    if t != 0:
                        alts.append((t, items[j][1]))
            if not alts:
                continue
            if len(alts) == len(cols) and all(items[j][0] == 1 for _, items in cols):
                g = 1
            else:
                g = ctx.lor_all([l for l, _ in alts])
            out.append((g, self.union(alts)))
        return out

    def m_len(self, x):
        if isinstance(x, SymUnion):
            return self.dist(x, self.m_len)
        if isinstance(x, SList):
            if x.guards is None:
                return list.__len__(x)
            tot = self.ctx.const(0)
            for g in x.guards:
                tot = tot + self.ctx.b2i(self.resolve(g))
            return self.mknum(tot, "i")
        if isinstance(x, SDict):
            return x.length()
        if isinstance(x, SSet):
            return x.length()
        if isinstance(x, DView):
            return x.d.length()
        if type(x) in SYM_CLASSES:
            return x.length()
        if isinstance(x, SymStr):
            r = self.tabulate(len, (x,), {}, 300)
            if r is None and self.opaque_text:
                return self._textlen(x)
            return r[0] if r is not None else len(self.conc(x))
        if x is UNDEF:
            return 0
        m = getattr(type(x), "__len__", None)
        if m is not None and getattr(m, "__psx__", False):
            return m(x)
        return len(x)

    def _textlen(self, x):
        """length of a text left opaque: any the shape of its parts allows"""
        n = 0
        for p in x.parts:
            if isinstance(p, str):
                n = self.bop("+", n, len(p))
            elif type(p[2]) is tuple:
                k = self.bop("*", p[1], len(p[2][0]))
                n = self.bop("+", n, self.ite(self.truth(self.cmp(">", k, 0)), k, 0))
            else:
                self.fresh_texts += 1
                n = self.bop("+", n, self.var_int("len%d_" % self.fresh_texts, 1 if self.is_num(p[1]) else 0, 400))
        return n

    # containers ---------------------------------------------------------------------------
    def mklist(self, *vals):
        return self._mk(vals)

    def _mk(self, vals):
        if any(type(v) is _Star for v in vals):
            vs, gs = [], []
            for v in vals:
                if type(v) is _Star:
                    vs.append(v.v)
                    gs.append(v.g)
                else:
                    vs.append(v)
                    gs.append(1)
            return SList(vs, gs)
        return SList(vals)

    def star(self, v):
        """values of *v in a call or display"""
        out = []
        for g, x in self.iterate(v):
            g = self.resolve(g)
            if g == 1:
                out.append(x)
            elif g != 0:
                if self.decide_lit(g):
                    out.append(x)
        return out

    def mkset(self, *vals):
        if not self.is_sym(vals):
            return set(vals)
        return SSet(vals)

    def mkdict(self, *pairs):
        d = SDict("dict")
        for k, v in pairs:
            if k is self.DSTAR:
                d.update(v)
            else:
                d.set_item(k, v)
        return d

    def slice_(self, a, b, c):
        return slice(a, b, c)

    def complist(self, g):
        vs, gs = [], []
        for p, v in self.iterate(g):
            vs.append(v)
            gs.append(p)
        # presence relative to the current guard
        return SList(vs, gs)

    def compset(self, g):
        return SSet(g)

    def compgen(self, g):
        return g

    def compdict(self, g):
        d = SDict("dict")
        for p, kv in self.iterate(g):
            with self.under(p) as live:
                if live:
                    d.set_item(kv[0], kv[1])
        return d

    def unpack(self, v, n, star):
        if isinstance(v, SymUnion):
            # only same-shape alternatives can be merged
            items = self.seq_items(v)
        elif isinstance(v, tuple) and star < 0:
            if len(v) != n:
                raise ValueError(f"not enough values to unpack (expected {n}, got {len(v)})" if len(v) < n else f"too many values to unpack (expected {n})")
            return v
        elif isinstance(v, GenObj) or isinstance(v, SList) or self.is_sym(v):
            items = self.positional(v)
        else:
            items = [(1, x) for x in self._native_list(v)]
        vals = []
        for g, x in items:
            if g == 1 or self.decide_lit(g):
                vals.append(x)
        if star < 0:
            if len(vals) != n:
                raise ValueError(f"not enough values to unpack (expected {n}, got {len(vals)})" if len(vals) < n else f"too many values to unpack (expected {n})")
            return tuple(vals)
        k = n - 1 - star
        if len(vals) < n - 1:
            raise ValueError(f"not enough values to unpack (expected at least {n - 1}, got {len(vals)})")
        mid = vals[star: len(vals) - k]
        return tuple(vals[:star]) + (SList(mid),) + tuple(vals[len(vals) - k:])

    def _native_list(self, v):
        return [x for g, x in self.iterate(v)]

    def getitem(self, o, k):
        to = type(o)
        if to is SymUnion:
            return self.dist(o, lambda x: self.getitem(x, k))
        if type(k) is SymUnion and not isinstance(o, SDict):
            return self.dist(k, lambda y: self.getitem(o, y))
        if isinstance(o, SDict):
            return o.get_item(k)
        if isinstance(o, SList):
            return self._list_get(o, k)
        if to in SYM_CLASSES:
            return o.getitem(k)
        if to is SymStr:
            c = strlike(o)
            if c is not None:
                return self.getitem(mkchars(c), k)
            r = self.tabulate(lambda s, i: s[i], (o, k), {}, 300)
            return r[0] if r is not None else self.conc(o)[self.conc(k)]
        if o is UNDEF:
            if self.guard == 0:
                return UNDEF
            raise UnboundLocalError("local variable referenced before assignment")
        if isinstance(o, (tuple, list)) and self.is_sym(k):
            if isinstance(k, slice):
                r = self.tabulate(lambda s: o[s], (k,), {})
                if r is not None:
                    return r[0]
                return o[self.conc(k)]
            return self._index_sym(list(o), k)
        if isinstance(o, DView):
            return o[k]
        m = getattr(to, "__getitem__", None)
        if m is not None and getattr(m, "__psx__", False):
            return m(o, k)
        if isinstance(o, GenObj):
            raise TypeError("'generator' object is not subscriptable")
        if self.is_sym(k):
            if isinstance(o, (pd.Series, np.ndarray)) and type(k) in SYM_CLASSES:
                from psx import models

                return self.getitem(models.lift(self, o), k)
            r = self.tabulate(lambda y: o[y], (k,), {})
            if r is not None:
                return r[0]
            return o[self.conc(k)]
        return o[k]

    def _index_sym(self, vals, k):
        ctx = self.ctx
        n = len(vals)
        c = self.leafcases(k, 200)
        a = self.abs()
        out = []
        if c is not None:
            for l, i in c:
                g = ctx.land(a, l)
                if g == 0:
                    continue
                if -n <= i < n:
                    out.append((l, vals[int(i)]))
                else:
                    self.raise_under(g, IndexError("list index out of range"))
            return self.union(out) if out else UNDEF
        rest = a
        for i in range(-n, n):
            e = self.truth(self.cmp("==", k, i))
            if ctx.land(rest, e) != 0:
                out.append((e, vals[i]))
                rest = ctx.land(rest, e ^ 1)
        if rest != 0:
            self.raise_under(rest, IndexError("list index out of range"))
        return self.union(out) if out else UNDEF

    def _list_get(self, o, k):
        if isinstance(k, slice):
            if self.is_sym(k):
                c = self.cases((k.start, k.stop, k.step), 64)
                if c is None:
                    k = self.conc(k)
                else:
                    out = []
                    for l, s in c:
                        with self.under(l) as live:
                            if live:
                                out.append((l, self._list_get(o, slice(*s))))
                    return self.union(out)
            if o.guards is None:
                return SList(list.__getitem__(o, k))
            p = self.positional(o)
            if all(g == 1 for g, _ in p):
                return SList([v for _, v in p][k])
            st, sp, step = k.start, k.stop, k.step
            if (st is None or st >= 0) and (sp is None or sp >= 0) and (step is None or step > 0):
                p = p[k]
                return SList([v for _, v in p], [g for g, _ in p])
            if st is None and sp is None and step == -1:
                pr = o.pairs()[::-1]
                return SList([v for _, v in pr], [g for g, _ in pr])
            if st is None and sp is not None and sp < 0 and (step is None or step == 1):
                # drop the last -sp elements
                out = p
                gs = []
                for j in range(len(p)):
                    later = p[j - sp][0] if j - sp < len(p) else 0
                    if later != 0:
                        gs.append((later, p[j][1]))
                return SList([v for _, v in gs], [g for g, _ in gs])
            self.make_definite(o)
            return SList(list.__getitem__(o, k))
        if isinstance(k, Sym):
            if o.guards is None:
                return self._index_sym(list(list.__iter__(o)), k)
            p = self.positional(o)
            full = [v for g, v in p if g == 1]
            if len(full) == len(p):
                return self._index_sym(full, k)
            self.make_definite(o)
            return self._index_sym(list(list.__iter__(o)), k)
        if o.guards is None:
            return list.__getitem__(o, k)
        p = self.positional(o)
        ctx = self.ctx
        if not isinstance(k, (int, np.integer)):
            raise TypeError(f"list indices must be integers or slices, not {type(k).__name__}")
        if k >= 0:
            if k >= len(p):
                raise IndexError("list index out of range")
            g, v = p[k]
            if g != 1:
                self.raise_under(ctx.land(self.abs(), g ^ 1), IndexError("list index out of range"))
            return v
        # from the end
        alts = []
        anyg = 0
        for j in range(len(p)):
            tgt = j - (-k) + 1  # index when p[j] is the last element
            nxt = p[j + 1][0] if j + 1 < len(p) else 0
            l = ctx.land(p[j][0], nxt ^ 1)
            if l == 0:
                continue
            if tgt >= 0:
                alts.append((l, p[tgt][1]))
                anyg = ctx.lor(anyg, l)
        miss = ctx.land(self.abs(), anyg ^ 1)
        if miss != 0:
            self.raise_under(miss, IndexError("list index out of range"))
        return self.union(alts) if alts else UNDEF

    def setitem(self, o, k, v):
        if self.guard == 0:
            return
        to = type(o)
        if to is SymUnion:
            self.dist(o, lambda x: self.setitem(x, k, v))
            return
        if isinstance(o, SDict):
            o.set_item(k, v)
            return
        if type(k) is SymUnion:
            self.dist(k, lambda y: self.setitem(o, y, v))
            return
        if isinstance(o, SList):
            self._list_set(o, k, v)
            return
        if to in SYM_CLASSES:
            o.setitem(k, v)
            return
        m = getattr(to, "__setitem__", None)
        if m is not None and getattr(m, "__psx__", False):
            m(o, k, v)
            return
        self.definite()
        if self.is_sym(k):
            k = self.conc(k)
        if self.is_sym(v) and isinstance(o, (np.ndarray, pd.Series, pd.DataFrame)):
            v = self.conc(v)
        o[k] = v

    def _list_set(self, o, k, v):
        ctx = self.ctx
        a = self.abs()
        if isinstance(k, slice):
            if self.is_sym(k):
                c = self.cases((k.start, k.stop, k.step), 64)
                if c is None:
                    k = self.conc(k)
                else:
                    q = list(self.iterate(v))
                    src = SList([x for _, x in q], [g for g, _ in q])
                    for l, s in c:
                        with self.under(l) as live:
                            if live:
                                self._list_set(o, slice(*s), src)
                    return
            if o.guards is not None:
                p = self.positional(o)
                if all(g == 1 for g, _ in p):
                    o._set([x for _, x in p], None)
                else:
                    self.make_definite(o)
            items = []
            for g, x in self.iterate(v):
                g2 = ctx.land(g, a) if a != 1 else g
                if g2 == 0:
                    continue
                if g2 == a:
                    g = 1
                elif g != 1:
                    g = self.resolve(g)
                    if g == 0:
                        continue
                items.append((g, x))
            vals = list(list.__iter__(o))
            if k.step is not None and k.step != 1:
                if any(g != 1 for g, _ in items):
                    raise Unsupported("extended slice assignment of guarded values")
                vals[k] = [x for _, x in items]
                o.assign_under(a, vals, None)
                return
            n = len(vals)
            st, sp, _ = k.indices(n)
            sp = max(st, sp)
            new = vals[:st] + [x for _, x in items] + vals[sp:]
            gs = [1] * st + [g for g, _ in items] + [1] * (n - sp)
            o.assign_under(a, new, gs if any(g != 1 for g in gs) else None)
            return
        if o.guards is not None:
            p = self.positional(o)
            if all(g == 1 for g, _ in p):
                o._set([x for _, x in p], None)
            else:
                self.make_definite(o)
        n = list.__len__(o)
        if isinstance(k, Sym):
            c = self.leafcases(k, 200)
            if c is None:
                c = [(1, self.conc(k))]
        else:
            c = [(1, k)]
        for l, i in c:
            g = ctx.land(a, l)
            if g == 0:
                continue
            if not isinstance(i, (int, np.integer)):
                raise TypeError(f"list indices must be integers or slices, not {type(i).__name__}")
            if not -n <= i < n:
                self.raise_under(g, IndexError("list assignment index out of range"))
                continue
            if g == o.cg or g == 1:
                list.__setitem__(o, i, v)
            else:
                list.__setitem__(o, i, self.ite(g, v, list.__getitem__(o, i)))

    def delitem(self, o, k):
        if self.guard == 0:
            return
        if isinstance(o, SymUnion):
            self.dist(o, lambda x: self.delitem(x, k))
            return
        if isinstance(o, SDict):
            o.del_item(k)
            return
        if isinstance(o, SList):
            k = self.conc(k)
            a = self.abs()
            if o.guards is not None:
                self.make_definite(o)
            vals = list(list.__iter__(o))
            del vals[k]
            if a == o.cg or a == 1:
                o._set(vals, None)
            else:
                n = list.__len__(o)
                idx = range(n)[k]
                idx = {idx} if isinstance(idx, int) else set(idx)
                o.guards = [a ^ 1 if i in idx else 1 for i in range(n)]
            return
        if type(o) in SYM_CLASSES:
            o.delitem(k)
            return
        m = getattr(type(o), "__delitem__", None)
        if m is not None and getattr(m, "__psx__", False):
            m(o, k)
            return
        self.definite()
        del o[self.conc(k)]

    # attributes ---------------------------------------------------------------------------
    def getattr(self, o, name):
        to = type(o)
        if to is SymUnion:
            return self.dist(o, lambda x: self.getattr(x, name)) if not self._callable_attr(o, name) else _UnionMethod(o, name)
        if to is SymNum or to is SymBool:
            return self._numattr(o, name)
        if o is UNDEF:
            if self.guard == 0:
                return UNDEF
            raise UnboundLocalError("local variable referenced before assignment")
        if to is SymStr:
            return _Bound(self, "str", o, name)
        return getattr(o, name)

    def _callable_attr(self, u, name):
        for l, v in u.alts:
            if v is UNDEF:
                continue
            try:
                x = getattr(type(v), name, None)
            except Exception:
                x = None
            if callable(x) and not isinstance(x, property):
                return True
            return False
        return False

    def _numattr(self, o, name):
        if name == "real":
            return o
        if name == "imag":
            return 0
        if name == "is_integer":
            def f():
                if o.kind == "i" or o.poly.isint():
                    return True
                r = self.tabulate(lambda x: float(x).is_integer(), (o,), {})
                return r[0] if r is not None else float(self.conc(o)).is_integer()
            return f
        if name in ("item", "copy"):
            return lambda: o
        if name == "astype":
            return lambda t: self.call(t, o)
        if name in ("sum", "max", "min", "mean"):
            return lambda *a, **k: o
        if name == "dtype":
            return np.dtype("float64" if self.kind(o) == "f" else "int64")
        if name in ("bit_length", "bit_count"):
            def f():
                r = self.tabulate(lambda x: getattr(int(x), name)(), (o,), {})
                return r[0] if r is not None else getattr(int(self.conc(o)), name)()
            return f
        return getattr(self.conc(o), name)

    def setattr(self, o, name, v):
        if self.guard == 0:
            return
        if isinstance(o, SymUnion):
            self.dist(o, lambda x: self.setattr(x, name, v))
            return
        d = getattr(type(o), name, None)
        if isinstance(d, property):
            setattr(o, name, v)
            return
        a = self.abs()
        if a != 1:
            cg = self.obj_cg.get(id(o))
            if cg is None or cg[1] != a:
                has = name in getattr(o, "__dict__", {}) or (d is not None)
                if has:
                    old = getattr(o, name)
                    v = self.ite(a, v, old)
        setattr(o, name, v)

    def delattr(self, o, name):
        self.definite()
        delattr(o, name)

    def aug_attr(self, o, name, op, v):
        if isinstance(o, SymUnion):
            self.dist(o, lambda x: self.aug_attr(x, name, op, v))
            return
        self.setattr(o, name, self.iop(op, self.getattr(o, name), v))

    def aug_item(self, o, k, op, v):
        if self.guard == 0:
            return
        if isinstance(o, SymUnion):
            self.dist(o, lambda x: self.aug_item(x, k, op, v))
            return
        if isinstance(o, SDict):
            o.aug_item(k, op, v)
            return
        if isinstance(o, SList) and isinstance(k, SymNum):
            c = self.leafcases(k, 200)
            if c is not None:
                for l, i in c:
                    with self.under(l) as live:
                        if live:
                            self.aug_item(o, i, op, v)
                return
        if type(k) is SymUnion:
            self.dist(k, lambda y: self.aug_item(o, y, op, v))
            return
        self.setitem(o, k, self.iop(op, self.getitem(o, k), v))

    # strings ---------------------------------------------------------------------------
    def fmt(self, v, conv, spec):
        if not self.is_sym(v) and not self.is_sym(spec):
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            return format(v, spec)
        if isinstance(v, SymUnion):
            return self.dist(v, lambda x: self.fmt(x, conv, spec))
        if type(v) is Chars:
            if spec in ("", "s") and conv in (-1, 115):
                return v
            return self.fmt(self.conc(v), conv, spec)
        if type(spec) is str and spec[-1:] == "b" and conv == -1:
            w = spec[:-1]
            r = binary(v, int(w)) if w.isdigit() and w[0] == "0" else None
            if r is not None:
                return r
        if type(spec) is str and spec[-1:] in ("b", "x", "X", "o") and conv == -1:
            r = self.tabulate(lambda x: format(x, spec), (v,), {}, 300)
            if r is not None:
                return r[0]
        return SymStr([(_FMT, v, conv, self.conc(spec))])

    def joinstr(self, *parts):
        if any(type(p) is not str for p in parts):
            cs = []
            for p in parts:
                c = strlike(p)
                if c is None:
                    break
                cs.extend(c)
            else:
                return mkchars(cs)
        if any(isinstance(p, SymUnion) for p in parts):
            r = self.tabulate(lambda *ps: "".join(ps), parts, {})
            if r is not None:
                return r[0]
            return "".join(self.conc(p) for p in parts)
        if all(type(p) is str for p in parts):
            return "".join(parts)
        out = []
        for p in parts:
            for q in (p.parts if isinstance(p, SymStr) else (p,)):
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        return SymStr(out)

    def _joinparts(self, ps):
        return "".join(p if isinstance(p, str) else str(p) for p in ps)

    # calls ---------------------------------------------------------------------------
    def call(self, f, *a, **k):
        if self.guard == 0:
            return UNDEF
        tf = type(f)
        if tf is types.FunctionType or tf is types.MethodType:
            if getattr(f, "__psx__", False):
                return f(*a, **k)
            if tf is types.MethodType:
                e = METHODS.get((id(f.__self__), f.__name__))
                if e is not None and e[0] is f.__self__:
                    return e[1](self, *a, **k)
                e = FUNCS.get(f.__func__)
                if e is not None:
                    return e(self, f.__self__, *a, **k)
        try:
            h = MODELS.get(f)
        except TypeError:
            h = None
            e = MODEL_IDS.get(id(f))
            if e is not None and e[0] is f:
                h = e[1]
        if h is not None:
            return h(self, *a, **k)
        if tf is SymUnion:
            return self.dist(f, lambda g: self.call(g, *a, **k))
        if tf is _UnionMethod:
            return self.dist(f.u, lambda x: self.call(self.getattr(x, f.name), *a, **k))
        if tf is _Bound:
            return f.call(*a, **k)
        if isinstance(f, type):
            mod = f.__module__ or ""
            if f in SYM_TRANSFORMED or mod.startswith(("coinflip", "spec", "harness")):
                o = f(*a, **k)
                if not isinstance(o, (tuple, int, str)):
                    self.obj_cg[id(o)] = (o, self.abs())
                return o
            if mod.startswith("psx") or issubclass(f, BaseException):
                return f(*a, **k)
            return self.call_native(f, a, k)
        if tf is functools.partial:
            return self.call(f.func, *f.args, *a, **{**f.keywords, **k})
        if tf in TRANSPARENT:
            return f(*a, **k)
        if tf is types.FunctionType or tf is types.MethodType:
            mod = getattr(f, "__module__", "") or ""
            if mod.startswith(("psx", "coinflip", "spec", "harness", "checks")):
                return f(*a, **k)
            if tf is types.MethodType:
                s = f.__self__
                if isinstance(s, (Sym, SList, SDict, SSet, GenObj, DView)) or type(s) in SYM_CLASSES or (type(s).__module__ or "").startswith(("psx",)):
                    return f(*a, **k)
                if self._is_user(s):
                    return f(*a, **k)
        if tf is types.BuiltinMethodType or tf is types.MethodWrapperType:
            s = f.__self__
            return self._builtin_method(f, s, a, k)
        c = getattr(type(f), "__call__", None)
        if getattr(c, "__psx__", False):
            return f(*a, **k)
        if (type(f).__module__ or "").startswith("psx"):
            return f(*a, **k)
        if not callable(f):
            raise TypeError(f"'{type(f).__name__}' object is not callable")
        return self.call_native(f, a, k)

    def _is_user(self, s):
        m = (s.__module__ if isinstance(s, type) else type(s).__module__) or ""
        if m.startswith(("coinflip", "spec", "harness")):
            return True
        return any((c.__module__ or "").startswith(("coinflip", "spec", "harness")) for c in type(s).__mro__)

    def _builtin_method(self, f, s, a, k):
        n = f.__name__
        if isinstance(s, SList):
            return f(*a, **k)
        if isinstance(s, type(builtins)):  # module function without a model
            return self.call_native(f, a, k)
        if type(s) in (list, dict, set) or isinstance(s, (dict,)):
            if n in ("append", "extend", "add", "update", "insert", "pop", "remove", "clear", "setdefault", "discard", "sort", "reverse", "popitem"):
                self.definite()
                if n in ("extend",):
                    a = (self._native_list_def(a[0]),)
                elif n in ("add", "pop", "remove", "setdefault", "discard", "insert") and a:
                    a = (self.conc(a[0]),) + tuple(a[1:])
                elif n == "update":
                    a = tuple(self.conc(x) for x in a)
                return f(*a, **k)
            if n == "get" and a and self.is_sym(a[0]):
                r = self.tabulate(f, (a[0],) + a[1:], k)
                if r is not None:
                    return r[0]
        if isinstance(s, str):
            if n == "join" and a:
                parts = []
                for g, x in self.iterate(a[0]):
                    if g != 1 and not self.decide_lit(g):
                        continue
                    if not isinstance(x, (str, Sym, Chars)):
                        raise TypeError("sequence item: expected str instance")
                    if parts and s:
                        parts.append(s)
                    parts.append(x)
                return self.joinstr(*parts)
            if n == "format" and (self.is_sym(a) or self.is_sym(k)):
                return s.format(*self.conc(tuple(a)), **{q: self.conc(w) for q, w in k.items()})
        if isinstance(s, tuple):
            if n in ("index", "count") and (self.is_sym(s) or self.is_sym(a)):
                return getattr(SList(s), n)(*a)
        if isinstance(s, (tuple, frozenset, str, bytes, int, float, range)) or s is None or not self._mutable_native(s):
            return self.call_native(f, a, k)
        self.definite()
        return self.call_native(f, a, k)

    def _mutable_native(self, s):
        return isinstance(s, (list, dict, set, np.ndarray)) or hasattr(s, "__dict__")

    def _native_list_def(self, x):
        return [v for g, v in self.iterate(x) if g == 1 or self.decide_lit(g)]

    def call_native(self, f, a, k):
        """a function without model: case split when small, else fork"""
        if not self.is_sym(a) and not self.is_sym(k):
            a2 = tuple(self._unwrap(x) for x in a)
            k2 = {n: self._unwrap(x) for n, x in k.items()}
            return self._safe_call(f, a2, k2)
        if not self.fork:
            r = self.tabulate(f, tuple(self._unwrap(x) for x in a), {n: self._unwrap(x) for n, x in k.items()}, 48)
            if r is not None:
                return r[0]
        a2 = tuple(self.conc(x) for x in a)
        k2 = {n: self.conc(x) for n, x in k.items()}
        return self._safe_call(f, a2, k2)

    def _safe_call(self, f, a, k):
        return f(*a, **k)

    def _unwrap(self, x):
        """engine containers without symbolic parts -> native ones"""
        if isinstance(x, SDict):
            return self.conc_dict(x) if not self.is_sym(x) else x
        if isinstance(x, DView):
            return [v for _, v in x.pairs()] if not self.is_sym(x) else x
        if isinstance(x, SList) and not self.is_sym(x):
            return [self._unwrap(v) for v in list.__iter__(x)]
        if type(x) in SYM_CLASSES and not x.is_sym():
            return x.conc()
        return x

    def sort_entries(self, ent):
        """entries of a SortedDict with symbolic keys, ordered by forking"""
        out = []
        for p, k, v in ent:
            i = 0
            while i < len(out) and self.decide(self.cmp("<", out[i][1], k)):
                i += 1
            out.insert(i, (p, k, v))
        return out


SYM_TRANSFORMED = set()
_FMT = object()


SRANGE = None


def _fmtc(v, conv, spec):
    if type(conv) is tuple:
        return conv[0] * v
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    return format(v, spec)


class _Star:
    __slots__ = ("g", "v")


class _UnionMethod:
    __slots__ = ("u", "name")

    def __init__(self, u, name):
        self.u = u
        self.name = name

    def __call__(self, *a, **k):
        return V.rt().call(self, *a, **k)


class _Bound:
    """method of a symbolic string"""

    def __init__(self, rt, kind, o, name):
        self.rt = rt
        self.o = o
        self.name = name

    def call(self, *a, **k):
        return getattr(self.rt.conc(self.o), self.name)(*[self.rt.conc(x) for x in a], **k)

    __call__ = call


_PLAIN = {int, float, bool, str, type(None), complex, bytes}
_OPS = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
    "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "<<": operator.lshift,
    ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "@": operator.matmul,
}
_NAMES = {
    "+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "//": "__floordiv__",
    "%": "__mod__", "**": "__pow__", "<<": "__lshift__", ">>": "__rshift__", "&": "__and__",
    "|": "__or__", "^": "__xor__", "@": "__matmul__",
}
_INAMES = {k: "__i" + v[2:] for k, v in _NAMES.items()}
_CMPS = {
    "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
    ">=": operator.ge, "is": operator.is_, "is not": operator.is_not,
    "in": lambda a, b: a in b, "not in": lambda a, b: a not in b,
}
_CNAMES = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
_SWAP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}

from psx.chars import Chars, binary, mk as mkchars, strlike  # noqa: E402

SYM_CLASSES.add(Chars)
