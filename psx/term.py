"""Terms: swept and-inverter graph for Booleans, polynomial normal form for numbers.

Booleans are AIG literals (ints; 0 = False, 1 = True, 2k / 2k+1 = node k / its
complement).  A new node whose simulation signature coincides with an existing
one is merged with it only when z3 proves the two equal (SAT sweeping).

Numbers are polynomials with rational coefficients over atoms: b2i(literal),
integer / real variables, ite, floordiv, mod, division and uninterpreted
functions.  Floats enter as the exact rational of their shortest decimal form.
"""
from fractions import Fraction
import math
import random
import time

import psx  # sets sys.path

import z3
from z3 import z3core as _zc
_ZC = z3.main_ctx().ref()


class _L:
    """the C functions without their Python wrappers"""

    Z3_solver_assert = _zc.Z3_solver_assert.__defaults__[0].f
    Z3_mk_or = _zc.Z3_mk_or.__defaults__[0].f
    Z3_solver_check_assumptions = _zc.Z3_solver_check_assumptions.__defaults__[0].f


_Ast2 = z3.Ast * 2
_Ast3 = z3.Ast * 3

FALSE, TRUE = 0, 1


class Unsupported(BaseException):
    """The engine has no model for what the code did (never a verdict)."""


class Dead(BaseException):
    """no input takes this path"""


class Budget(BaseException):
    """Time or size budget exhausted."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sweep_queries = 0
        self.sweep_merged = 0
        self.feas_queries = 0
        self.goal_queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.structural_goals = 0

    def asdict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(self.solver_s, 3)
        return d


def frac(x):
    """Exact rational for a Python / numpy number."""
    t = type(x)
    if t is int or t is Fraction:
        return x
    if t is bool:
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return int(x)
    try:
        import numpy as np

        if isinstance(x, (np.integer, np.bool_)):
            return int(x)
    except ImportError:
        pass
    f = float(x)
    if math.isnan(f) or math.isinf(f):
        raise Unsupported(f"non-finite number {f!r} in symbolic arithmetic")
    if f.is_integer() and abs(f) < 2 ** 60:
        return int(f)
    return Fraction(repr(f))


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Ctx:
    """One symbolic universe (one harness configuration)."""

    def __init__(self, seed=1, npat=256, sweep=True, deadline=None):
        self.rng = random.Random(seed)
        self.stats = Stats()
        self.deadline = deadline
        self.sweep = sweep
        self.npat = npat
        self.patched = 0
        # AIG: node -> (kind, a, b); kinds: 'c', 'v' (free var), 't' (theory atom), '&'
        self.nodes = [("c", 0, 0)]
        self.names = {}
        self.sig = [0]
        self.mask = (1 << npat) - 1
        self.strash = {}
        self.fam = {}  # literal -> {family: set}
        self.famlit = []  # family -> {set: literal}
        self.famfull = []
        self.famkey = {}
        self.bysig = {}
        self.theory_node = [False]
        self.level = [0]
        # numeric
        self.atoms = []  # id -> (kind, ...)
        self.atom_ids = {}
        self.numvars = {}  # name -> (atom id, kind, lo, hi, [values per pattern])
        self.polys = {}
        self._onehot = {}
        self._noonehot = {}
        self._cmp = {}
        self._ev_cache = {}
        # z3
        self.zb = [z3.BoolVal(False)]
        self.zp = {}  # literal -> raw z3 literal
        self._tmo = [None, None]
        self.in_bool = set([0])
        self.in_th = set([0])
        self._bs = None
        self._ts = None
        self._znum = {}
        self.pending = []
        self.bits = []  # literals of free Boolean inputs in order
        self.facts = {}
        self.groups = {}  # node -> (node -> ...) exclusive and exhaustive literal groups

    # -- solvers -------------------------------------------------------------
    @property
    def bs(self):
        if self._bs is None:
            self._bs = z3.SolverFor("QF_FD")
        return self._bs

    @property
    def ts(self):
        if self._ts is None:
            self._ts = z3.Solver()
        return self._ts

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("deadline")

    # -- AIG -----------------------------------------------------------------
    def _new_node(self, kind, a, b, sig, theory, level):
        k = len(self.nodes)
        self.nodes.append((kind, a, b))
        self.sig.append(sig)
        self.theory_node.append(theory)
        self.level.append(level)
        self.zb.append(None)
        return k

    def new_bit(self, name, pats=None):
        if pats is None:
            pats = self._random_sig(len(self.bits))
        k = self._new_node("v", name, 0, pats & self.mask, False, 0)
        self.names[name] = 2 * k
        self.bits.append(2 * k)
        self.bysig.setdefault(self._canon_sig(pats & self.mask), []).append(k)
        return 2 * k

    def new_bits(self, n, prefix="b"):
        """n fresh Boolean inputs with good simulation patterns."""
        if not self.bits and n <= 10:
            self.npat = 1 << n
            self.mask = (1 << self.npat) - 1
            out = []
            for i in range(n):
                s = 0
                for p in range(self.npat):
                    if (p >> i) & 1:
                        s |= 1 << p
                out.append(self.new_bit(f"{prefix}{i}", s))
            return out
        if not self.bits:
            self.npat = max(self.npat, min(4 * n, 2048))
            if n <= 48:
                self.npat += n * (n + 1)
            self.mask = (1 << self.npat) - 1
        cols = [0] * n
        prefix_sums = [(i, v, x) for i in range(n - 1, -1, -1) for v in range(i + 1) for x in (0, 1)] if not self.bits and n <= 48 else []
        for p in range(self.npat):
            mode = p % 7
            if prefix_sums:
                # the first i bits sum to v, the next one is x
                i, v, x = prefix_sums.pop()
                row = [j < v for j in range(i)]
                self.rng.shuffle(row)
                row = row + [bool(x)] + [self.rng.random() < 0.5 for _ in range(n - i - 1)]
                for j in range(n):
                    if row[j]:
                        cols[j] |= 1 << p
                continue
            if mode == 6:  # a constant prefix
                k = (p // 14 * 7 + 1) % (n + 1) if n > 40 else (p // 14) % (n + 1)
                row = [bool(p & 1)] * k + [not (p & 1)] + [self.rng.random() < 0.5 for _ in range(n)]
                row = row[:n]
            elif mode < 2:
                row = [self.rng.random() < 0.5 for _ in range(n)]
            elif mode == 2:
                d = self.rng.choice([0.1, 0.25, 0.75, 0.9, 0.97])
                row = [self.rng.random() < d for _ in range(n)]
            elif mode == 3:  # runs
                row, v = [], self.rng.random() < 0.5
                while len(row) < n:
                    row += [v] * self.rng.randint(1, 9)
                    v = not v
                row = row[:n]
            elif mode == 4:  # periodic
                q = self.rng.randint(1, min(8, n))
                base = [self.rng.random() < 0.5 for _ in range(q)]
                row = [base[i % q] for i in range(n)]
            else:
                row, v = [], 0
                while len(row) < n:
                    row += [v] * self.rng.choice([1, 2, 8])
                    v = self.rng.random() < 0.5
                row = [bool(x) for x in row[:n]]
            for i, v in enumerate(row):
                if v:
                    cols[i] |= 1 << p
        return [self.new_bit(f"{prefix}{i}", cols[i]) for i in range(n)]

    def _random_sig(self, i):
        return self.rng.getrandbits(self.npat)

    def _canon_sig(self, s):
        return s if not (s & 1) else (~s) & self.mask

    def lsig(self, lit):
        s = self.sig[lit >> 1]
        return (~s) & self.mask if lit & 1 else s

    def land(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1 or a == b:
            return b
        if a ^ b == 1:
            return 0
        key = (a, b)
        r = self.strash.get(key)
        if r is not None:
            return r
        if self.fam:
            fa = self.fam.get(a)
            if fa is not None:
                fb = self.fam.get(b)
                if fb is not None:
                    for fid, x in fa.items():
                        y = fb.get(fid)
                        if y is not None:
                            t = self.famlit[fid]
                            r = t.get(x & y)
                            if r is None:
                                r = self._land(a, b, key)
                                self._in_family(r, fid, x & y)
                            self.strash[key] = r
                            return r
        return self._land(a, b, key)

    def _family(self, lits):
        """literals of which exactly one holds: conjunctions among them and
        their unions are computed on sets"""
        key = frozenset(lits)
        fid = self.famkey.get(key)
        if fid is None:
            fid = self.famkey[key] = len(self.famlit)
            full = (1 << len(lits)) - 1
            self.famlit.append({0: 0, full: 1})
            self.famfull.append(full)
            for i, l in enumerate(lits):
                self._in_family(l, fid, 1 << i)
        return fid

    def _in_family(self, l, fid, x):
        if l < 2:
            return
        t = self.famlit[fid]
        full = self.famfull[fid]
        for m, y in ((l, x), (l ^ 1, full ^ x)):
            t.setdefault(y, m)
            self.fam.setdefault(m, {}).setdefault(fid, y)

    def _land(self, a, b, key):
        # one-level simplification
        na, nb = a >> 1, b >> 1
        for x, y in ((a, b), (b, a)):
            nx = self.nodes[x >> 1]
            if nx[0] == "&":
                if x & 1 == 0:
                    if y == nx[1] or y == nx[2]:
                        self.strash[key] = x
                        return x
                    if y ^ 1 == nx[1] or y ^ 1 == nx[2]:
                        self.strash[key] = 0
                        return 0
                else:  # x = not(p and q)
                    if y ^ 1 == nx[1] or y ^ 1 == nx[2]:
                        self.strash[key] = y
                        return y
                    if y == nx[1]:
                        r = self.land(y, nx[2] ^ 1)
                        self.strash[key] = r
                        return r
                    if y == nx[2]:
                        r = self.land(y, nx[1] ^ 1)
                        self.strash[key] = r
                        return r
        sig = self.lsig(a) & self.lsig(b)
        th = self.theory_node[na] or self.theory_node[nb]
        k = self._new_node("&", a, b, sig, th, max(self.level[na], self.level[nb]) + 1)
        lit = 2 * k
        if self.sweep:
            lit = self._sweep(k)
        elif sig != 0 and sig != self.mask:
            self.bysig.setdefault(self._canon_sig(sig), []).append(k)
        self.strash[key] = lit
        return lit

    def _sweep(self, k):
        sig = self.sig[k]
        if sig == 0 or sig == self.mask:
            const = 0 if sig == 0 else 1
            if self._proved_eq(2 * k, const):
                return const
            sig = self.sig[k]
        cs = self._canon_sig(sig)
        cands = self.bysig.get(cs)
        if cands:
            for c in cands[:3]:
                if self._canon_sig(self.sig[c]) != self._canon_sig(self.sig[k]):
                    continue
                other = 2 * c if self.sig[c] == self.sig[k] else 2 * c + 1
                if self._proved_eq(2 * k, other):
                    return other
            cs = self._canon_sig(self.sig[k])
            self.bysig.setdefault(cs, []).append(k)
        else:
            self.bysig[cs] = [k]
        return 2 * k

    def _proved_eq(self, x, y):
        """z3: is x == y for every input?  (sweeping; limited effort)"""
        self.check_deadline()
        th = self.theory_node[x >> 1] or self.theory_node[y >> 1]
        self.stats.sweep_queries += 1
        if y < 2:
            r, m = self._solve([x ^ y], th, 20000 if not th else 2000, "sweep")
            if r == z3.sat:
                self._add_pattern(m)
            ok = r == z3.unsat
        else:
            ok = True
            for q in ([x, y ^ 1], [x ^ 1, y]):
                r, m = self._solve(q, th, 20000 if not th else 2000, "sweep")
                if r == z3.sat:
                    self._add_pattern(m)
                if r != z3.unsat:
                    ok = False
                    break
        if ok:
            self.stats.sweep_merged += 1
        return ok

    def _add_pattern(self, assign):
        """Extend every signature by one solver-found pattern (batched)."""
        if assign is None:
            return
        self.pending.append(assign)
        if len(self.pending) < max(8, min(48, len(self.nodes) // 400)):
            return
        batch, self.pending = self.pending, []
        base = self.npat
        w = len(batch)
        self.patched += w
        self.npat += w
        for name, nv in self.numvars.items():
            nv[4].extend(asg.get(("n", name), nv[4][0]) for asg in batch)
        self._ev_cache = {}
        full = (1 << w) - 1
        vals = [0] * len(self.nodes)
        views = [_View(vals, j) for j in range(w)]
        sig = self.sig
        for k in range(1, len(self.nodes)):
            kind, a, b = self.nodes[k]
            if kind == "&":
                x = vals[a >> 1]
                y = vals[b >> 1]
                v = (x ^ full if a & 1 else x) & (y ^ full if b & 1 else y)
            elif kind == "v":
                v = 0
                for j, asg in enumerate(batch):
                    if asg.get(("b", a), False):
                        v |= 1 << j
            else:
                v = 0
                for j in range(w):
                    if self._eval_atom_at(k, base + j, views[j]):
                        v |= 1 << j
            vals[k] = v
            if v:
                sig[k] |= v << base
        self.mask = (1 << self.npat) - 1
        self.bysig = {}
        for k in range(1, len(self.nodes)):
            self.bysig.setdefault(self._canon_sig(sig[k]), []).append(k)

    def neg(self, a):
        return a ^ 1

    def lor(self, a, b):
        return self.land(a ^ 1, b ^ 1) ^ 1

    def lxor(self, a, b):
        if a < 2:
            return b ^ a
        if b < 2:
            return a ^ b
        if a >> 1 == b >> 1:
            return (a ^ b) & 1
        inv = (a ^ b) & 1
        a &= ~1
        b &= ~1
        r = self.lor(self.land(a, b ^ 1), self.land(a ^ 1, b))
        return r ^ inv

    def liff(self, a, b):
        return self.lxor(a, b) ^ 1

    def lite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1:
            return self.lor(c, b)
        if a == 0:
            return self.land(c ^ 1, b)
        if b == 1:
            return self.lor(c ^ 1, a)
        if b == 0:
            return self.land(c, a)
        if a == b ^ 1:
            return self.liff(c, a)
        return self.lor(self.land(c, a), self.land(c ^ 1, b))

    def land_all(self, lits):
        lits = list(lits)
        if 0 in lits:
            return 0
        while len(lits) > 1:
            nxt = [self.land(lits[i], lits[i + 1]) for i in range(0, len(lits) - 1, 2)]
            if 0 in nxt:
                return 0
            if len(lits) & 1:
                nxt.append(lits[-1])
            lits = nxt
        return lits[0] if lits else 1

    def lor_all(self, lits):
        return self.land_all([x ^ 1 for x in lits]) ^ 1

    # -- z3 translation --------------------------------------------------------
    def zlit(self, lit, th):
        """z3 literal for an AIG literal, with the defining clauses loaded."""
        self._load(lit >> 1, th)
        e = self.zb[lit >> 1]
        return z3.Not(e) if lit & 1 else e

    def zraw(self, lit):
        """raw z3 literal"""
        r = self.zp.get(lit)
        if r is None:
            e = self._zname(lit >> 1)
            if lit & 1:
                e = z3.Not(e)
                self.zp[("keep", lit)] = e
            r = self.zp[lit] = e.as_ast()
        return r

    def _zname(self, k):
        e = self.zb[k]
        if e is None:
            e = self.zb[k] = z3.Bool(f"n{k}")
        return e

    def _load(self, k, th):
        loaded = self.in_th if th else self.in_bool
        if k in loaded:
            return
        solver = self.ts if th else self.bs
        stack = [k]
        while stack:
            j = stack[-1]
            if j in loaded:
                stack.pop()
                continue
            kind, a, b = self.nodes[j]
            if kind == "&":
                todo = [x >> 1 for x in (a, b) if (x >> 1) not in loaded]
                if todo:
                    stack.extend(todo)
                    continue
                zr = self.zraw
                ep, en = zr(2 * j), zr(2 * j + 1)
                sv = solver.solver
                _L.Z3_solver_assert(_ZC, sv, _L.Z3_mk_or(_ZC, 2, _Ast2(en, zr(a))))
                _L.Z3_solver_assert(_ZC, sv, _L.Z3_mk_or(_ZC, 2, _Ast2(en, zr(b))))
                _L.Z3_solver_assert(_ZC, sv, _L.Z3_mk_or(_ZC, 3, _Ast3(ep, zr(a ^ 1), zr(b ^ 1))))
                loaded.add(j)
                stack.pop()
            elif kind == "t":
                loaded.add(j)
                stack.pop()
                op, poly = a
                zp = self.znum(poly)
                e = self._zname(j)
                solver.add(e == (zp <= 0 if op == "<=" else zp == 0))
            else:
                self._zname(j)
                loaded.add(j)
                stack.pop()

    def znum(self, poly):
        """z3 real term for a polynomial (loads definitions in the theory solver)."""
        r = self._znum.get(poly)
        if r is not None:
            return r
        ts = []
        for mono, c in poly.terms.items():
            if c == 0:
                continue
            fs = [self.zatom(a) for a in mono]
            if not fs:
                ts.append(z3.RealVal(str(Fraction(c))))
                continue
            e = fs[0]
            for f in fs[1:]:
                e = e * f
            if c != 1:
                e = z3.RealVal(str(Fraction(c))) * e
            ts.append(e)
        r = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        self._znum[poly] = r
        return r

    def zatom(self, aid):
        kind = self.atoms[aid]
        key = ("za", aid)
        r = self._znum.get(key)
        if r is not None:
            return r
        k = kind[0]
        if k == "b":
            z = self.zlit(kind[1], True)
            r = z3.If(z, z3.RealVal(1), z3.RealVal(0))
        elif k == "v":
            name, vk, lo, hi = kind[1:]
            if vk == "int":
                v = z3.Int(name)
                r = z3.ToReal(v)
            else:
                v = z3.Real(name)
                r = v
            if lo is not None:
                self.ts.add(v >= (lo if vk == "int" else z3.RealVal(str(lo))))
            if hi is not None:
                self.ts.add(v <= (hi if vk == "int" else z3.RealVal(str(hi))))
        elif k == "ite":
            c, p, q = kind[1:]
            zp, zq = self.znum(p), self.znum(q)
            r = z3.If(self.zlit(c, True), zp, zq)
        elif k == "div":
            p, q = kind[1:]
            v = z3.Real(f"div{aid}")
            zq = self.znum(q)
            self.ts.add(z3.Implies(zq != 0, v * zq == self.znum(p)))
            r = v
        elif k == "floor":
            p = kind[1]
            v = z3.Int(f"floor{aid}")
            zp = self.znum(p)
            self.ts.add(z3.ToReal(v) <= zp, zp < z3.ToReal(v) + 1)
            r = z3.ToReal(v)
        elif k == "fdiv":
            p, q = kind[1:]
            v = z3.Int(f"fdiv{aid}")
            zp, zq = self.znum(p), self.znum(q)
            rv = z3.ToReal(v)
            self.ts.add(
                z3.Implies(zq > 0, z3.And(rv * zq <= zp, zp < rv * zq + zq)),
                z3.Implies(zq < 0, z3.And(rv * zq >= zp, zp > rv * zq + zq)),
            )
            r = rv
        elif k == "uf":
            v = z3.Real(f"uf{aid}_{kind[1]}")
            r = v
            lo, hi = self.atom_bounds(aid)
            if lo is not None:
                self.ts.add(v >= z3.RealVal(str(lo)))
            if hi is not None:
                self.ts.add(v <= z3.RealVal(str(hi)))
            self._uf_axioms(aid, v)
        else:
            raise Unsupported(f"atom {k}")
        self._znum[key] = r
        return r

    def _uf_axioms(self, aid, v):
        _, name, args = self.atoms[aid]
        if name == "sqrt":
            x = self.znum(args[0])
            self.ts.add(v >= 0, z3.Implies(x >= 0, v * v == x))
        elif name in UF_SIGN:
            # monotone: which side of its value at the pivot
            pivot, at, up = UF_SIGN[name]
            x = self.znum(args[0])
            c = z3.RealVal(str(at))
            lo, hi = (v >= c, v <= c) if up else (v <= c, v >= c)
            self.ts.add(z3.Implies(x >= pivot, lo), z3.Implies(x <= pivot, hi))
        # exact congruence with other applications of the same function
        for other in self.facts.setdefault(("uf", name, len(args)), []):
            oargs = self.atoms[other][2]
            ov = self._znum.get(("za", other))
            if ov is not None:
                self.ts.add(
                    z3.Implies(
                        z3.And(*[self.znum(a) == self.znum(b) for a, b in zip(args, oargs)]),
                        v == ov,
                    )
                )
        self.facts[("uf", name, len(args))].append(aid)

    # -- solving -----------------------------------------------------------------
    def _solve(self, lits, th, timeout_ms, what):
        t0 = time.time()
        solver = self.ts if th else self.bs
        try:
            zl = []
            for x in lits:
                if x != 1:
                    self._load(x >> 1, th)
                    zl.append(self.zraw(x))
            tmo = int(timeout_ms)
            if self._tmo[th] is None or tmo < self._tmo[th] or tmo > 2 * self._tmo[th]:
                solver.set("timeout", tmo)
                self._tmo[th] = tmo
            self.stats.queries += 1
            rc = _L.Z3_solver_check_assumptions(_ZC, solver.solver, len(zl), (z3.Ast * len(zl))(*zl))
            r = z3.sat if rc == 1 else (z3.unsat if rc == -1 else z3.unknown)
            m = None
            if r == z3.sat:
                m = self._model(solver.model())
            elif r == z3.unknown:
                self.stats.unknown += 1
            return r, m
        finally:
            self.stats.solver_s += time.time() - t0

    def _model(self, m):
        out = {}
        for name, lit in self.names.items():
            e = self.zb[lit >> 1]
            if e is None:
                out[("b", name)] = False
                continue
            v = m[e]
            out[("b", name)] = v is not None and z3.is_true(v)
        for name, (aid, kind, lo, hi, _) in self.numvars.items():
            v = m[z3.Int(name) if kind == "int" else z3.Real(name)] if ("za", aid) in self._znum else None
            if v is not None:
                if kind == "int":
                    out[("n", name)] = v.as_long()
                else:
                    if z3.is_algebraic_value(v):
                        v = v.approx(30)
                    out[("n", name)] = _norm(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            else:
                out[("n", name)] = lo if lo is not None else (hi if hi is not None else 0)
        return out

    @property
    def bitlit(self):
        return self.names

    def bitname(self, lit):
        return self.nodes[lit >> 1][1]

    def size(self):
        return len(self.nodes) + len(self.atoms)

    def is_theory(self, lits):
        return any(self.theory_node[x >> 1] for x in lits)

    def solve(self, lits, timeout_ms=20000, what="feas"):
        """(result, model): satisfiability of a conjunction of literals."""
        self.check_deadline()
        if 0 in lits:
            return z3.unsat, None
        if what == "goal":
            self.stats.goal_queries += 1
        else:
            self.stats.feas_queries += 1
        if self.deadline is not None:
            timeout_ms = max(200, min(timeout_ms, (self.deadline - time.time()) * 1000))
        return self._solve(lits, self.is_theory(lits), timeout_ms, what)

    # -- numbers ---------------------------------------------------------------
    def atom(self, *key):
        aid = self.atom_ids.get(key)
        if aid is None:
            aid = len(self.atoms)
            self.atoms.append(key)
            self.atom_ids[key] = aid
        return aid

    def new_num(self, name, kind="int", lo=None, hi=None, pats=None):
        aid = self.atom("v", name, kind, lo, hi)
        vals = []
        for p in range(self.npat):
            a = lo if lo is not None else -12
            b = hi if hi is not None else (a + 24)
            if b - a > 60 and self.rng.random() < 0.5:
                b = a + 40
            if kind == "int":
                vals.append(self.rng.randint(int(a), int(b)))
            else:
                vals.append(
                    _norm(Fraction(self.rng.randint(int(a) * 4, int(b) * 4), 4))
                )
        self.numvars[name] = (aid, kind, lo, hi, vals)
        return Poly(self, {(aid,): 1})

    def const(self, c):
        c = _norm(frac(c))
        return Poly(self, {(): c} if c != 0 else {})

    def b2i(self, lit):
        if lit == 0:
            return self.const(0)
        if lit == 1:
            return self.const(1)
        aid = self.atom("b", lit & ~1)
        if lit & 1:
            return Poly(self, {(): 1, (aid,): -1})
        return Poly(self, {(aid,): 1})

    def nite(self, c, p, q):
        if c == 1:
            return p
        if c == 0:
            return q
        if p is q or p == q:
            return p
        p = self._simp_under(c, p)
        q = self._simp_under(c ^ 1, q)
        d = p - q
        n = len(d.terms)
        if n <= 4 and all(self._is_boolmono(m) for m in d.terms):
            return q + self.b2i(c) * d
        if n > 2:
            k = p.is_const()
            if k is not None and self._const_under(c, k, q):
                return q
            k = q.is_const()
            if k is not None and self._const_under(c ^ 1, k, p):
                return p
        if c & 1:
            c, p, q = c ^ 1, q, p
        # collapse nested ites on the same condition
        p = self._assume_in(p, c, True)
        q = self._assume_in(q, c, False)
        if p == q:
            return p
        return Poly(self, {(self.atom("ite", c, p, q),): 1})

    def _simp_under(self, c, p):
        """p with its if-then-else parts simplified, knowing that c holds"""
        for m, x in p.terms.items():
            if len(m) == 1:
                a = self.atoms[m[0]]
                if a[0] == "ite":
                    for l, u, v in ((a[1], a[2], a[3]), (a[1] ^ 1, a[3], a[2])):
                        k = u.is_const()
                        if k is not None and self._const_under(self.land(c, l), k, v):
                            return self._simp_under(c, p + v.scale(x) - Poly(self, {m: x}))
        return p

    def _const_under(self, c, k, q):
        """is q, a sum over Booleans, provably k whenever c holds?"""
        if len(q.terms) > 24 or not all(self._is_boolmono(m) for m in q.terms):
            return False
        sg = self.lsig(c)
        terms = [(self.sig[self.atoms[m[0]][1] >> 1] if m else -1, x) for m, x in q.terms.items()]
        tried = 0
        while sg and tried < 60:
            low = sg & -sg
            i = low.bit_length() - 1
            sg ^= low
            if sum(x for t, x in terms if t == -1 or (t >> i) & 1) != k:
                return False
            tried += 1
        key = ("cu", c, k, q)
        r = self.facts.get(key)
        if r is None:
            r = self.facts[key] = self.land(c, self.eq0(q.addc(-k)) ^ 1) == 0
        return r

    def _assume_in(self, p, c, pos):
        if len(p.terms) == 1:
            (m, k), = p.terms.items()
            if len(m) == 1 and k == 1:
                a = self.atoms[m[0]]
                if a[0] == "ite" and a[1] == c:
                    return a[2] if pos else a[3]
        return p

    def _is_boolmono(self, m):
        return len(m) == 0 or (len(m) == 1 and self.atoms[m[0]][0] == "b")

    def atom_bounds(self, aid):
        key = ("bd", aid)
        r = self.facts.get(key)
        if r is None:
            r = self.facts[key] = self._atom_bounds(aid)
        return r

    def _atom_bounds(self, aid):
        a = self.atoms[aid]
        k = a[0]
        if k == "b":
            return (0, 1)
        if k == "v":
            return (a[3], a[4])
        if k == "ite":
            l1, h1 = a[2].bounds()
            l2, h2 = a[3].bounds()
            return (
                None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2),
            )
        if k == "floor":
            lo, hi = a[1].bounds()
            return (
                None if lo is None else math.floor(lo),
                None if hi is None else math.floor(hi),
            )
        if k == "fdiv":
            p, q = a[1], a[2]
            lo, hi = p.bounds()
            ql, qh = q.bounds()
            if ql is not None and ql > 0 and lo is not None and lo >= 0:
                return (
                    0 if qh is None else lo // qh,
                    None if hi is None else hi // ql,
                )
            return (None, None)
        if k == "div":
            p, q = a[1], a[2]
            lo, hi = p.bounds()
            ql, qh = q.bounds()
            if ql is not None and ql > 0 and lo is not None and lo >= 0:
                return (
                    0 if qh is None else Fraction(lo) / qh,
                    None if hi is None else Fraction(hi) / ql,
                )
            return (None, None)
        if k == "uf":
            return UF_BOUNDS.get(a[1], (None, None))
        return (None, None)

    # comparisons -----------------------------------------------------------------
    def le0(self, p):
        """literal for p <= 0"""
        return self._cmp0("<=", p)

    def eq0(self, p):
        return self._cmp0("==", p)

    def _cmp0(self, op, p):
        c = p.is_const()
        if c is not None:
            return int(c <= 0) if op == "<=" else int(c == 0)
        key = (op, p)
        r = self._cmp.get(key)
        if r is not None:
            return r
        r = self._cmp0_(op, p)
        self._cmp[key] = r
        return r

    def _cmp0_(self, op, p):
        q = self.reduce(p)
        if q is not p:
            return self._cmp0(op, q)
        lo, hi = p.bounds()
        if op == "<=":
            if hi is not None and hi <= 0:
                return 1
            if lo is not None and lo > 0:
                return 0
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return 0
        oh = self.onehot(p, 160 if self._inputs(p) else 48)
        if oh is not None:
            if op == "<=":
                sat = [l for v, l in oh.items() if v <= 0]
                uns = [l for v, l in oh.items() if v > 0]
            else:
                sat = [l for v, l in oh.items() if v == 0]
                uns = [l for v, l in oh.items() if v != 0]
            if len(sat) <= len(uns):
                return self.lor_all(sat)
            return self.lor_all(uns) ^ 1
        # single ite atom: push the comparison inside
        if len([m for m in p.terms if m]) == 1:
            m = [m for m in p.terms if m][0]
            if len(m) == 1 and self.atoms[m[0]][0] == "ite":
                _, c, a, b = self.atoms[m[0]]
                k = p.terms[m]
                rest = p.terms.get((), 0)
                return self.lite(
                    c,
                    self._cmp0(op, a.scale(k).addc(rest)),
                    self._cmp0(op, b.scale(k).addc(rest)),
                )
            if len(m) == 1 and self.atoms[m[0]][0] == "uf":
                r = self._threshold(op, self.atoms[m[0]], p.terms[m], p.terms.get((), 0))
                if r is not None:
                    return r
        # theory atom, normalised
        q = p.primitive(sign=(op == "=="))
        if q != p:
            r = self._cmp.get((op, q))
            if r is not None:
                return r
        if op == "<=":  # p<=0 over integers: share with its complement
            if q.isint():
                comp = q.scale(-1).addc(1)  # -q + 1 <= 0  <=> q >= 1
                r = self._cmp.get((op, comp))
                if r is not None:
                    r ^= 1
                    self._cmp[(op, q)] = r
                    return r
        r = self._pb(op, q)
        if r is not None:
            self._cmp[(op, q)] = r
            return r
        k = self._new_node("t", (op, q), 0, 0, True, 1)
        s = 0
        for pat in range(self.npat):
            if self._eval_atom_at(k, pat, None):
                s |= 1 << pat
        self.sig[k] = s
        lit = 2 * k
        self.bysig.setdefault(self._canon_sig(s), []).append(k)
        self._cmp[(op, q)] = lit
        return lit

    def _threshold(self, op, a, k, rest):
        """k f(x) + rest <= 0 (or == 0) for an increasing f of a bounded integer x,
        as a comparison of x; the place is found with f itself"""
        f = INCREASING.get(a[1])
        if f is None or len(a[2]) != 1 or not a[2][0].isint():
            return None
        x = a[2][0]
        lo, hi = x.bounds()
        if lo is None or hi is None or hi > 2 ** 52 or lo < (0 if a[1] == "sqrt" else 1):
            return None
        if op == "==":
            low, high = self._threshold("<=", a, k, rest), self._threshold("<=", a, -k, -rest)
            return self.land(low, high)
        lo, hi = int(lo), int(hi)

        def sat(v):
            return k * frac(f(v)) + rest <= 0

        at_lo, at_hi = sat(lo), sat(hi)
        if at_lo == at_hi:
            return 1 if at_lo else 0
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if sat(mid) == at_lo:
                lo = mid
            else:
                hi = mid
        return self.le0(x.addc(-lo)) if at_lo else self.le0(x.scale(-1).addc(hi))

    def _pb(self, op, p, budget=1500):
        """a comparison over Boolean monomials as a decision diagram, when small"""
        atoms = self.atoms
        count = {}
        for m in p.terms:
            for a in m:
                if atoms[a][0] != "b":
                    return None
                count[a] = count.get(a, 0) + 1
        if len(count) > 40 or len(p.terms) > 200:
            return None
        linear = all(len(m) < 2 for m in p.terms)
        if linear:
            wt = {a: abs(p.terms[(a,)]) for a in count}
        else:
            if len(count) > 14:
                return None
            wt = {a: sum(abs(c) for m, c in p.terms.items() if a in m) for a in count}
        order = sorted(count, key=lambda a: (-wt[a], a))
        memo = {}
        left = [budget]

        def go(t, i):
            lo = hi = t.get((), 0)
            for m, c in t.items():
                if m:
                    if c > 0:
                        hi += c
                    else:
                        lo += c
            if op == "<=":
                if hi <= 0:
                    return 1
                if lo > 0:
                    return 0
            else:
                if lo > 0 or hi < 0:
                    return 0
                if lo == hi == 0:
                    return 1
            key = (i, frozenset(t.items()))
            r = memo.get(key)
            if r is not None:
                return r
            left[0] -= 1
            if left[0] < 0:
                raise _Big
            a = order[i]
            t1, t0 = {}, {}
            for m, c in t.items():
                if a in m:
                    m2 = tuple(x for x in m if x != a)
                    t1[m2] = t1.get(m2, 0) + c
                else:
                    t1[m] = t1.get(m, 0) + c
                    t0[m] = c
            h = go({m: c for m, c in t1.items() if c != 0 or not m}, i + 1)
            l = go(t0, i + 1)
            r = ("n", atoms[a][1], h, l) if h != l else h
            memo[key] = r
            return r

        try:
            root = go(dict(p.terms), 0)
        except _Big:
            return None
        done = {}

        def build(x):
            if isinstance(x, int):
                return x
            k = id(x)
            if k not in done:
                done[k] = self.lite(x[1], build(x[2]), build(x[3]))
            return done[k]

        return build(root)

    def _eval_atom_at(self, k, pat, vals):
        op, poly = self.nodes[k][1]
        try:
            v = self._peval(poly, pat, vals)
        except (ZeroDivisionError, ValueError, OverflowError, Unsupported):
            return False
        return v <= 0 if op == "<=" else v == 0

    def _peval(self, poly, pat, vals):
        tot = 0
        for m, c in poly.terms.items():
            x = c
            for a in m:
                x = x * self._aeval(a, pat, vals)
            tot = tot + x
        return tot

    def _aeval(self, aid, pat, vals):
        a = self.atoms[aid]
        k = a[0]
        if k == "b":
            n = a[1] >> 1
            if vals is not None and n < len(vals):
                return int(vals[n])
            return (self.sig[n] >> pat) & 1
        if k == "v":
            return self.numvars[a[1]][4][pat]
        if k == "ite":
            n = a[1] >> 1
            if vals is not None and n < len(vals):
                b = bool(vals[n])
            else:
                b = bool((self.sig[n] >> pat) & 1)
            return self._peval(a[2] if b else a[3], pat, vals)
        if k == "div":
            return Fraction(self._peval(a[1], pat, vals)) / self._peval(a[2], pat, vals)
        if k == "fdiv":
            return self._peval(a[1], pat, vals) // self._peval(a[2], pat, vals)
        if k == "floor":
            return math.floor(self._peval(a[1], pat, vals))
        if k == "uf":
            return frac(uf_eval(a[1], [float(self._peval(x, pat, vals)) for x in a[2]]))
        raise Unsupported(k)

    # one-hot expansion ---------------------------------------------------------
    def onehot(self, p, maxdom=48):
        """{value: literal} when p provably ranges over few values, else None."""
        r = self._onehot.get(p)
        if r is not None:
            return r if len(r) <= maxdom else None
        if maxdom <= self._noonehot.get(p, 0):
            return None
        r = self._onehot_(p, maxdom)
        if r is not None:
            self._onehot[p] = r
            if len(r) > 3 and not any(x < 2 for x in r.values()):
                self._family(list(r.values()))
        else:
            self._noonehot[p] = maxdom
        return r

    def _inputs(self, p):
        """a sum over input bits"""
        return len(p.terms) > 3 and all(not m or (len(m) == 1 and self.atoms[m[0]][0] == "b" and self.nodes[self.atoms[m[0]][1] >> 1][0] == "v") for m in p.terms)

    def _floorcases(self, aid, cap):
        """{value: literal} of a quotient or floor between close bounds"""
        a = self.atoms[aid]
        lo, hi = self.atom_bounds(aid)
        if lo is None or hi is None or hi - lo >= cap:
            return None
        lo, hi = math.floor(lo), math.floor(hi)
        q = 1
        if a[0] == "fdiv":
            q = a[2].is_const()
            if q is None or q <= 0:
                return None
        at_least = {v: self.le0(self.const(q * v) - a[1]) for v in range(lo + 1, hi + 1)}
        at_least[lo], at_least[hi + 1] = 1, 0
        return {v: self.land(at_least[v], at_least[v + 1] ^ 1) for v in range(lo, hi + 1)}

    def _onehot_(self, p, maxdom):
        c = p.is_const()
        if c is not None:
            return {c: 1}
        const = p.terms.get((), 0)
        monos = [(m, k) for m, k in p.terms.items() if m]
        g = self._grouped(const, monos)
        if g is not None:
            return g if len(g) <= maxdom else None
        inputs = self._inputs(p)
        if len(monos) > (160 if inputs else 40):
            return None
        parts = []
        for m, k in monos:
            if len(m) != 1:
                return None
            a = self.atoms[m[0]]
            if a[0] == "b":
                parts.append((a[1] >> 1, {0: a[1] ^ 1, k: a[1]}))
            elif a[0] == "ite":
                x = self.onehot(a[2], maxdom)
                if x is None:
                    return None
                y = self.onehot(a[3], maxdom)
                if y is None:
                    return None
                d = {}
                for src, g in ((x, a[1]), (y, a[1] ^ 1)):
                    for v, l in src.items():
                        t = self.land(g, l)
                        if t != 0:
                            d[v] = self.lor(d.get(v, 0), t)
                parts.append((a[1] >> 1, {_norm(v * k): l for v, l in d.items()}))
            elif a[0] == "v" and a[2] == "int" and a[3] is not None and a[4] is not None and a[4] - a[3] < maxdom and len(monos) == 1:
                return None  # bounded ints stay in the theory solver
            elif a[0] in ("fdiv", "floor") and len(monos) == 1:
                d = self._floorcases(m[0], min(maxdom, 16))
                if d is None:
                    return None
                parts.append((-1, {_norm(v * k): l for v, l in d.items()}))
            else:
                return None
        parts.sort(key=lambda t: t[0])
        # quick size estimate
        est = {const}
        for _, d in parts:
            est = {x + y for x in est for y in d}
            if len(est) > maxdom:
                return None
        sweep = self.sweep
        if inputs:
            self.sweep = False  # independent inputs: nothing to merge
        try:
            cur = {const: 1}
            for _, d in parts:
                nxt = {}
                for v, g in cur.items():
                    for w, l in d.items():
                        t = self.land(g, l)
                        if t != 0:
                            s = _norm(v + w)
                            nxt[s] = self.lor(nxt.get(s, 0), t)
                cur = nxt
        finally:
            self.sweep = sweep
        return cur

    def _grouped(self, const, monos):
        """one-hot split of a sum over literals known to be exclusive and exhaustive"""
        if not monos or len(monos[0][0]) != 1:
            return None
        a = self.atoms[monos[0][0][0]]
        if a[0] != "b":
            return None
        grp = self.groups.get(a[1] >> 1)
        if grp is None or len(monos) > len(grp):
            return None
        nodes = {l >> 1: l for l in grp}
        coef = {}
        for m, k in monos:
            if len(m) != 1:
                return None
            a = self.atoms[m[0]]
            if a[0] != "b" or a[1] >> 1 not in nodes:
                return None
            coef[a[1] >> 1] = k
        out = {}
        for l in grp:
            v = const
            for n, k in coef.items():
                h = nodes[n]
                # is node n true when literal l of the group holds?
                if (h & 1 == 0) == (h == l):
                    v = v + k
            v = _norm(v)
            out[v] = self.lor(out[v], l) if v in out else l
        return out

    def register_group(self, lits):
        """declares literals exclusive and exhaustive, after proving it"""
        lits = [l for l in lits if l != 0]
        if len(lits) < 3 or len(lits) > 16 or 1 in lits:
            return
        if any(l >> 1 in self.groups for l in lits) or len({l >> 1 for l in lits}) < len(lits):
            return
        if any(self.theory_node[l >> 1] for l in lits):
            return
        for i, x in enumerate(lits):
            for y in lits[i + 1:]:
                if self.land(x, y) != 0:
                    return
        if self.lor_all(lits) != 1:
            return
        for l in lits:
            self.groups[l >> 1] = lits

    def reduce(self, p):
        """canonical form modulo the known one-hot groups"""
        if not self.groups:
            return p
        atoms = self.atoms
        t = None
        for m, c in p.terms.items():
            if len(m) != 1 or atoms[m[0]][0] != "b":
                continue
            g = self.groups.get(atoms[m[0]][1] >> 1)
            if g is None or g[-1] >> 1 != atoms[m[0]][1] >> 1:
                continue
            # the last literal is one minus the others
            e = self.const(1)
            for l in g[:-1]:
                e = e - self.b2i(l)
            if g[-1] & 1:
                e = self.const(1) - e
            if t is None:
                t = Poly(self, dict(p.terms))
            t = t + (e - Poly(self, {m: 1})).scale(c)
        return p if t is None else t

    def from_onehot(self, d):
        """polynomial of an exclusive and exhaustive {value: literal} split"""
        d = {_norm(v): l for v, l in d.items() if l != 0}
        if len(d) == 1:
            return self.const(next(iter(d)))
        lits = list(d.values())
        nodes = {l >> 1 for l in lits}
        base = next(iter(d))
        p = self.const(base)
        for v, l in d.items():
            if v != base:
                p = p + self.b2i(l).scale(v - base)
        if len(nodes) == len(lits) and len(lits) > 2 and not any(l >> 1 in self.groups for l in lits):
            for l in lits:
                self.groups[l >> 1] = lits
        self._onehot[p] = d
        return p

    # concrete evaluation under a model --------------------------------------------
    def eval_lit(self, lit, asg, memo=None):
        if memo is None:
            memo = {}
        k0 = lit >> 1
        stack = [k0]
        memo[0] = False
        while stack:
            k = stack[-1]
            if k in memo:
                stack.pop()
                continue
            kind, a, b = self.nodes[k]
            if kind == "v":
                memo[k] = bool(asg.get(("b", a), False))
                stack.pop()
            elif kind == "t":
                op, poly = a
                v = self.eval_poly(poly, asg, memo)
                memo[k] = v <= 0 if op == "<=" else v == 0
                stack.pop()
            else:
                todo = [x >> 1 for x in (a, b) if (x >> 1) not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                memo[k] = (memo[a >> 1] ^ bool(a & 1)) and (memo[b >> 1] ^ bool(b & 1))
                stack.pop()
        return memo[k0] ^ bool(lit & 1)

    def eval_poly(self, poly, asg, memo=None):
        if memo is None:
            memo = {}
        tot = 0
        for m, c in poly.terms.items():
            x = c
            for a in m:
                x = x * self.eval_atom(a, asg, memo)
            tot = tot + x
        return tot

    def eval_atom(self, aid, asg, memo):
        key = ("a", aid)
        if key in memo:
            return memo[key]
        a = self.atoms[aid]
        k = a[0]
        if k == "b":
            r = int(self.eval_lit(a[1], asg, memo))
        elif k == "v":
            r = asg.get(("n", a[1]), a[3] if a[3] is not None else 0)
        elif k == "ite":
            r = self.eval_poly(a[2] if self.eval_lit(a[1], asg, memo) else a[3], asg, memo)
        elif k == "div":
            r = Fraction(self.eval_poly(a[1], asg, memo)) / self.eval_poly(a[2], asg, memo)
        elif k == "fdiv":
            r = self.eval_poly(a[1], asg, memo) // self.eval_poly(a[2], asg, memo)
        elif k == "floor":
            r = math.floor(self.eval_poly(a[1], asg, memo))
        elif k == "uf":
            r = frac(uf_eval(a[1], [float(self.eval_poly(x, asg, memo)) for x in a[2]]))
        else:
            raise Unsupported(k)
        memo[key] = r
        return r


INCREASING = {"sqrt": math.sqrt, "log": math.log, "log2": math.log2, "log10": math.log10}
UF_BOUNDS = {
    "erfc": (0, 2),
    "gammaincc": (0, 1),
    "sqrt": (0, None),
    "exp": (0, None),
    "normcdf": (0, 1),
}

# name -> (pivot, value there, increasing)
UF_SIGN = {
    "erfc": (0, 1, False),
    "erf": (0, 0, True),
    "exp": (0, 1, True),
    "log": (1, 0, True),
    "log2": (1, 0, True),
    "log10": (1, 0, True),
    "normcdf": (0, Fraction(1, 2), True),
}


def uf_eval(name, args):
    import scipy.special as sp

    if name == "erfc":
        return math.erfc(args[0])
    if name == "gammaincc":
        return igamc(args[0], args[1])
    if name == "sqrt":
        return math.sqrt(args[0])
    if name == "log":
        return math.log(args[0])
    if name == "log2":
        return math.log2(args[0])
    if name == "exp":
        return math.exp(args[0])
    if name == "pow":
        return args[0] ** args[1]
    if name == "hyp1f1":
        return float(sp.hyp1f1(*args))
    if name == "intfloor":
        return math.floor(args[0])
    if name == "normcdf":
        return float(sp.ndtr(args[0]))
    if name == "erf":
        return math.erf(args[0])
    if name == "log10":
        return math.log10(args[0])
    if "." in name:
        import scipy.stats as st

        d, q = name.split(".")
        return float(getattr(getattr(st, d), q)(*args))
    raise Unsupported(f"uf {name}")


def igamc(a, x):
    import scipy.special as sp

    a, x = float(a), float(x)
    return float(sp.gammaincc(a, 0.0 if abs(x) < 1e-12 else x))


class _Big(Exception):
    pass


class _View:
    """one pattern of a batch"""

    __slots__ = ("v", "j")

    def __init__(self, v, j):
        self.v = v
        self.j = j

    def __len__(self):
        return len(self.v)

    def __getitem__(self, k):
        return (self.v[k] >> self.j) & 1


class Poly:
    __slots__ = ("ctx", "terms", "_h", "_bd")

    def __init__(self, ctx, terms):
        self.ctx = ctx
        self.terms = terms
        self._h = None
        self._bd = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.terms.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and hash(self) == hash(o) and self.terms == o.terms)

    def is_const(self):
        t = self.terms
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def __add__(self, o):
        if len(o.terms) > len(self.terms):
            self, o = o, self
        t = dict(self.terms)
        for m, c in o.terms.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = _norm(v + c)
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
        return Poly(self.ctx, t)

    def scale(self, k):
        if k == 0:
            return Poly(self.ctx, {})
        if k == 1:
            return self
        return Poly(self.ctx, {m: _norm(c * k) for m, c in self.terms.items()})

    def addc(self, k):
        if k == 0:
            return self
        t = dict(self.terms)
        v = _norm(t.get((), 0) + k)
        if v == 0:
            t.pop((), None)
        else:
            t[()] = v
        return Poly(self.ctx, t)

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        c = self.is_const()
        if c is not None:
            return o.scale(c)
        c = o.is_const()
        if c is not None:
            return self.scale(c)
        ctx = self.ctx
        if len(self.terms) * len(o.terms) > 60000:
            raise Unsupported("polynomial product too large")
        acc = {}

        def put(m, c):
            v = acc.get(m)
            if v is None:
                acc[m] = c
            else:
                v = v + c
                if v == 0:
                    del acc[m]
                else:
                    acc[m] = v

        atoms = ctx.atoms
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                c = c1 * c2
                if not m1:
                    put(m2, c)
                    continue
                if not m2:
                    put(m1, c)
                    continue
                b1 = [a for a in m1 if atoms[a][0] == "b"]
                b2 = [a for a in m2 if atoms[a][0] == "b"]
                if b1 and b2:
                    rest = tuple(sorted([a for a in m1 if a not in b1] + [a for a in m2 if a not in b2]))
                    lit = ctx.land(atoms[b1[0]][1], atoms[b2[0]][1])
                    if lit == 0:
                        continue
                    if lit == 1:
                        put(rest, c)
                        continue
                    aid = ctx.atom("b", lit & ~1)
                    mm = tuple(sorted(rest + (aid,)))
                    if lit & 1:
                        put(rest, c)
                        put(mm, -c)
                    else:
                        put(mm, c)
                else:
                    put(tuple(sorted(m1 + m2)), c)
        return Poly(ctx, {m: _norm(c) for m, c in acc.items() if c != 0})

    def bounds(self):
        if self._bd is not None:
            return self._bd
        lo, hi = 0, 0
        for m, c in self.terms.items():
            ml, mh = 1, 1
            for a in m:
                al, ah = self.ctx.atom_bounds(a)
                if len(m) == 2 and m[0] == m[1]:  # square
                    if al is None or ah is None:
                        ml, mh = 0, None
                    else:
                        ml = 0 if al <= 0 <= ah else min(al * al, ah * ah)
                        mh = max(al * al, ah * ah)
                    break
                if ml is None or mh is None or al is None or ah is None:
                    if (ml is not None and ml >= 0) and (al is not None and al >= 0):
                        ml, mh = ml * al, None
                    else:
                        ml, mh = None, None
                        break
                else:
                    cs = (ml * al, ml * ah, mh * al, mh * ah)
                    ml, mh = min(cs), max(cs)
            if c > 0:
                tl = None if ml is None else ml * c
                th = None if mh is None else mh * c
            else:
                tl = None if mh is None else mh * c
                th = None if ml is None else ml * c
            lo = None if lo is None or tl is None else lo + tl
            hi = None if hi is None or th is None else hi + th
        self._bd = (lo, hi)
        return self._bd

    def isint(self):
        """syntactically integer valued"""
        for m, c in self.terms.items():
            if type(c) is Fraction and c.denominator != 1:
                return False
            for a in m:
                at = self.ctx.atoms[a]
                if at[0] in ("b", "fdiv", "floor"):
                    continue
                if at[0] == "v" and at[2] == "int":
                    continue
                if at[0] == "ite" and at[2].isint() and at[3].isint():
                    continue
                return False
        return True

    def primitive(self, sign=False):
        """scaled by a positive rational so that coefficients are coprime ints"""
        den = 1
        for c in self.terms.values():
            d = Fraction(c).denominator
            den = den * d // math.gcd(den, d)
        g = 0
        for c in self.terms.values():
            g = math.gcd(g, int(c * den))
        if g == 0:
            return self
        k = Fraction(den, g)
        if sign:
            lead = min(self.terms.items(), key=lambda t: t[0])[1]
            if lead < 0:
                k = -k
        return self.scale(k)

    def __repr__(self):
        return "Poly(" + " + ".join(f"{c}*{[self.ctx.atoms[a] if self.ctx.atoms[a][0] != 'ite' else 'ite' for a in m]}" for m, c in list(self.terms.items())[:6]) + (", ..." if len(self.terms) > 6 else "") + ")"
