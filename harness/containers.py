"""Bins, floor dictionaries and default lists against plain models."""
from coinflip.collections import Bins
from coinflip.collections import FloorDict
from coinflip.collections import defaultlist


# ------------------------------------------------------------------ Bins
def nearest(intervals, key):
    """position of the nearest interval, the larger one on ties"""
    best = 0
    for i in range(1, len(intervals)):
        if abs(intervals[i] - key) <= abs(intervals[best] - key):
            best = i
    return best


def contents(bins):
    return [[k, v] for k, v in bins.items()]


def symbolic_intervals(inp, n, kind):
    """distinct symbolic intervals, in increasing order"""
    out = []
    for i in range(n):
        v = inp.real("i%d" % i, -50, 50) if kind == "real" else inp.int("i%d" % i, -50, 50)
        if i:
            inp.assume(out[-1] < v)
        out.append(v)
    return out


def bins_access(inp, intervals=None, n=None, kind="int", order=None, container="list", keykind="real", writes=2):
    """reads and writes through any keys, from any set of intervals"""
    if intervals is None:
        intervals = symbolic_intervals(inp, n, kind)
    given = list(intervals) if order is None else [intervals[i] for i in order]
    if container == "tuple":
        given = tuple(given)
    elif container == "iter":
        given = iter(given)
    bins = Bins(given)
    model = [[v, 0] for v in sorted(intervals)] if order is None else [[v, 0] for v in intervals]
    names = [m[0] for m in model]
    inp.same("all intervals are kept, sorted", list(bins.intervals), names)
    inp.same("length", len(bins), len(names))
    inp.same("bins start empty", contents(bins), model)
    for w in range(writes):
        key = inp.real("k%d" % w, -100, 100) if keykind == "real" else inp.int("k%d" % w, -100, 100)
        i = nearest(names, key)
        inp.same("read %d" % w, bins[key], model[i][1])
        if w % 2 == 0:
            bins[key] += 1
            model[i][1] = model[i][1] + 1
        else:
            v = inp.int("v%d" % w, -5, 5)
            bins[key] = v
            model[i][1] = v
        inp.same("contents %d" % w, contents(bins), model)
        inp.same("intervals %d" % w, list(bins), names)


def bins_history(inp, intervals=None, n=None, ops="wdr"):
    """histories of writes, deletions and reads"""
    if intervals is None:
        intervals = symbolic_intervals(inp, n, "int")
    bins = Bins(list(intervals))
    model = [[v, 0] for v in sorted(intervals)]
    for j in range(len(model)):
        v = inp.int("v%d" % j, -9, 9)
        bins[model[j][0]] = v
        model[j][1] = v
    inp.same("filled", contents(bins), model)
    for w, op in enumerate(ops):
        names = [m[0] for m in model]
        if op == "w":
            key = inp.real("k%d" % w, -100, 100)
            v = inp.int("x%d" % w, -9, 9)
            bins[key] = v
            model[nearest(names, key)][1] = v
        elif op == "a":
            key = inp.real("k%d" % w, -100, 100)
            bins[key] += 2
            i = nearest(names, key)
            model[i][1] = model[i][1] + 2
        elif op == "r":
            key = inp.real("k%d" % w, -100, 100)
            inp.same("read %d" % w, bins[key], model[nearest(names, key)][1])
        else:
            if len(model) < 2:
                continue
            i = inp.fork("d%d" % w, list(range(len(model))))
            gone = model.pop(i)
            del bins[gone[0]]
            j = nearest([m[0] for m in model], gone[0])
            model[j][1] = model[j][1] + gone[1]
        inp.same("contents %d" % w, contents(bins), model)
    inp.same("total", sum(bins.values()), sum(m[1] for m in model))


def bins_duplicates(inp, n, container="list"):
    """refused exactly when two intervals are equal"""
    vals = [inp.int("i%d" % i, -4, 4) for i in range(n)]
    dup = False
    for i in range(n):
        for j in range(i):
            if vals[i] == vals[j]:
                dup = True
    try:
        bins = Bins(iter(list(vals)) if container == "iter" else list(vals))
    except ValueError:
        inp.true("refused because of a duplicate", dup)
        return
    inp.true("accepted without duplicates", not dup)
    inp.same("sorted", list(bins.intervals), sorted(vals))


# ------------------------------------------------------------------ FloorDict
def floor_dict(inp, n=None, kind="int", keys=None, order=None):
    if keys is None:
        keys = []
        for i in range(n):
            v = inp.real("s%d" % i, -50, 50) if kind == "real" else inp.int("s%d" % i, -50, 50)
            if i:
                inp.assume(keys[-1] < v)
            keys.append(v)
    n = len(keys)
    vals = ["v%d" % i for i in range(n)]
    d = {}
    for i in order if order is not None else range(n):
        d[keys[i]] = vals[i]
    f = FloorDict(d)
    key = inp.real("key", -100, 100) if kind == "real" else inp.int("key", -10 ** 7, 10 ** 7)
    try:
        got = f[key]
    except KeyError:
        inp.true("only keys below all stored ones are refused", key < keys[0])
        return
    inp.true("keys below all stored ones are refused", key >= keys[0])
    want = None
    for i in range(n):
        if keys[i] <= key:
            want = vals[i]
    inp.same("entry of the greatest key not above", got, want)
    inp.same("length", len(f), n)
    inp.same("keys", list(f), keys)
    inp.same("get agrees", f.get(key, "none"), want)


def floor_dict_ends(inp, keys):
    """at, just below and just above every stored key"""
    f = FloorDict({k: "v%d" % k for k in keys})
    i = inp.fork("i", list(range(len(keys))))
    d = inp.fork("d", [-1, 0, 1])
    key = keys[i] + d
    want = None
    for k in sorted(keys):
        if k <= key:
            want = "v%d" % k
    inp.same("get", f.get(key, None), want)
    inp.same("in", key in f, want is not None)


# ------------------------------------------------------------------ defaultlist
def mention(xs):
    return list(xs)


class Padded:
    """an ordinary list, padded with the default on demand; `n` is one more
    than the greatest position whose element was read, written or moved there"""

    def __init__(self, default, size=40):
        self.default = default
        self.cells = {}

    def __len__(self):
        out = 0
        for k in self.cells:
            out = max(out, k + 1)
        return out

    def at(self, i):
        return self.cells[i] if i in self.cells else self.default

    def touch(self, i):
        if i not in self.cells:
            self.cells[i] = self.default
        return self.cells[i]

    def remove(self, positions):
        out = {}
        for k, v in self.cells.items():
            if k not in positions:
                out[k - len([p for p in positions if p < k])] = v
        self.cells = out

    def room(self, i, size):
        out = {}
        for k, v in self.cells.items():
            out[k if k < i else k + size] = v
        self.cells = out

    def values(self):
        return [self.at(i) for i in range(len(self))]


def resolve(n, i):
    """index i of a list of n elements, None when out of range"""
    if i >= 0:
        return i
    return None if i < -n else n + i


def bounds(n, start, stop, step):
    """positions of a slice, None when a bound is out of range"""
    if start is None:
        a = 0 if step > 0 else n - 1
    else:
        a = resolve(n, start)
    if stop is None:
        b = n if step > 0 else -1
    else:
        b = resolve(n, stop)
    if a is None or b is None:
        return None
    return a, b, list(range(a, b, step))


DEFAULTS = {"zero": (int, 0), "none": (None, None), "seven": (lambda: 7, 7)}


def slice_of(inp, w, lim, steps):
    opts = [None] + list(range(-lim, lim + 1))
    a = inp.fork("a%d" % w, opts)
    b = inp.fork("b%d" % w, opts)
    s = inp.fork("s%d" % w, steps)
    return a, b, s


def default_list(inp, ops, default="zero", fill=3, lim=3, steps=(None, 1, 2, -1), nvals=2, skip=0):
    """a history of operations; every index, bound, step and value is symbolic

    g/G read an item / a slice, s/S write, d/D delete, i insert, a append,
    x extend, p pop, I index, e equality
    """
    factory, dv = DEFAULTS[default]
    dl = defaultlist(factory)
    m = Padded(dv)
    for j in range(fill):
        v = inp.int("f%d" % j, -5, 5)
        dl[j + skip] = v
        m.cells[j + skip] = v
    for w, op in enumerate(ops):
        n = len(m)
        before = m.values()
        want = "ok"
        got = "ok"
        out = wout = None
        if op in "gsdi":
            i = inp.fork("i%d" % w, list(range(-lim - 1, lim + 2)))
            at = resolve(n, i)
            v = inp.int("v%d" % w, -5, 5)
            if at is None:
                want = "index"
            elif op == "g":
                wout = m.touch(at)
            elif op == "s":
                m.cells[at] = v
            elif op == "d":
                m.remove([at])
            else:
                m.room(at, 1)
                m.cells[at] = v
            try:
                if op == "g":
                    out = dl[i]
                elif op == "s":
                    dl[i] = v
                elif op == "d":
                    del dl[i]
                else:
                    dl.insert(i, v)
            except IndexError:
                got = "index"
            inp.same("item %d" % w, out, wout)
        elif op in "GSD":
            a, b, s = slice_of(inp, w, lim, steps)
            step = 1 if s is None else s
            r = bounds(n, a, b, step)
            vals = [inp.int("v%d_%d" % (w, j), -5, 5) for j in range(inp.fork("n%d" % w, list(range(nvals + 1))))] if op == "S" else []
            if r is None:
                want = "index"
            elif op == "G":
                wout = [m.touch(k) for k in r[2]]
            elif op == "D":
                m.remove(r[2])
            elif step == 1:
                m.remove(r[2])
                m.room(r[0], len(vals))
                for j, v in enumerate(vals):
                    m.cells[r[0] + j] = v
            elif len(r[2]) != len(vals):
                want = "value"
            else:
                for k, v in zip(r[2], vals):
                    m.cells[k] = v
            try:
                if op == "G":
                    out = list(dl[a:b:s])
                elif op == "S":
                    dl[a:b:s] = list(vals)
                else:
                    del dl[a:b:s]
            except IndexError:
                got = "index"
            except ValueError:
                got = "value"
            inp.same("slice %d" % w, out, wout)
        elif op == "a":
            v = inp.int("v%d" % w, -5, 5)
            dl.append(v)
            m.cells[n] = v
        elif op == "x":
            vs = [inp.int("v%d_%d" % (w, j), -5, 5) for j in range(2)]
            dl.extend(vs)
            for j, v in enumerate(vs):
                m.cells[n + j] = v
        elif op == "p":
            if n == 0:
                want = "index"
            else:
                wout = m.touch(n - 1)
                m.remove([n - 1])
            try:
                out = dl.pop()
            except IndexError:
                got = "index"
            inp.same("popped %d" % w, out, wout)
        elif op == "I":
            v = inp.int("v%d" % w, -5, 5)
            pos = None
            for k in range(n):
                if pos is None and m.at(k) == v:
                    pos = k
            try:
                out = dl.index(v)
            except ValueError:
                out = None
            inp.same("index %d" % w, out, pos)
        inp.same("outcome %d" % w, got, want)
        if want != "ok":
            inp.same("left unchanged %d" % w, [dl[k] for k in range(len(before))], before)
        inp.same("length %d" % w, len(dl), len(m))
    inp.same("elements", list(dl), m.values())
    inp.true("equals the plain list", dl == m.values())
