"""GF(2) rank, shortest registers, generators, multi-results."""
from coinflip import algorithms
from coinflip import generators
from coinflip._randtests.common.result import MultiTestResult
from coinflip._randtests.common.result import SubTestResult

from harness.common import sequence
from spec import nist


def matrix_rank(inp, nrows, ncols, tuples=False, free=None, seed=1):
    bits = inp.bits(nrows * ncols) if free is None else sequence(inp, nrows * ncols, list(free), seed)
    rows = [bits[i * ncols : (i + 1) * ncols] for i in range(nrows)]
    if tuples:
        given = tuple(tuple(r) for r in rows)
    else:
        given = [list(r) for r in rows]
    got = algorithms.matrix_rank(given)
    inp.same("rank", got, nist.rank(rows))
    inp.same("rows left as they were", [list(r) for r in given], rows)


def matrix_rank_sparse(inp, nrows, ncols, cols):
    """symbolic columns in an otherwise empty matrix"""
    bits = inp.bits(nrows * len(cols))
    rows = [[0] * ncols for i in range(nrows)]
    small = []
    for i in range(nrows):
        small.append(bits[i * len(cols) : (i + 1) * len(cols)])
        for j, col in enumerate(cols):
            rows[i][col] = small[i][j]
    got = algorithms.matrix_rank(rows)
    inp.same("rank", got, nist.rank(small))


def berlekamp_massey(inp, n, tuples=False):
    bits = inp.bits(n)
    given = tuple(bits) if tuples else list(bits)
    got = algorithms.berlekamp_massey(given)
    inp.same("shortest register", got, nist.linear_complexity_of(bits))
    inp.same("sequence left as it was", list(given), bits)


def berlekamp_massey_search(inp, n):
    """against the definition: the shortest register, over every register"""
    bits = inp.bits(n)
    got = algorithms.berlekamp_massey(list(bits))
    inp.same("shortest register", got, nist.linear_complexity_by_search(bits))


J = 2 ** 31 - 1


def mersenne(inp, steps):
    """from every state"""
    s = inp.int("seed", -2 ** 33, 2 ** 33)
    g = generators.Mersenne(s)
    for i in range(steps):
        bit = next(g)
        s = 16807 * s % J
        inp.same("bit %d" % i, bit, 0 if 2 * s < J else 1)


def mersenne_default(inp):
    """the default seed is 42"""
    g, s = generators.Mersenne(), 42
    for i in range(50):
        s = 16807 * s % J
        inp.same("bit %d" % i, next(g), 0 if 2 * s < J else 1)


class Source:
    """a random source whose bits are the given ones"""

    def __init__(self, bits):
        self.bits = bits
        self.i = 0

    def getrandbits(self, k):
        assert k == 1
        b = self.bits[self.i]
        self.i = self.i + 1
        return b


def python(inp, steps):
    bits = inp.bits(steps)
    g = generators.Python()
    names = [k for k, v in vars(g).items() if hasattr(v, "getrandbits")]
    if len(names) != 1:
        return
    setattr(g, names[0], Source(bits))
    for i in range(steps):
        inp.same("bit %d" % i, next(g), bits[i])


def multi_result(inp, n):
    ps = [inp.real("p%d" % i, 0, 1) for i in range(n)]
    stats = [inp.real("s%d" % i, -100, 100) for i in range(n)]
    results = {}
    for i in range(n):
        results[("f", i)] = SubTestResult(stats[i], ps[i])
    r = MultiTestResult(1, 0, [], results)
    inp.same("statistics", list(r.statistics), stats)
    inp.same("p-values", list(r.pvalues), ps)
    feature, sub = r.min
    at = 0
    for i in range(1, n):
        if ps[i] < ps[at]:
            at = i
    inp.same("smallest p-value", sub.p, ps[at])
    inp.same("its statistic", sub.statistic, stats[at])
    inp.same("its feature", feature[1], at)
