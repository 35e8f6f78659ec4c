"""Every randomness test against the definitions in spec.nist."""
from itertools import product

from coinflip import randtests
from coinflip._randtests.common.exceptions import NonBinarySequenceError
from coinflip._randtests.common.exceptions import TestNotImplementedError

from harness.common import sequence
from spec import nist


def monobit(inp, n, free=None):
    bits = sequence(inp, n, free)
    r = randtests.monobit(bits)
    stat, p = nist.monobit(bits)
    ones = sum(bits)
    inp.close("statistic", r.statistic, stat)
    inp.close("p", r.p, p)
    inp.same("n", r.n, n)
    inp.same("heads count", r.counts.heads.count, ones)
    inp.same("tails count", r.counts.tails.count, n - ones)
    inp.same("heads value", r.counts.heads.value, 1)
    inp.same("tails value", r.counts.tails.value, 0)
    inp.same("diff", r.diff, abs(2 * ones - n))


def frequency_within_block(inp, n, blocksize, free=None):
    bits = sequence(inp, n, free)
    r = randtests.frequency_within_block(bits, blocksize=blocksize)
    stat, p, counts = nist.frequency_within_block(bits, blocksize)
    inp.close("statistic", r.statistic, stat)
    inp.tail("p", r.p, p, (n // blocksize) / 2, stat)
    inp.same("blocksize", r.blocksize, blocksize)
    inp.same("nblocks", r.nblocks, n // blocksize)
    inp.same("counts", list(r.counts), counts)


def runs(inp, n, free=None):
    bits = sequence(inp, n, free)
    r = randtests.runs(bits)
    stat, p = nist.runs(bits)
    inp.same("statistic", r.statistic, stat)
    inp.close("p", r.p, p)
    inp.same("nheads", r.nheads, sum(bits))
    inp.same("ntails", r.ntails, n - sum(bits))


def longest_runs(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    try:
        r = randtests.longest_runs(bits)
    except TestNotImplementedError:
        inp.true("refuses only sequences below 128", n < 128)
        return
    inp.true("sequences below 128 are refused", n >= 128)
    stat, p, counts = nist.longest_runs(bits)
    inp.same("class counts", list(r.maxlen_bins.values()), counts)
    inp.close("statistic", r.statistic, stat)
    inp.tail("p", r.p, p, (len(counts) - 1) / 2, stat)
    inp.same("nblocks", r.nblocks, nist.LONGEST[nist.longest_blocksize(n)][0])
    inp.same("blocksize", r.blocksize, nist.longest_blocksize(n))


def matrix(inp, n, nrows, ncols, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.binary_matrix_rank(bits, matrix_dimen=(nrows, ncols))
    stat, p, counts = nist.matrix(bits, nrows, ncols)
    inp.same("counts", [r.rankcounts.remaining, r.rankcounts.runnerup, r.rankcounts.full], counts)
    inp.close("statistic", r.statistic, stat)
    inp.tail("p", r.p, p, 1, stat)


def spectral(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    try:
        r = randtests.spectral(bits)
    except NonBinarySequenceError:
        inp.true("refuses only when truncation leaves one value", n % 2 == 1)
        kept = sum(bits[:-1])
        inp.true("one value left", (kept == 0) | (kept == n - 1))
        return
    stat, p, below = nist.spectral(bits)
    inp.same("peaks below", r.nbelow, below)
    inp.close("statistic", r.statistic, stat)
    inp.close("p", r.p, p)


def non_overlapping(inp, n, template_size, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.non_overlapping_template_matching(bits, template_size=template_size, blocksize=blocksize)
    ref = nist.non_overlapping(bits, template_size, blocksize)
    inp.same("number of templates", len(r.results), 2 ** template_size)
    for template in product([0, 1], repeat=template_size):
        sub = r.results[template]
        stat, p, counts = ref[template]
        name = "".join(str(b) for b in template)
        inp.same("counts " + name, list(sub.block_matches), counts)
        inp.close("statistic " + name, sub.statistic, stat)
        inp.tail("p " + name, sub.p, p, (n // blocksize) / 2, stat)


def overlapping(inp, n, template_size, blocksize, matches_ceil, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.overlapping_template_matching(
        bits, template_size=template_size, blocksize=blocksize, matches_ceil=matches_ceil
    )
    stat, p, tallies, expected = nist.overlapping(bits, template_size, blocksize, matches_ceil)
    inp.same("tallies", list(r.tallies), tallies)
    inp.close("expected tallies", list(r.expected_tallies), expected)
    inp.close("statistic", r.statistic, stat)
    inp.tail("p", r.p, p, matches_ceil / 2, stat)


def universal(inp, n, blocksize, init_nblocks, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.maurers_universal(bits, blocksize=blocksize, init_nblocks=init_nblocks)
    stat, p = nist.universal(bits, blocksize, init_nblocks)
    inp.close("statistic", r.statistic, stat)
    inp.close("p", r.p, p)


def linear_complexity(inp, n, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.linear_complexity(bits, blocksize=blocksize)
    stat, p, counts = nist.linear_complexity(bits, blocksize)
    inp.same("class counts", list(r.variance_bins.values()), counts)
    inp.close("mean", r.mean_expect, nist.lc_mean(blocksize))
    inp.close("statistic", r.statistic, stat)
    inp.tail("p", r.p, p, 3, stat)


def serial(inp, n, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.serial(bits, blocksize=blocksize)
    first, second = nist.serial(bits, blocksize)
    inp.same("number of results", len(r.results), 2)
    stats, ps = list(r.statistics), list(r.pvalues)
    inp.close("first difference", stats[0], first[0])
    inp.close("second difference", stats[1], second[0])
    inp.tail("p1", ps[0], first[1], 2 ** (blocksize - 2), first[0])
    inp.tail("p2", ps[1], second[1], 2 ** (blocksize - 3), second[0])


def approximate_entropy(inp, n, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.approximate_entropy(bits, blocksize=blocksize)
    stat, p = nist.approximate_entropy(bits, blocksize)
    inp.close("statistic", r.statistic, stat)
    inp.tail("p", r.p, p, 2 ** (blocksize - 1), stat)


def cusum(inp, n, reverse, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.cusum(bits, reverse=reverse)
    stat, p = nist.cusum(bits, reverse)
    inp.same("statistic", r.statistic, stat)
    inp.close("p", r.p, p)


def random_excursions(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.random_excursions(bits)
    ref = nist.random_excursions(bits)
    inp.same("states", list(r.results.keys()), list(ref.keys()))
    for state, (stat, p) in ref.items():
        inp.close("statistic %d" % state, r.results[state].statistic, stat)
        inp.tail("p %d" % state, r.results[state].p, p, 5 / 2, stat)


def random_excursions_variant(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    r = randtests.random_excursions_variant(bits)
    ref = nist.random_excursions_variant(bits)
    inp.same("states", list(r.results.keys()), list(ref.keys()))
    for state, (stat, p) in ref.items():
        inp.same("visits %d" % state, r.results[state].statistic, stat)
        inp.close("p %d" % state, r.results[state].p, p)
