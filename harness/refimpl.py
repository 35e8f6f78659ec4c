"""The reference implementation against the definitions in spec.nist."""
from itertools import product

from coinflip import randtests_refimpl as ref

from harness.common import sequence
from spec import nist


def monobit(inp, n, free=None):
    bits = sequence(inp, n, free)
    got = ref.monobit(bits)
    stat, p = nist.monobit(bits)
    inp.close("statistic", got[0], stat)
    inp.close("p", got[1], p)


def frequency_within_block(inp, n, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.frequency_within_block(bits, blocksize)
    stat, p, counts = nist.frequency_within_block(bits, blocksize)
    inp.close("statistic", got[0], stat)
    inp.tail("p", got[1], p, (n // blocksize) / 2, stat)


def runs(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.runs(bits)
    stat, p = nist.runs(bits)
    inp.same("statistic", got[0], stat)
    inp.close("p", got[1], p)


def longest_runs(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.longest_runs(bits)
    stat, p, counts = nist.longest_runs(bits)
    inp.close("statistic", got[0], stat)
    inp.tail("p", got[1], p, (len(counts) - 1) / 2, stat)


def matrix(inp, n, nrows, ncols, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.binary_matrix_rank(bits, (nrows, ncols))
    stat, p, counts = nist.matrix(bits, nrows, ncols)
    inp.close("statistic", got[0], stat)
    inp.tail("p", got[1], p, 1, stat)


def spectral(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.spectral(bits)
    stat, p, below = nist.spectral(bits)
    inp.close("statistic", got[0], stat)
    inp.close("p", got[1], p)


def non_overlapping(inp, n, template_size, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.non_overlapping_template_matching(bits, template_size, blocksize)
    want = nist.non_overlapping(bits, template_size, blocksize)
    stats, ps = list(got[0]), list(got[1])
    inp.same("number of statistics", len(stats), 2 ** template_size)
    inp.same("number of p-values", len(ps), 2 ** template_size)
    for i, template in enumerate(product([0, 1], repeat=template_size)):
        stat, p, counts = want[template]
        name = "".join(str(b) for b in template)
        inp.close("statistic " + name, stats[i], stat)
        inp.tail("p " + name, ps[i], p, (n // blocksize) / 2, stat)


def overlapping(inp, n, template_size, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.overlapping_template_matching(bits, template_size, blocksize)
    stat, p, tallies, expected = nist.overlapping(bits, template_size, blocksize, 5)
    inp.close("statistic", got[0], stat)
    inp.tail("p", got[1], p, 5 / 2, stat)


def universal(inp, n, blocksize, init_nblocks, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.maurers_universal(bits, blocksize, init_nblocks)
    stat, p = nist.universal(bits, blocksize, init_nblocks)
    inp.close("statistic", got[0], stat)
    inp.close("p", got[1], p)


def linear_complexity(inp, n, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.linear_complexity(bits, blocksize)
    stat, p, counts = nist.linear_complexity(bits, blocksize)
    inp.close("statistic", got[0], stat)
    inp.tail("p", got[1], p, 3, stat)


def serial(inp, n, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.serial(bits, blocksize)
    first, second = nist.serial(bits, blocksize)
    stats, ps = list(got[0]), list(got[1])
    inp.same("number of statistics", len(stats), 2)
    inp.same("number of p-values", len(ps), 2)
    inp.close("first difference", stats[0], first[0])
    inp.close("second difference", stats[1], second[0])
    inp.tail("p1", ps[0], first[1], 2 ** (blocksize - 2), first[0])
    inp.tail("p2", ps[1], second[1], 2 ** (blocksize - 3), second[0])


def approximate_entropy(inp, n, blocksize, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.approximate_entropy(bits, blocksize)
    stat, p = nist.approximate_entropy(bits, blocksize)
    inp.close("statistic", got[0], stat)
    inp.tail("p", got[1], p, 2 ** (blocksize - 1), stat)


def cusum(inp, n, reverse, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.cusum(bits, reverse)
    stat, p = nist.cusum(bits, reverse)
    inp.same("statistic", got[0], stat)
    inp.close("p", got[1], p)


def random_excursions(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.random_excursions(bits)
    want = nist.random_excursions(bits)
    stats, ps = list(got[0]), list(got[1])
    inp.same("number of statistics", len(stats), len(want))
    for i, (state, (stat, p)) in enumerate(want.items()):
        inp.close("statistic %d" % state, stats[i], stat)
        inp.tail("p %d" % state, ps[i], p, 5 / 2, stat)


def random_excursions_variant(inp, n, free=None, seed=1):
    bits = sequence(inp, n, free, seed)
    got = ref.random_excursions_variant(bits)
    want = nist.random_excursions_variant(bits)
    stats, ps = list(got[0]), list(got[1])
    inp.same("number of statistics", len(stats), len(want))
    for i, (state, (stat, p)) in enumerate(want.items()):
        inp.same("visits %d" % state, stats[i], stat)
        inp.close("p %d" % state, ps[i], p)
