"""Charts of what was counted."""
from math import log
from math import sqrt

from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError

from harness.common import sequence
from harness.contents import classes
from harness.contents import tally
from spec import nist


def units(chart, data=None):
    """data and encoding of each part of the chart"""
    own = getattr(chart, "data", None)
    if hasattr(own, "columns"):
        data = own
    for kind in ("layer", "vconcat", "hconcat"):
        parts = getattr(chart, kind, None)
        if isinstance(parts, (list, tuple)):
            out = []
            for part in parts:
                out.extend(units(part, data))
            return out
    return [(data, chart.encoding)]


def values(unit, channel):
    """what is drawn along this channel"""
    data, encoding = unit
    shown = encoding[channel]
    if not isinstance(shown, str):
        shown = shown.shorthand
    return list(data[shown.split(":")[0]])


PLOTS = {
    "monobit": "plot_counts",
    "frequency_within_block": "plot_count_nblocks",
    "longest_runs": "plot_maxlen_bins",
    "binary_matrix_rank": "plot_rank_counts",
    "spectral": "plot_fourier",
    "overlapping_template_matching": "plot_template_matches",
    "linear_complexity": "plot_variance",
    "approximate_entropy": "plot_permutation_counts",
    "cusum": "plot_random_walk",
    "random_excursions": "plot_random_walk",
    "random_excursions_variant": "plot_random_walk",
}


def check_tally(inp, label, xs, ys, wanted):
    pairs = sorted((x, y) for x, y in zip(xs, ys))
    inp.same("rows of " + label, len(pairs), len(wanted))
    for i, (a, b) in enumerate(wanted):
        inp.same("value of " + label, pairs[i][0], a)
        inp.same("number of " + label, pairs[i][1], b)


def chart(inp, test, n, kw=None, free=None, seed=1):
    """the chart of the data of a test draws what was counted"""
    kw = kw or {}
    bits = sequence(inp, n, free, seed)
    try:
        result = getattr(_randtests, test)(bits, **kw)
    except TestError:
        inp.true("nothing to plot", True)
        return
    drawn = units(getattr(result, PLOTS[test])())
    first = drawn[0]
    rows = classes(test, bits, kw)
    if rows is not None:
        inp.same("parts", len(drawn), 1)
        xs, ys, kinds = values(first, "x"), values(first, "y"), values(first, "column")
        inp.same("bars", len(xs), 2 * len(rows))
        for label, e, a in rows:
            for kind, want in (("expected", e), ("observed", a)):
                at = [i for i in range(len(xs)) if str(xs[i]) == label and str(kinds[i]) == kind]
                inp.same("bars of %s %s" % (kind, label), len(at), 1)
                inp.close("%s %s" % (kind, label), ys[at[0]], want)
        return
    if test == "monobit":
        ones = sum(bits)
        inp.same("parts", len(drawn), 1)
        check_tally(inp, "values", values(first, "x"), values(first, "y"), [(0, n - ones), (1, ones)])
    elif test == "frequency_within_block":
        size = kw["blocksize"]
        counts = [sum(bits[i * size : (i + 1) * size]) for i in range(n // size)]
        for unit in drawn:
            check_tally(inp, "counts", values(unit, "x"), values(unit, "y"), tally(counts))
    elif test == "approximate_entropy":
        size = kw["blocksize"]
        inp.same("parts", len(drawn), 1)
        xs, ys, sizes = values(first, "x"), values(first, "y"), values(first, "color")
        inp.true("two sizes", all(s in (size, size + 1) for s in sizes))
        for m in (size, size + 1):
            seen = {}
            for i in range(n):
                window = tuple(bits[(i + j) % n] for j in range(m))
                seen[window] = seen.get(window, 0) + 1
            at = [i for i in range(len(xs)) if sizes[i] == m]
            check_tally(inp, "patterns of %d" % m, [xs[i] for i in at], [ys[i] for i in at], tally(list(seen.values())))
    elif test == "spectral":
        peaks = nist.squared_magnitudes(bits)
        xs, ys = values(first, "x"), values(first, "y")
        inp.same("frequencies", xs, list(range(n // 2)))
        inp.same("peaks", len(ys), len(peaks))
        for i, peak in enumerate(peaks):
            inp.close("peak %d" % i, ys[i] * ys[i], peak)
            inp.true("sign of peak %d" % i, ys[i] >= 0)
        for unit in drawn[1:]:
            for y in values(unit, "y"):
                inp.close("threshold", y, sqrt(log(1 / 0.05) * n))
    else:
        walk = [0]
        for b in bits[::-1] if kw.get("reverse") else bits:
            walk.append(walk[-1] + 2 * b - 1)
        xs, ys = values(first, "x"), values(first, "y")
        inp.same("parts", len(drawn), 1)
        inp.same("steps", xs, list(range(n + 1)))
        inp.same("walk", ys, walk)
