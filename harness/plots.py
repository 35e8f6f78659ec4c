"""Charts of the results."""
from math import erfc
from math import sqrt

from scipy.special import gammaincc
from scipy.stats import chi2
from scipy.stats import halfnorm

from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError

from harness.common import sequence



def data_of(chart):
    return [part.data for part in chart.layer]


def refdist(inp, test, n, dof=None, kw=None, free=None, seed=1):
    """the tail shaded in the chart of the reference distribution is the p-value"""
    bits = sequence(inp, n, free, seed)
    try:
        result = getattr(_randtests, test)(bits, **(kw or {}))
    except TestError:
        inp.true("nothing to plot", True)
        return
    layers = data_of(result.plot_refdist())
    inp.same("layers", len(layers), 2)
    whole, tail = layers
    xs, ys = list(whole["x"]), list(whole["y"])
    us, vs = list(tail["x"]), list(tail["y"])
    statistic = us[0]
    inp.true("the distribution is drawn from zero", xs[0] == 0)
    inp.true("the tail is drawn to the end", us[-1] == xs[-1])
    inp.true("the tail starts within the chart", statistic <= us[-1] + 1e-9)
    if dof is None:
        inp.close("upper tail", erfc(statistic / sqrt(2)), result.p)
    else:
        inp.close("upper tail", gammaincc(dof / 2, statistic / 2), result.p)
    inp.same("points", len(xs), len(us))
    for i in range(0, len(xs), 16):
        for name, x, y in (("distribution", xs[i], ys[i]), ("tail", us[i], vs[i])):
            inp.close("density of the " + name, y, halfnorm.pdf(x) if dof is None else chi2.pdf(x, dof))
