"""p-values are probabilities and statistics finite."""
import math

from coinflip._randtests.common.exceptions import TestError

from harness.common import sequence
from harness.tests import numbers
from harness.tests import run

SLACK = 1e-9


def probability(inp, test, n, free=None, seed=1, kw=None):
    bits = sequence(inp, n, free, seed)
    try:
        r = run(test, bits, kw)
    except TestError:
        inp.true("an error of the library", True)
        return
    for label, s, p in numbers(r):
        inp.true("p-value is a number " + label, math.isfinite(p))
        inp.true("p-value not below 0 " + label, p >= -SLACK)
        inp.true("p-value not above 1 " + label, p <= 1 + SLACK)
        inp.true("statistic is finite " + label, math.isfinite(s))
