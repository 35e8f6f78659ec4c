"""All randomness tests behind one interface."""
from coinflip import randtests
from coinflip._randtests.common.exceptions import TestError

# name -> shortest sequence it is defined on
MIN = {
    "monobit": 2,
    "frequency_within_block": 8,
    "runs": 2,
    "longest_runs": 2,
    "binary_matrix_rank": 4,
    "spectral": 2,
    "non_overlapping_template_matching": 2,
    "overlapping_template_matching": 4,
    "maurers_universal": 4,
    "linear_complexity": 2,
    "serial": 2,
    "approximate_entropy": 2,
    "cusum": 2,
    "random_excursions": 2,
    "random_excursions_variant": 2,
}


def run(test, sequence, kw=None):
    return getattr(randtests, test)(sequence, **(kw or {}))


def numbers(r):
    """every (label, statistic, p-value) of a result"""
    if hasattr(r, "results"):
        return [("%s" % (k,), s.statistic, s.p) for k, s in r.results.items()]
    return [("", r.statistic, r.p)]
