"""Storing and loading results."""
import numpy as np
import pandas as pd

from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError
from coinflip.cli import report

from harness.common import sequence


def equal(inp, label, a, b):
    """b is a over again"""
    if hasattr(a, "__dataclass_fields__"):
        inp.true("kind of " + label, type(a) is type(b))
        for name in a.__dataclass_fields__:
            equal(inp, label + "." + name, getattr(a, name), getattr(b, name, None))
    elif isinstance(a, pd.Series):
        inp.true("kind of " + label, isinstance(b, pd.Series))
        inp.same(label, list(a), list(b))
        inp.same("index of " + label, list(a.index), list(b.index))
    elif hasattr(a, "keys"):
        inp.true("kind of " + label, hasattr(b, "keys"))
        keys = list(a.keys())
        inp.same("number of keys of " + label, len(list(b.keys())), len(keys))
        for key in keys:
            inp.true("%s in %s" % (key, label), key in b)
            equal(inp, "%s[%s]" % (label, key), a[key], b[key])
    elif isinstance(a, (list, tuple)) or hasattr(a, "insert"):
        inp.true("kind of " + label, type(a) is type(b))
        inp.same("length of " + label, len(b), len(a))
        for i in range(len(a)):
            equal(inp, "%s[%d]" % (label, i), a[i], b[i])
    elif isinstance(a, np.ndarray):
        inp.same(label, list(a), list(b))
    else:
        inp.same(label, b, a)


def stored(inp, tests, n, kw=None, free=None, seed=1, earlier=None):
    """store, load, compare"""
    bits = sequence(inp, n, free, seed)
    series = pd.Series(bits)
    results = {}
    for test in tests:
        try:
            results[test] = getattr(_randtests, test)(pd.Series(bits), **(kw or {}))
        except TestError:
            continue
    path = inp.output()
    if earlier is not None:  # a file of earlier results is replaced
        report.store_results(pd.Series([1, 0, 1]), {t: getattr(_randtests, t)(pd.Series([1, 0, 1, 1, 0])) for t in earlier}, path)
    report.store_results(series, results, path)
    inp.true("something is stored", inp.written(path))
    loaded = report.load_results(path)
    inp.same("sequence", list(loaded.series), bits)
    inp.same("names, in order", list(loaded.results), list(results))
    for test in results:
        equal(inp, test, results[test], loaded.results[test])
