"""Which sequences are accepted; independence of labels and containers."""
import math

import numpy as np
import pandas as pd

from coinflip._randtests.common.exceptions import NonBinarySequenceError
from coinflip._randtests.common.exceptions import TestError
from coinflip._randtests.common.exceptions import TestInputError

from harness.common import sequence
from harness.tests import MIN
from harness.tests import numbers
from harness.tests import run

NAN = math.nan
ALPHABETS = {
    "012": [0, 1, 2],
    "0123": [0, 1, 2, 3],
    "01none": [0, 1, None],
    "01nan": [0, 1, NAN],
    "0nan": [0, NAN],
    "012nan": [0, 1, 2, NAN],
    "abc": ["a", "b", "c"],
    "abnone": ["a", "b", None],
    "floats": [0.5, 1.5, -2.0],
    "bool": [False, True, None],
    "one": [7],
}


def missing(v):
    return v is None or (isinstance(v, float) and v != v)


def accepts(inp, test, n, alphabet, container="list"):
    """any sequence over the alphabet: accepted or refused as defined"""
    values = ALPHABETS[alphabet]
    pos = [inp.pick("e%d_" % i, list(range(len(values)))) for i in range(n)]
    elems = [values[i] for i in pos]
    present = []
    for k in range(len(values)):
        here = False
        for i in pos:
            if i == k:
                here = True
        present.append(here)
    distinct = 0
    holes = False
    for k in range(len(values)):
        if missing(values[k]):
            if present[k]:
                holes = True
        elif present[k]:
            distinct = distinct + 1
    good = (not holes) and distinct == 2 and n >= MIN[test]
    if container == "tuple":
        elems = tuple(elems)
    elif container == "series":
        elems = pd.Series(elems)
    try:
        r = run(test, elems)
    except TestInputError as e:
        if test == "spectral" and n % 2 == 1 and good:
            return  # an odd sequence loses its last element
        inp.true("only sequences the test is not defined on are refused", not good)
        return
    except TestError:
        inp.true("only accepted sequences reach the test", good)
        return
    inp.true("only sequences the test is defined on are accepted", good)
    inp.true("has a p-value", len(numbers(r)) >= 1)


def no_crash(inp, test, n, free=None, seed=1):
    """an accepted sequence gives a result or an error of the library"""
    bits = sequence(inp, n, free, seed)
    try:
        r = run(test, bits)
    except TestError:
        inp.true("an error of the library", True)
        return
    inp.true("a result", len(numbers(r)) >= 1)


def constant(inp, test, n):
    """sequences of one value, whatever it is"""
    v = inp.int("v", -5, 5)
    try:
        run(test, [v] * n)
    except NonBinarySequenceError:
        inp.true("refused as not binary", True)
        return
    inp.fail("sequence of one value accepted")


# ------------------------------------------------------------------ labels and containers
LABELS = {
    "12": (1, 2),
    "neg": (-1, 1),
    "swap": (0, -1),
    "big": (10 ** 6, 10 ** 6 + 1),
    "float": (0.5, 2.5),
    "str": ("heads", "tails"),
    "ab": ("a", "b"),
    "bool": (False, True),
    "digits": ("10", "9"),
    "empty": ("", "x"),
    "910": (9, 10),
    "negative": (-2, -1),
    "case": ("B", "a"),
    "mixed": (True, 2.5),
}


def put(elems, container):
    if container == "list":
        return list(elems)
    if container == "tuple":
        return tuple(elems)
    if container == "series":
        return pd.Series(list(elems))
    n = len(elems)
    if container == "reversed index":
        return pd.Series(list(elems), index=list(range(n - 1, -1, -1)))
    if container == "offset index":
        return pd.Series(list(elems), index=list(range(5, n + 5)))
    if container == "equal index":
        return pd.Series(list(elems), index=[0] * n)
    if container == "string index":
        return pd.Series(list(elems), index=["i%d" % i for i in range(n)])
    raise AssertionError(container)


def compare(inp, a, b):
    inp.same("same sub-results", len(b), len(a))
    for i in range(len(a)):
        inp.close("statistic %d" % i, b[i][1], a[i][1])
        inp.close("p %d" % i, b[i][2], a[i][2])


def outcome(test, seq, kw):
    """(result, None) or (None, kind of the library's error)"""
    try:
        return run(test, seq, kw), None
    except TestError as e:
        return None, type(e).__name__


def labels(inp, test, n, pair, container="list", free=None, seed=1, kw=None):
    """same numbers for other labels; the larger label is heads"""
    bits = sequence(inp, n, free, seed)
    lab = LABELS[pair]
    lo, hi = min(lab), max(lab)
    other = [hi if b else lo for b in bits]
    r, err = outcome(test, list(bits), kw)
    s, serr = outcome(test, put(other, container), kw)
    inp.same("same outcome", serr, err)
    if err is None and serr is None:
        inp.same("heads", s.heads, hi)
        inp.same("tails", s.tails, lo)
        compare(inp, numbers(r), numbers(s))


def containers(inp, test, n, container, free=None, seed=1, kw=None):
    bits = sequence(inp, n, free, seed)
    r, err = outcome(test, list(bits), kw)
    s, serr = outcome(test, put(bits, container), kw)
    inp.same("same outcome", serr, err)
    if err is None and serr is None:
        compare(inp, numbers(r), numbers(s))
