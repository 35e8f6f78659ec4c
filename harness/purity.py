"""No mutation of the caller's data, no memory of earlier calls."""
import pandas as pd

from coinflip._randtests.common.exceptions import TestError

from harness import randtests as against
from harness.common import nonconstant
from harness.tests import numbers
from harness.tests import run

LABELS = {
    "bits": [0, 1],
    "bool": [False, True],
    "float": [0.0, 1.0],
    "12": [1, 2],
    "01s": ["0", "1"],
    "ab": ["a", "b"],
}


def draw(inp, n, name, seed=1):
    """n bits; long sequences have five symbolic ones"""
    bits = inp.bits(n, name) if n < 64 else inp.mixed(n, list(range(20, 25)), name, seed)
    nonconstant(inp, bits)
    return bits


def earlier(inp, test, n, kw, name, labels="bits"):
    """an earlier call with any sequence of n elements"""
    bits = draw(inp, n, name, 7)
    values = LABELS[labels]
    if labels == "bits":
        seq = bits
    else:
        seq = [values[1] if b == 1 else values[0] for b in bits]
    try:
        run(test, seq, kw)
    except TestError:
        pass


def history(inp, first, m, then, p, kw=None, labels="bits", times=1):
    """the result after earlier calls is still the one of the definitions"""
    for i in range(times):
        earlier(inp, first, m, kw, "acdefg"[i], labels)
    getattr(against, then)(inp, **p)


def repeat(inp, test, n, kw=None, between=None, m=None, bkw=None, labels="bits", blabels="bits"):
    """the same call again, another one in between: the same result"""
    bits = draw(inp, n, "b")
    values = LABELS[labels]
    seq = [values[1] if b == 1 else values[0] for b in bits]
    one = numbers(run(test, seq, kw))
    if between:
        earlier(inp, between, m, bkw, "a", blabels)
    two = numbers(run(test, seq, kw))
    inp.same("number of results", len(two), len(one))
    for (label, s, p), (_, s2, p2) in zip(one, two):
        inp.close("statistic " + label, s2, s)
        inp.close("p " + label, p2, p)


def unchanged(inp, test, n, kw=None, container="list", labels="bits", index=None):
    """the sequence handed in is as before"""
    bits = draw(inp, n, "b")
    values = LABELS[labels]
    seq = [values[1] if b == 1 else values[0] for b in bits]
    given = seq
    if container == "tuple":
        given = tuple(seq)
    elif container == "series":
        given = pd.Series(seq, index=index)
    before = list(seq)
    try:
        run(test, given, kw)
    except TestError:
        pass
    after = list(given)
    inp.same("length", len(after), n)
    inp.same("elements", after, before)
    if container == "series":
        inp.same("index", list(given.index), list(range(n)) if index is None else list(index))
