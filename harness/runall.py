"""Running all tests."""
import pandas as pd

from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError
from coinflip._randtests.common.exceptions import TestInputError
from coinflip._randtests.common.exceptions import TestNotImplementedError
from coinflip._randtests.common.result import MultiTestResult
from coinflip._randtests.common.result import TestResult
from coinflip.cli import console
from coinflip.cli import runner

from harness.common import sequence
from harness.display import Printed
from harness.summary import inspect
from harness.tests import numbers

NAMES = [
    "monobit", "frequency_within_block", "runs", "longest_runs", "binary_matrix_rank", "spectral", "non_overlapping_template_matching",
    "overlapping_template_matching", "maurers_universal", "linear_complexity", "serial", "approximate_entropy", "cusum", "random_excursions",
    "random_excursions_variant",
]


class Faulty(TestError):
    """an error of a test"""


KINDS = [TestInputError, TestNotImplementedError, Faulty, TestError]


class Stub:
    """takes the place of a test"""

    def __init__(self, name, fails, result, error, calls):
        self.name = name
        self.fails = fails
        self.result = result
        self.error = error
        self.calls = calls

    def __call__(self, series, *args, **kwargs):
        self.calls.append((self.name, series))
        if self.fails:
            raise self.error
        return self.result


def result(i):
    failures = ["n ≥ 100"] if i % 3 == 0 else []
    if i % 5 == 4:
        subs = {1: TestResult(heads=1, tails=0, failures=[], statistic=1.0, p=0.5)}
        return MultiTestResult(heads=1, tails=0, failures=failures, results=subs)
    return TestResult(heads=1, tails=0, failures=failures, statistic=float(i), p=i / 20)


def errors(inp, which, shift=0):
    """any subset of the tests in `which` fails"""
    inp.opaque_text()
    calls = []
    stubs = {}
    for i, name in enumerate(NAMES):
        fails = inp.flag("fails_" + name) if i in which else False
        error = KINDS[(i + shift) % 4]("no result from " + name)
        stubs[name] = Stub(name, fails, result(i), error, calls)
    kept = {name: getattr(_randtests, name) for name in NAMES}
    out = Printed()
    console.print = out
    bits = [0, 1, 1, 0]
    series = pd.Series(bits)
    for name in NAMES:
        setattr(_randtests, name, stubs[name])
    try:
        got = list(runner.run_all_tests(series))
    finally:
        for name in NAMES:
            setattr(_randtests, name, kept[name])
    if not calls:
        inp.true("tests are looked up elsewhere", True)
        return
    inp.same("tests executed, in order", [c[0] for c in calls], NAMES)
    for name, s in calls:
        inp.same("sequence given to " + name, list(s), bits)
    inp.same("names yielded, in order", [g[0] for g in got], NAMES)
    expected = {}
    for name, r, e in got:
        stub = stubs[name]
        if stub.fails:
            inp.true("error of " + name, e is stub.error)
            inp.true("no result of " + name, r is None)
            expected[name] = None
        else:
            inp.true("result of " + name, r is stub.result)
            inp.true("no error of " + name, e is None)
            expected[name] = stub.result
    inspect(inp, expected, out)


def outcome(func, *args, **kwargs):
    try:
        return numbers(func(*args, **kwargs)), None
    except TestError as e:
        return None, e


def alike(inp, name, got, wanted, error, werror):
    inp.same("refused: " + name, error is not None, werror is not None)
    if error is not None and werror is not None:
        inp.same("kind of refusal: " + name, type(error).__name__, type(werror).__name__)
    if got is not None and wanted is not None:
        inp.same("number of results: " + name, len(got), len(wanted))
        for (label, s, p), (_, s2, p2) in zip(got, wanted):
            inp.close(name + " statistic " + label, s, s2)
            inp.close(name + " p " + label, p, p2)


def together(inp, n, free=None, seed=1, before=None):
    """the results of the tests run together are those of the tests run alone"""
    inp.opaque_text()
    console.print = Printed()
    if before is not None:
        list(runner.run_all_tests(pd.Series([0, 1] + [1] * (before - 2))))
    bits = sequence(inp, n, free, seed)
    got = list(runner.run_all_tests(pd.Series(bits)))
    inp.same("names yielded, in order", [g[0] for g in got], NAMES)
    for name, r, e in got:
        inp.same("either a result or an error: " + name, (r is None) != (e is None), True)
        wanted, werror = outcome(getattr(_randtests, name), pd.Series(bits))
        alike(inp, name, None if r is None else numbers(r), wanted, e, werror)


def single(inp, name, n, kw=None, free=None, seed=1):
    """one test by name"""
    inp.opaque_text()
    console.print = Printed()
    bits = sequence(inp, n, free, seed)
    kw = kw or {}
    got, error = outcome(runner.run_test, pd.Series(bits), name, **kw)
    wanted, werror = outcome(getattr(_randtests, name), pd.Series(bits), **kw)
    alike(inp, name, got, wanted, error, werror)


def unknown(inp, name):
    console.print = Printed()
    refused = False
    try:
        runner.run_test(pd.Series([0, 1, 1]), name)
    except runner.TestNotFoundError:
        refused = True
    inp.true("unknown test refused", refused)
