"""The table of verdicts."""
from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError
from coinflip._randtests.common.result import MultiTestResult
from coinflip._randtests.common.result import TestResult
from coinflip.cli import console
from coinflip.cli import runner

from harness.common import sequence
from harness.display import Printed
from harness.display import plain

LEVEL = 0.01


def single(p):
    return TestResult(heads=1, tails=0, failures=[], statistic=1.5, p=p)


def several(p, q):
    return MultiTestResult(heads=1, tails=0, failures=["n ≥ 100"], results={1: single(p), 2: single(q)})


def shown(results, printer=None):
    console.print = Printed()
    out = console.print
    (printer or runner.print_results_summary)(results)
    return out


def verdict_table(out):
    """the table of verdicts and everything else"""
    tables = [o for o in out.objects if hasattr(o, "columns") and len(o.columns) == 3]
    others = [o for o in out.objects if not (hasattr(o, "columns") and len(o.columns) == 3)]
    return tables, others


def texts(x):
    """every text within something displayed"""
    if isinstance(x, str):
        return [x]
    if hasattr(x, "failures"):
        return []
    if hasattr(x, "plain"):
        return [x.plain]
    if hasattr(x, "columns"):
        return [t for column in x.columns for cell in column._cells for t in texts(cell)]
    if hasattr(x, "renderable"):
        return texts(x.renderable)
    if hasattr(x, "renderables"):
        return [t for y in x.renderables for t in texts(y)]
    return []


def check(inp, results, printer=None):
    """results: name -> result or None"""
    inspect(inp, results, shown({k: v for k, v in results.items()}, printer))


def inspect(inp, results, out):
    tables, others = verdict_table(out)
    inp.same("one table", len(tables), 1)
    names, values, verdicts = [[plain(c) for c in column._cells] for column in tables[0].columns]
    rows = [k for k in results if not isinstance(results[k], MultiTestResult)]
    inp.same("a row per test with one result, in order", names, [runner.f_randtest_names[k] for k in rows])
    for k, verdict, value in zip(rows, verdicts, values):
        r = results[k]
        if r is None:
            inp.same("error is shown as not available", verdict, "N/A")
        else:
            p = r.p
            inp.same("verdict", verdict, "PASS" if p >= LEVEL else "FAIL")
    lines = [line.strip(" •-*") for o in others for t in texts(o) for line in t.split("\n")]
    for k in results:
        inp.same("listed as not summarisable: " + k, runner.f_randtest_names[k] in lines, isinstance(results[k], MultiTestResult))


def dyadic(inp, name, lo, hi):
    """doubles that are no ties when rounded"""
    return (2 * inp.int(name, int(lo * 2 ** 20), int(hi * 2 ** 20) - 1) + 1) / 2 ** 21


def mixture(inp, kinds):
    """s(ingle), d(yadic), e(rror), m(ulti), ? any of these"""
    results = {}
    for i, (name, kind) in enumerate(zip(_randtests.__all__, kinds)):
        if kind == "?":
            kind = inp.fork("k%d_" % i, ["s", "e", "m"])
        p = inp.real("p%d" % i, 0, 1)
        if kind == "s":
            results[name] = single(p)
        elif kind == "d":
            results[name] = single(dyadic(inp, "k%d" % i, 0, 1))
        elif kind == "m":
            results[name] = several(p, inp.real("q%d" % i, 0, 1))
        elif kind == "e":
            results[name] = None
    return results


def verdicts(inp, kinds, reread=False):
    """any p-values"""
    inp.opaque_text()
    check(inp, mixture(inp, kinds), runner.print_results if reread else None)


def shown_value(inp, lo, hi):
    """the value displayed beside the verdict"""
    p = dyadic(inp, "k", lo, hi)
    results = {"runs": None, "serial": single(p), "cusum": single(0.25)}
    check(inp, results)
    tables, _ = verdict_table(shown(results))
    values = tables[0].columns[1]._cells
    text = str(round(p, 3))
    inp.same("value displayed", plain(values[1]), text + "0" * (5 - len(text)))
    inp.same("value of another test", plain(values[2]), "0.250")


def of_tests(inp, names, n, kw=None):
    """results of the tests themselves"""
    inp.opaque_text()
    bits = sequence(inp, n)
    results = {}
    for name in names:
        try:
            results[name] = getattr(_randtests, name)(bits, **(kw or {}).get(name, {}))
        except TestError:
            results[name] = None
    check(inp, results)
