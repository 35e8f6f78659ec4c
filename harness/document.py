"""The report as a document."""
import os
import webbrowser

import pandas as pd
from jinja2 import DictLoader
from jinja2 import Environment

import coinflip
from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError
from coinflip.cli import commands
from coinflip.cli import console
from coinflip.cli import report

from harness.commands import status
from harness.common import sequence
from harness.display import Printed
from harness.printed import shows
from harness.runall import NAMES
from harness.runall import result
from harness.summary import texts

HEADING = "<h2>Frequency (Monobit) Test</h2>"


def between(text, before, after):
    """what stands between these two, at the first place"""
    i = text.index(before) + len(before)
    rest = text[i:]
    return rest[: rest.index(after)]


def written(inp, results, series, command=False):
    console.print = out = Printed()
    path = inp.output()
    if command:
        where = inp.output()
        report.store_results(series, results, where)
        opened = []
        usual = webbrowser.open
        webbrowser.open = lambda url, *args, **kw: opened.append(url)
        try:
            inp.same("exit status", status(commands.report.callback, where, path), 0)
        finally:
            webbrowser.open = usual
        inp.true("the document is shown", all(url.endswith(os.path.basename(path)) for url in opened))
        inp.same("sequence still stored", list(report.load_results(where).series), list(series))
    else:
        report.write_report_doc(report.Report(series, results), path)
    inp.true("something is written", inp.written(path))
    with open(path) as f:
        return f.read(), out


def monobit(inp, tests, n, free=None, seed=1, command=False):
    """the section of the monobit test"""
    bits = sequence(inp, n, free, seed)
    results = {}
    for test in tests:
        try:
            results[test] = getattr(_randtests, test)(pd.Series(bits))
        except TestError:
            continue
    html, out = written(inp, results, pd.Series(bits), command)
    inp.true("a document", html.startswith("<!DOCTYPE html>") and html.rstrip().endswith("</html>"))
    missing = [t for o in out.objects for t in texts(o) if "not found" in t]
    inp.same("warnings", len(missing), len([test for test in results if test != "monobit"]))
    for test in results:
        if test != "monobit":
            inp.true("warns of " + test, any("/%s.html" % test in t for t in missing))
    if "monobit" not in results:
        inp.true("no section of the monobit test", HEADING not in html)
        return
    inp.same("one section of the monobit test", html.count(HEADING), 1)
    ones = sum(bits)
    r = results["monobit"]
    first, second = between(html, "occurences for the ", " values are found").split(" and ")
    inp.same("more frequent value", first, "1" if ones + ones >= n else "0")
    inp.same("less frequent value", second, "0" if ones + ones >= n else "1")
    apart = ones + ones - n
    apart = apart if apart >= 0 else -apart
    inp.same("difference", int(between(html, "</i> a difference of ", " between")), apart)
    inp.same("difference again", int(between(html, "compare the difference of ", " with")), apart)
    inp.same("length", int(between(html, "of the sequences length, ", ". This")), n)
    shows(inp, "statistic", between(html, "reference statistic of ", ".</p>"), r.statistic, 0.01)
    shows(inp, "p-value", between(html, "p-value of ", ". The lower"), r.p, 0.001)


def sections(inp, have, which):
    """any subset `which` of the results, any subset `have` of the templates"""
    if not hasattr(report, "templates_env"):
        inp.true("templates are looked up elsewhere", True)
        return
    results = {}
    for i, name in enumerate(NAMES):
        if i in which and inp.flag("result_" + name):
            results[name] = result(i)
    with open(os.path.join(os.path.dirname(coinflip.__file__), "templates", "index.html")) as f:
        pages = {"index.html": f.read()}
    for i, name in enumerate(NAMES):
        if i in have and inp.flag("template_" + name):
            pages["randtests/%s.html" % name] = "¤%s {{ result.failures | length }}¤" % name
    kept = report.templates_env
    report.templates_env = Environment(loader=DictLoader(pages))
    try:
        html, out = written(inp, results, pd.Series([0, 1]))
    finally:
        report.templates_env = kept
    wanted = []
    for name in results:
        if "randtests/%s.html" % name in pages:
            wanted.append("%s %d" % (name, len(results[name].failures)))
    inp.same("a section for every result with a template, in order", html.split("¤")[1::2], wanted)
    missing = [t for o in out.objects for t in texts(o) if "not found" in t]
    inp.same("warnings", len(missing), len([name for name in results if "randtests/%s.html" % name not in pages]))
