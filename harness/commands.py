"""The commands."""
import pandas as pd

from coinflip import _randtests
from coinflip import generators
from coinflip._randtests.common.exceptions import TestError
from coinflip.cli import commands
from coinflip.cli import console
from coinflip.cli import report

from harness.display import Printed
from harness.runall import KINDS
from harness.runall import NAMES
from harness.runall import Stub
from harness.runall import result
from harness.storage import equal
from harness.summary import inspect
from harness.summary import texts

nan = float("nan")


def stand_ins(inp, which, shift):
    """any subset of the tests in `which` fails"""
    calls = []
    stubs = {}
    for i, name in enumerate(NAMES):
        fails = inp.flag("fails_" + name) if i in which else False
        stubs[name] = Stub(name, fails, result(i), KINDS[(i + shift) % 4]("no result from " + name), calls)
    return stubs, calls


def replaced(stubs):
    kept = {name: getattr(_randtests, name) for name in NAMES}
    for name in NAMES:
        setattr(_randtests, name, stubs[name])
    return kept


def restore(kept):
    for name in NAMES:
        setattr(_randtests, name, kept[name])


def status(command, *args):
    """exit status of a command"""
    try:
        command(*args)
    except SystemExit as e:
        return 0 if e.code is None else e.code
    return 0


def run(inp, binary, content, which=(), shift=0, earlier=False, more=()):
    """the run command on any content of the file"""
    inp.opaque_text()
    stubs, calls = stand_ins(inp, which, shift)
    if binary:
        bits = inp.bits(8 * content)
        data = []
        for i in range(content):
            byte = 0
            for j in range(8):
                byte = byte * 2 + bits[8 * i + j]
            data.append(byte)
        values = list(bits)
        for byte in more:
            data.append(byte)
            for j in range(8):
                values.append(byte >> (7 - j) & 1)
        path = inp.file(data)
        bad = sum(values) == 0 or sum(values) == len(values)
    else:
        n, alphabet, ncols = content
        rows = [[inp.pick("c%d_%d_" % (i, j), alphabet) for j in range(ncols)] for i in range(n)]
        path = inp.table(rows)
        values = [row[0] for row in rows]
        distinct = 0
        for v in alphabet:
            if v == v and any(x == v for x in values):
                distinct = distinct + 1
        bad = ncols > 1 or distinct != 2 or any(x != x for x in values)
    where = inp.output()
    if earlier:
        report.store_results(pd.Series([1, 0]), {}, where)
    out = Printed()
    console.print = out
    kept = replaced(stubs)
    try:
        code = status(commands.run.callback, path, where, binary)
    finally:
        restore(kept)
    if bad:
        inp.same("exit status of refused data", code, 1)
        inp.same("no test sees refused data", len(calls), 0)
        if not earlier:
            inp.true("nothing is stored of refused data", not inp.written(where))
        else:
            inp.same("the results stored before are kept", list(report.load_results(where).series), [1, 0])
        inp.true("an error is shown", any("ERR!" in t for o in out.objects for t in texts(o)))
        return
    inp.same("exit status", code, 0)
    if not calls:
        inp.true("tests are looked up elsewhere", True)
        return
    inp.same("tests executed, in order", [c[0] for c in calls], NAMES)
    for name, s in calls:
        inp.same("sequence given to " + name, list(s), values)
    inp.true("something is stored", inp.written(where))
    loaded = report.load_results(where)
    inp.same("sequence stored", list(loaded.series), values)
    wanted = [name for name in NAMES if not stubs[name].fails]
    inp.same("results stored, in order", list(loaded.results), wanted)
    for name in wanted:
        equal(inp, name, stubs[name].result, loaded.results[name])
    inspect(inp, {name: None if stubs[name].fails else stubs[name].result for name in NAMES}, out)


def read(inp, which, n=4):
    """the read command on any subset of results"""
    inp.opaque_text()
    bits = inp.bits(n)
    inp.assume(sum(bits) > 0)
    inp.assume(sum(bits) < n)
    results = {}
    for i, name in enumerate(NAMES):
        if i not in which or inp.flag("has_" + name):
            results[name] = result(i)
    where = inp.output()
    report.store_results(pd.Series(bits), results, where)
    out = Printed()
    console.print = out
    code = status(commands.read.callback, where)
    inp.same("exit status", code, 0)
    shown = [o for o in out.objects if hasattr(o, "failures")]
    inp.same("results shown", len(shown), len(results))
    for name, o in zip(results, shown):
        equal(inp, name, results[name], o)
    inspect(inp, results, out)
    rows = [t for o in out.objects for t in texts(o) if t[:4] == "  | "]
    inp.same("sequence shown", rows[0][4:-4] if rows else None, "".join("1" if b else "0" for b in bits))


class Source:
    """generator of a given sequence"""

    def __init__(self, bits, asked):
        self.bits = bits
        self.asked = asked

    def __iter__(self):
        return self

    def __next__(self):
        self.asked.append(1)
        return self.bits[len(self.asked) - 1]


def example(inp, n, generator="Python", test=None, which=(), shift=0):
    """the example-run command"""
    inp.opaque_text()
    bits = inp.bits(n + 3)
    inp.assume(sum(bits[:n]) > 0)
    inp.assume(sum(bits[:n]) < n)
    stubs, calls = stand_ins(inp, which, shift)
    asked = []
    out = Printed()
    console.print = out
    kept = replaced(stubs)
    usual = {name: getattr(generators, name) for name in generators.__all__}
    for name in usual:
        wrong = [1 - b for b in bits]
        setattr(generators, name, lambda name=name: Source(bits if name == generator else wrong, asked))
    try:
        code = status(commands.example_run.callback, generator, n, test)
    finally:
        restore(kept)
        for name in usual:
            setattr(generators, name, usual[name])
    if not calls:
        inp.true("tests are looked up elsewhere", True)
        return
    wanted = NAMES if test is None else [test]
    inp.same("tests executed, in order", [c[0] for c in calls], wanted)
    for name, s in calls:
        inp.same("sequence given to " + name, list(s), bits[:n])
    failed = test is not None and stubs[test].fails
    inp.same("exit status", code, 1 if failed else 0)
    shown = [o for o in out.objects if hasattr(o, "failures")]
    inp.same("results shown", len(shown), len([name for name in wanted if not stubs[name].fails]))
    if test is None:
        inspect(inp, {name: None if stubs[name].fails else stubs[name].result for name in NAMES}, out)
