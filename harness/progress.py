"""Progress reporting of the tests."""
from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError

from harness.common import sequence
from harness.tests import numbers


class Recorder:
    """what a progress display is told"""

    def __init__(self):
        self.announced = 0
        self.total = None
        self.steps = 0
        self.early = 0
        self.other = 0

    def update(self, task, *, total=None, completed=None, advance=None, **fields):
        if task != "the task":
            self.other += 1
        if total is not None:
            self.announced += 1
            self.total = total
        if completed is not None:
            self.steps = completed
        if advance is not None:
            if self.announced == 0:
                self.early += 1
            self.steps += advance

    def advance(self, task, advance=1):
        self.update(task, advance=advance)


def complete(inp, test, n, kw=None, free=None, seed=1):
    """one total, as many steps, and the same result"""
    bits = sequence(inp, n, free, seed)
    progress = Recorder()
    func = getattr(_randtests, test)
    kw = kw or {}
    try:
        with_display = func(bits, ctx=(progress, "the task"), **kw)
    except TestError:
        failed = False
        try:
            func(bits, **kw)
        except TestError:
            failed = True
        inp.true("refused without a display too", failed)
        return
    inp.same("totals announced", progress.announced, 1)
    inp.same("steps", progress.steps, progress.total)
    inp.same("steps before the total", progress.early, 0)
    inp.same("calls for another task", progress.other, 0)
    without = numbers(func(bits, **kw))
    shown = numbers(with_display)
    inp.same("number of results", len(shown), len(without))
    for (label, s, p), (_, s2, p2) in zip(shown, without):
        inp.close("statistic " + label, s, s2)
        inp.close("p " + label, p, p2)
