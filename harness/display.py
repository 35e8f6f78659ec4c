"""The displayed sequence."""
import pandas as pd

from coinflip._randtests.common import pprint as common
from coinflip.cli import pprint

from harness.common import sequence
from harness.gate import LABELS
from harness.gate import put

GAP = 8  # columns taken by the borders of a row


def plain(x):
    return x if isinstance(x, str) else x.plain


def reps(lo, hi):
    """characters of tails and heads"""
    a, b = str(lo)[:1], str(hi)[:1]
    if a == "" or b == "" or a == b:
        return "0", "1"
    return a, b


def joined(chars):
    out = ""
    for c in chars:
        out = out + c
    return out


def rows_of(group):
    return [plain(t) for t in group.renderables]


def sequence_rows(inp, n, ncols, pair="01", free=None, seed=1, container="series"):
    bits = sequence(inp, n, free, seed)
    lo, hi = sorted(LABELS[pair]) if pair != "01" else (0, 1)
    series = put([hi if b else lo for b in bits], container)
    check_rows(inp, bits, rows_of(pprint.pretty_sequence(series, ncols)), n, ncols, lo, hi)


def check_rows(inp, bits, rows, n, ncols, lo, hi):
    t, h = reps(lo, hi)
    inner = ncols - GAP
    total = (n + inner - 1) // inner
    expected = [joined([h if b else t for b in bits[i * inner : (i + 1) * inner]]) for i in range(total)]
    shown, omitted = [], None
    before = 0
    for r in rows:
        if r[:4] in ("  | ", " <  "):
            inp.true("no row wider than the terminal", len(r) <= ncols)
            shown.append(r[4:-4])
            inp.true("right border", r[-4:] in (" |  ", "  > "))
        elif "omitting" in r:
            inp.true("rows are left out once", omitted is None)
            words = r.split()
            omitted = int(words[words.index("rows..") - 1])
            before = len(shown)
    if omitted is None:
        inp.same("one character per element, in order", shown, expected)
        return
    after = len(shown) - before
    inp.true("rows are shown on both sides", before > 0 and after > 0)
    inp.same("number of rows left out", omitted, total - before - after)
    inp.same("rows before those left out", shown[:before], expected[:before])
    inp.same("rows after those left out", shown[before:], expected[total - after :])


def subsequence(inp, n, pair, container="tuple"):
    """also with only one of the values in the part shown"""
    bits = inp.bits(n)
    lo, hi = sorted(LABELS[pair])
    t, h = reps(lo, hi)
    text = common.pretty_subseq(put([hi if b else lo for b in bits], container), hi, lo)
    inp.same("one character per element, in order", plain(text), joined([h if b else t for b in bits]))


def different_ints(inp, lo, hi):
    """characters of any two integers"""
    a = inp.int("a", lo, hi)
    b = inp.int("b", lo, hi)
    inp.assume(a != b)
    tails, heads = (a, b) if a < b else (b, a)
    h, t = common.determine_rep(heads, tails)
    inp.true("different characters", h != t)
    inp.same("one character for heads", len(h), 1)
    inp.same("one character for tails", len(t), 1)
    u, g = reps(tails, heads)
    inp.same("character of heads", h, g)
    inp.same("character of tails", t, u)


def different_texts(inp, n, m, letters="01a "):
    """characters of any two texts of n and m letters"""
    a, b = "", ""
    for i in range(n):
        a = a + inp.pick("a%d_" % i, list(letters))
    for i in range(m):
        b = b + inp.pick("b%d_" % i, list(letters))
    inp.assume(a != b)
    tails, heads = (a, b) if a < b else (b, a)
    h, t = common.determine_rep(heads, tails)
    inp.true("different characters", h != t)
    inp.same("one character for heads", len(h), 1)
    inp.same("one character for tails", len(t), 1)
    u, g = reps(tails, heads)
    inp.same("character of heads", h, g)
    inp.same("character of tails", t, u)


class Printed:
    """collects what reaches the console"""

    def __init__(self):
        self.objects = []

    def __call__(self, *objects, **kwargs):
        for o in objects:
            self.objects.append(o)


def printed(inp, n, pair, then=None):
    """through print_series, after another sequence has been shown"""
    from coinflip.cli import console

    console.print = Printed()
    if then is not None:
        pprint.print_series(pd.Series(list(then)))
    out = Printed()
    console.print = out
    bits = sequence(inp, n)
    lo, hi = sorted(LABELS[pair]) if pair != "01" else (0, 1)
    pprint.print_series(pd.Series([hi if b else lo for b in bits]))
    groups = [o for o in out.objects if hasattr(o, "renderables")]
    inp.same("one sequence shown", len(groups), 1)
    check_rows(inp, bits, rows_of(groups[0]), n, 80, lo, hi)
