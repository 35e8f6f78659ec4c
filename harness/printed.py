"""Results as they are printed."""
from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError

from harness.common import sequence
from harness.contents import classes
from harness.contents import tally
from harness.contents import usual
from harness.display import plain
from harness.summary import texts
from spec import nist


def number(text):
    return float(text)


def shows(inp, label, text, value, unit):
    """the text is the value, rounded to this unit"""
    d = number(text) - value
    h = unit / 2 * (1 + 1e-6)
    inp.true(label, (d <= h) & (-h <= d))


def last_number(text):
    return plain(text).split(" ")[-1]


def cells(table):
    return [[plain(c) if hasattr(c, "plain") or isinstance(c, str) else c for c in column._cells] for column in table.columns]


def headers(table):
    return [plain(column.header) for column in table.columns]


def lists_of(items):
    """title -> [(name, text)] of the lists of named numbers"""
    out = {}
    for item in items:
        if not hasattr(item, "renderables"):
            continue
        lines = [plain(x) for x in item.renderables if isinstance(x, str) or hasattr(x, "plain")]
        if len(lines) != len(item.renderables):
            continue
        pairs = []
        for line in lines[1:]:
            parts = line.strip().split("  ")
            pairs.append((parts[0], parts[-1].strip()))
        out[lines[0]] = pairs
    return out


def tables_of(items):
    return [x for x in items if hasattr(x, "columns") and x.show_header]


def check_result(inp, pairs, statistic, p, name=""):
    inp.same("lines of the result" + name, len(pairs), 2)
    shows(inp, "statistic" + name, pairs[0][1], statistic, 0.1)
    inp.same("name of the p-value" + name, pairs[1][0], "p-value")
    shows(inp, "p-value" + name, pairs[1][1], p, 0.001)


def check_inputs(inp, lists, wanted):
    """the parameters listed are the ones used"""
    for title in ("test input", "test inputs"):
        for name, text in lists.get(title, []):
            if name in wanted:
                inp.same(name, number(text), wanted[name])
            else:
                inp.true("known parameter " + name, False)


def check_classes(inp, table, rows):
    names, expected, actual, diffs = cells(table)
    inp.same("columns", headers(table)[1:], ["expect", "actual", "diff"])
    inp.same("classes", names, [label for label, _, _ in rows])
    for i, (label, e, a) in enumerate(rows):
        shows(inp, "expected " + label, expected[i], e, 0.1)
        inp.same("actual " + label, number(actual[i]), a)
        shows(inp, "difference " + label, diffs[i], a - e, 0.1)


def run(inp, test, n, kw, free, seed):
    bits = sequence(inp, n, free, seed)
    try:
        return bits, getattr(_randtests, test)(bits, **(kw or {}))
    except TestError:
        inp.true("nothing to print", True)
        return bits, None


def start(inp, result):
    """everything printed, and the rest after the warning"""
    if not inp.is_symbolic():
        str(result)
    items = list(result.renderables)
    if result.failures:
        said = texts(items[0])
        for failure in result.failures:
            inp.true("warns of " + failure, any(failure in t for t in said))
        items = items[1:]
    return items


def single(inp, test, n, kw=None, free=None, seed=1):
    """a test with one result"""
    bits, r = run(inp, test, n, kw, free, seed)
    if r is None:
        return
    items = start(inp, r)
    lists, tables = lists_of(items), tables_of(items)
    check_result(inp, lists["result"], r.statistic, r.p)
    check_inputs(inp, lists, usual(test, n, kw))
    rows = classes(test, bits, kw)
    if rows is not None:
        inp.same("tables", len(tables), 1)
        check_classes(inp, tables[0], rows)
        if test == "linear_complexity":
            size = kw["blocksize"]
            mean = size / 2 + (9 + (-1) ** (size + 1)) / 36 - (size / 3 + 2 / 9) / 2 ** size
            shows(inp, "mean", last_number(tables[0].overflow_caption), mean, 0.1)
        elif test == "overlapping_template_matching":
            inp.true("template", "1" * kw["template_size"] in plain(tables[0].overflow_title).split(" "))
    elif test == "monobit":
        ones = sum(bits)
        inp.same("tables", len(tables), 1)
        values, counts = cells(tables[0])
        inp.same("rows", len(values), 2)
        inp.same("heads", sum(number(c) for v, c in zip(values, counts) if v == "1"), ones)
        inp.same("tails", sum(number(c) for v, c in zip(values, counts) if v == "0"), n - ones)
        inp.true("larger first", number(counts[0]) >= number(counts[1]))
    elif test == "spectral":
        below = nist.spectral(bits)[2]
        shown = dict(lists["npeaks above threshold"])
        inp.same("actual", number(shown["actual"]), below)
        shows(inp, "expected", shown["expected"], 0.95 * n / 2, 0.001)
        shows(inp, "diff", shown["diff"], below - 0.95 * n / 2, 0.001)


def feature_text(test, key):
    if test == "non_overlapping_template_matching":
        return "".join(str(b) for b in key)
    return str(key)


def several(inp, test, n, kw=None, free=None, seed=1):
    """a test with several results"""
    bits, r = run(inp, test, n, kw, free, seed)
    if r is None:
        return
    items = start(inp, r)
    lists = lists_of(items)
    check_inputs(inp, lists, usual(test, n, kw))
    if test == "serial":
        for name, (key, sub) in zip(("first result", "second result"), r.results.items()):
            check_result(inp, lists[name], sub.statistic, sub.p, " (%s)" % name)
        return
    grids = [x for x in items if hasattr(x, "columns") and not x.show_header]
    inp.same("grids", len(grids), 1)
    table = grids[0].columns[0]._cells[0]
    names, stats, ps = cells(table)
    keys = list(r.results)
    inp.same("rows", len(names), len(keys))
    least = 0
    best = r.results[keys[0]].p
    for i in range(1, len(keys)):
        p = r.results[keys[i]].p
        if p < best:
            best, least = p, i
    for i, key in enumerate(keys):
        sub = r.results[key]
        f = feature_text(test, key)
        inp.same("sub-result " + f, names[i], f + "*" if least == i else f)
        shows(inp, "statistic of " + f, stats[i], sub.statistic, 0.001)
        shows(inp, "p-value of " + f, ps[i], sub.p, 0.001)
    below = grids[0].columns[1]._cells[0].renderable.columns[1]._cells[0]
    title, _, detail = below.renderables
    inp.true("the marked one is detailed", plain(title).endswith(" " + [feature_text(test, k) for k in keys][least]))
    parts = list(detail.columns[0]._cells)
    pairs = lists_of(parts)["result"]
    check_result(inp, pairs, [r.results[k].statistic for k in keys][least], best, " detailed")
    if test == "non_overlapping_template_matching":
        shown = tables_of(parts)[0]
        counts = cells(shown)
        size, width = kw["blocksize"], kw["template_size"]
        caption = plain(shown.overflow_caption)
        shows(inp, "mean", [w for w in caption.split(" ") if w[0].isdigit()][0], (size - width + 1) / 2 ** width, 0.1)
        words = plain(shown.overflow_title).split(" ")
        inp.true("template", [feature_text(test, k) for k in keys][least] in words)
        matches = [nist.non_overlapping(bits, kw["template_size"], kw["blocksize"])[key][2] for key in keys][least]
        want = tally(matches)
        inp.same("numbers of matches", [(number(a), number(b)) for a, b in zip(*counts)], [(a, b) for a, b in want])
