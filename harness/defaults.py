"""Parameters and recommendations of the tests."""
import math
import random
import re
import warnings

from coinflip import _randtests
from coinflip._randtests.common.exceptions import TestError

from harness.common import sequence
from harness.longseries import FirstUse
from harness.longseries import Long
from harness.longseries import caught_locals


# names of the parameters, as in the results
PARAMS = {
    "frequency_within_block": ["blocksize"],
    "longest_runs": ["blocksize", "nblocks"],
    "binary_matrix_rank": ["nrows", "ncols"],
    "non_overlapping_template_matching": ["template_size", "blocksize"],
    "overlapping_template_matching": ["template_size", "blocksize", "matches_ceil"],
    "maurers_universal": ["blocksize", "init_nblocks"],
    "linear_complexity": ["blocksize"],
    "serial": ["blocksize"],
    "approximate_entropy": ["blocksize"],
}

# longest sequences a test is run on in full to confirm what was seen
FULL = {
    "serial": 100000,
    "approximate_entropy": 200000,
    "non_overlapping_template_matching": 200000,
    "linear_complexity": 210000,
    "overlapping_template_matching": 400000,
    "maurers_universal": 2100000,
    "frequency_within_block": 10000000,
    "longest_runs": 10000000,
    "binary_matrix_rank": 3000000,
}
UNIVERSAL = [
    (387840, 6, 640),
    (904960, 7, 1280),
    (2068480, 8, 2560),
    (4654080, 9, 5120),
    (10342400, 10, 10240),
    (22753280, 11, 20480),
    (49643520, 12, 40960),
    (107560960, 13, 81920),
    (231669760, 14, 163840),
    (496435200, 15, 327680),
    (1059061760, 16, 655360),
]


def chosen(test, n, kw):
    """the parameters used for a sequence of length n"""
    out = {}
    if test == "frequency_within_block":
        size = kw.get("blocksize")
        if size is None:
            if n < 100:
                size = 8
            else:
                size = max(math.ceil(n / 100), 20)
                if n > 5000 and n // size >= 100:
                    size = n // 50
        out["blocksize"] = size
    elif test == "longest_runs":
        if n >= 750000:
            out["blocksize"], out["nblocks"] = 10000, 75
        elif n >= 6272:
            out["blocksize"], out["nblocks"] = 128, 49
        else:
            out["blocksize"], out["nblocks"] = 8, 16
    elif test == "binary_matrix_rank":
        dimen = kw.get("matrix_dimen")
        if dimen is not None:
            out["nrows"], out["ncols"] = dimen
        elif n // 1024 > 38:
            out["nrows"], out["ncols"] = 32, 32
        else:
            side = math.floor(math.sqrt(max(n // 38, 4)))
            out["nrows"], out["ncols"] = side, side
    elif test == "non_overlapping_template_matching":
        size = kw.get("blocksize")
        if size is None:
            size = min(max(math.ceil(n / 100), 6), n)
            size = size - size % 2
        width = kw.get("template_size")
        if width is None:
            width = max(min(size // 3, 9), 2)
        out["blocksize"], out["template_size"] = size, width
    elif test == "overlapping_template_matching":
        size = kw.get("blocksize")
        if size is None:
            size = math.floor(math.sqrt(n))
        width = kw.get("template_size")
        if width is None:
            width = min(max(math.floor(math.sqrt(size)), 2), 12)
        ceiling = kw.get("matches_ceil")
        out["blocksize"], out["template_size"], out["matches_ceil"] = size, width, 5 if ceiling is None else ceiling
    elif test == "maurers_universal":
        size, first = kw.get("blocksize"), kw.get("init_nblocks")
        if size is None or first is None:
            usual = None
            for at_least, a, b in UNIVERSAL:
                if n >= at_least:
                    usual = a, b
            if usual is None:
                a = min(max(math.ceil(math.log(n)), 2), 16)
                b = max(n // (a if size is None else size) // 100, 1)
                usual = a, b
            if size is None:
                size = usual[0]
            if first is None:
                first = usual[1]
        out["blocksize"], out["init_nblocks"] = size, first
    elif test == "linear_complexity":
        size = kw.get("blocksize")
        if size is None:
            for usual in [1000, 2500, 500, 5000]:
                if size is None and n // usual >= 200:
                    size = usual
            if size is None:
                size = max(math.floor(math.sqrt(n)), 2)
        out["blocksize"] = size
    elif test == "serial":
        size = kw.get("blocksize")
        out["blocksize"] = max(math.floor(math.log2(n)) - 3, 2) if size is None else size
    elif test == "approximate_entropy":
        size = kw.get("blocksize")
        out["blocksize"] = max(math.floor(math.log2(n)) - 6, 2) if size is None else size
    return out


def start(test, n, kw, ctx=None):
    """the test up to its first look at the data: (parameters, refused)"""
    try:
        getattr(_randtests, test)(Long(n), ctx, **kw)
    except FirstUse as e:
        seen = caught_locals(e, test)
        return {name: seen.get(name) for name in PARAMS.get(test, [])}, False
    except TestError:
        return {}, True
    return {}, False


def whole(test, n, kw, ctx=None):
    """the same from a complete run (native runs only)"""
    rnd = random.Random(1)
    bits = [0, 1] + [rnd.getrandbits(1) for _ in range(n - 2)]
    try:
        r = getattr(_randtests, test)(bits, ctx, **kw)
    except TestError:
        return {}, True, None
    return {name: getattr(r, name, None) for name in PARAMS.get(test, [])}, False, getattr(r, "failures", None)


def affordable(test, n):
    return n <= FULL.get(test, 1100000)


def pieces(cut, lo, hi):
    """lo..hi cut into intervals: by square roots, natural logarithms or at given points"""
    if cut == "root":
        at = [k * k for k in range(math.isqrt(lo) + 1, math.isqrt(hi) + 1)]
    elif cut == "log":
        at = [math.floor(math.exp(k)) + 1 for k in range(1, 22)] + [t[0] for t in UNIVERSAL]
    else:
        at = cut
    at = [lo] + sorted({a for a in at if lo < a <= hi}) + [hi + 1]
    return [(at[i], at[i + 1] - 1) for i in range(len(at) - 1)]


def length(inp, lo, hi, cut):
    """a length in lo..hi; cut: a fork for each of these pieces"""
    if not cut:
        return inp.int("n", lo, hi)
    a, b = inp.fork("piece_", pieces(cut, lo, hi))
    return inp.int("n%d" % a, a, b)


def explicit(inp, test, n, give):
    """keyword arguments: a fixed value, a list of them, or a range "lo..hi\""""
    kw = {}
    for name, values in give.items():
        if isinstance(values, list):
            kw[name] = inp.fork(name + "_", values)
        elif isinstance(values, str):
            least, most = [int(v) for v in values.split("..")]
            if name == "matrix_dimen":
                kw[name] = (inp.int("rows", least, most), inp.int("columns", least, most))
            else:
                kw[name] = inp.int(name, least, most)
        else:
            kw[name] = values
    if "blocksize" in kw:
        inp.assume(kw["blocksize"] <= n)
    if "blocksize" in kw and "template_size" in kw:
        inp.assume(kw["template_size"] <= kw["blocksize"])
    if "matrix_dimen" in kw:
        inp.assume(kw["matrix_dimen"][0] * kw["matrix_dimen"][1] <= n)
    return kw


def hopeless(test, n, p):
    """no block is left for the test"""
    return test == "maurers_universal" and (p["init_nblocks"] + 1) * p["blocksize"] > n


def choice_facts(test, n, kw, got, refused):
    want = chosen(test, n, kw)
    facts = [("refused", refused, hopeless(test, n, want))]
    for name in PARAMS[test]:
        if got.get(name) is not None:
            facts.append((name, got[name], want[name]))
    return facts, want


def choices(inp, test, lo, hi, cut=None, give=None):
    """omitted parameters take the prescribed values, the given ones are used"""
    inp.stop_at_loops(FirstUse())
    n = length(inp, lo, hi, cut)
    kw = explicit(inp, test, n, give or {})
    if inp.is_symbolic():
        got, refused = start(test, n, kw)
        facts, want = choice_facts(test, n, kw, got, refused)
    else:
        try:
            got, refused = start(test, n, kw)
            facts, want = choice_facts(test, n, kw, got, refused)
            doubt = any(a != b for _, a, b in facts)
        except Exception:
            if not affordable(test, n):
                return
            doubt = True
        if doubt and affordable(test, n):
            got, refused, _ = whole(test, n, kw)
            facts, want = choice_facts(test, n, kw, got, refused)
        elif doubt:
            facts = facts[1:]  # the test may refuse the sequence later
    for label, a, b in facts:
        inp.same(label, a, b)
    if not give:
        fits(inp, test, n, want)


def fits(inp, test, n, want):
    """the prescribed values are positive and fit the sequence"""
    for name, v in want.items():
        inp.true(name + " is positive", v >= 1)
    if test == "binary_matrix_rank":
        inp.true("a matrix fits", want["nrows"] * want["ncols"] <= n)
    elif test == "maurers_universal":
        inp.true("a segment follows", (want["init_nblocks"] + 1) * want["blocksize"] <= n)
    elif test == "longest_runs":
        inp.true("the blocks fit", want["nblocks"] * want["blocksize"] <= n)
    else:
        inp.true("a block fits", want["blocksize"] <= n)
        if "template_size" in want:
            inp.true("a template fits", want["template_size"] <= want["blocksize"])


# ------------------------------------------------------------------ recommendations
def near(a, b):
    """whether a is about b; None: hard to say"""
    d = abs(a - b)
    if d <= 1e-9 * abs(b):
        return True
    if d > 5 and d > 0.05 * abs(b):
        return False
    return None


def close(a, b):
    d = abs(a - b)
    if d <= 1e-9 * abs(b):
        return True
    if d > 0.05 * abs(b):
        return False
    return None


def recommendations(test, n, p):
    """recommendation -> whether it is met (None: a matter of opinion)"""
    if test in ("monobit", "runs", "cusum"):
        return {"n ≥ 100": n >= 100}
    if test == "spectral":
        return {"n ≥ 1000": n >= 1000}
    if test in ("random_excursions", "random_excursions_variant"):
        return {"n ≥ 1000000": n >= 1000000}
    if test == "longest_runs":
        return {"n ≥ 128": n >= 128}
    if test == "binary_matrix_rank":
        return {"n ≥ 152": n >= 152, "n ≥ 38 * blocksize": n >= 38 * (p["nrows"] * p["ncols"])}
    size = p["blocksize"]
    nblocks = n // size
    if test == "frequency_within_block":
        return {
            "n ≥ 100": n >= 100,
            "blocksize ≥ 20": size >= 20,
            "blocksize > 0.01 * n": 100 * size > n,
            "nblocks < 100": nblocks < 100,
        }
    if test == "non_overlapping_template_matching":
        return {
            "n ≥ 100": n >= 100,
            "template_size = 9 or 10": p["template_size"] == 9 or p["template_size"] == 10,
            "blocksize > 0.01 * n": 100 * size > n,
            "nblocks ≤ 100": nblocks <= 100,
            "nblocks = ⌊n / blocksize⌋": True,
        }
    if test == "linear_complexity":
        return {
            "n ≥ 1000000": n >= 1000000,
            "500 ≤ blocksize ≤ 5000": 500 <= size and size <= 5000,
            "nblocks ≥ 200": nblocks >= 200,
        }
    if test == "serial":
        return {"blocksize < ⌊log2(n) - 2⌋": size < math.floor(math.log2(n)) - 2}
    if test == "approximate_entropy":
        return {"blocksize < ⌊log2(n)⌋ - 5": size < math.floor(math.log2(n)) - 5}
    if test == "maurers_universal":
        return {
            "n ≥ 387840": n >= 387840,
            "6 ≤ blocksize ≤ 16": 6 <= size and size <= 16,
            "init_nblocks ≈ 10 * 2 ** blocksize": near(p["init_nblocks"], 10 * 2 ** size),
            "segment_nblocks ≈ ⌊n / blocksize⌋ - init_nblocks": True,
        }
    if test == "overlapping_template_matching":
        width, df = p["template_size"], p["matches_ceil"]
        lam = (size - width + 1) / 2 ** width
        smallest = None
        for prob in template_classes(size, width, df):
            if smallest is None or prob < smallest:
                smallest = prob
        return {
            "n ≥ 288": n >= 288,
            "n ≥ nblocks * blocksize": True,
            "min(expected_tallies) > df": smallest * nblocks > df,
            "λ ≈ 2": close(lam, 2),
            "len(template) ≈ log2(nblocks)": close(math.log2(nblocks), width),
            "df ≈ 2 * λ": close(df, 2 * lam),
        }
    return {}


def template_classes(size, width, ceiling):
    """probabilities of 0, 1, ... matches of the template of heads (SP800-22, 3.8)"""
    eta = (size - width + 1) / 2 ** width / 2
    out = [math.exp(-eta)]
    for u in range(1, ceiling):
        total = 0
        for l in range(1, u + 1):
            total = total + math.comb(u - 1, l - 1) * eta ** l / math.factorial(l)
        out.append(math.exp(-eta) / 2 ** u * total)
    rest = 1
    for prob in out:
        rest = rest - prob
    return out + [rest]


def named(text, message):
    """the message names this recommendation"""
    return re.search(r"(?<![\w*])" + re.escape(text) + r"(?![\w]| \*)", message) is not None


def warning_facts(test, n, kw, used, refused, log):
    """one warning names what is not met"""
    if refused:
        return []
    said = [message for category, message in log if issubclass(category, UserWarning)]
    facts = []
    any_failed = False
    unclear = False
    for text, met in recommendations(test, n, used).items():
        listed = False
        for message in said:
            if named(text, message):
                listed = True
        if met is None:
            unclear = True
            any_failed = any_failed or listed
        else:
            facts.append((text + " is listed", listed, not met))
            any_failed = any_failed or not met
    facts.append(("warnings", len(said), 1 if any_failed else 0))
    return facts


def warned(inp, test, lo, hi, cut=None, give=None, ctx=False):
    """the user warning names the unmet recommendations"""
    inp.stop_at_loops(FirstUse())
    inp.warnings()
    n = length(inp, lo, hi, cut)
    kw = explicit(inp, test, n, give or {})
    used = chosen(test, n, kw)
    display = (Silent(), 1) if ctx else None
    doubt = False
    try:
        got, refused = start(test, n, kw, display)
        log = inp.warned()
    except Exception:
        if inp.is_symbolic():
            raise
        if not affordable(test, n):
            return
        doubt = True
    if not doubt:
        facts = ctx_facts(log) if ctx else warning_facts(test, n, kw, used, refused, log)
        if not inp.is_symbolic():
            doubt = any(a != b for _, a, b in facts)
            if doubt and not affordable(test, n) and not log:
                return  # nothing was seen, the test may warn later
    if doubt and affordable(test, n):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            got, refused, failures = whole(test, n, kw, display)
        log = [(w.category, str(w.message)) for w in caught]
        facts = ctx_facts(log) if ctx else warning_facts(test, n, kw, used, refused, log)
    for label, a, b in facts:
        inp.same(label, a, b)


def ctx_facts(log):
    said = [message for category, message in log if issubclass(category, UserWarning)]
    return [("warnings", len(said), 0)]


class Silent:
    """a progress display"""

    def update(self, task, **fields):
        pass

    def advance(self, task, advance=1):
        pass


# ------------------------------------------------------------------ complete runs
def complete(inp, test, n, free=(0, 1), give=None, ctx=False, seed=1, what="both"):
    """results hold the parameters and the unmet recommendations"""
    bits = sequence(inp, n, free, seed)
    kw = explicit(inp, test, n, give or {})
    want = chosen(test, n, kw)
    inp.warnings()
    display = (Silent(), 1) if ctx else None
    try:
        r = getattr(_randtests, test)(bits, display, **kw)
    except TestError:
        log = inp.warned()
        inp.true("only refused when no block is left", hopeless(test, n, want))
        return
    log = inp.warned()
    if what != "failures":
        for name in PARAMS.get(test, []):
            if hasattr(r, name):
                inp.same(name, getattr(r, name), want[name])
    if what == "parameters":
        return
    for label, a, b in ctx_facts(log) if ctx else warning_facts(test, n, kw, want, False, log):
        inp.same(label, a, b)
    for text, met in recommendations(test, n, want).items():
        if met is not None:
            inp.same(text + " failed", text in r.failures, not met)
