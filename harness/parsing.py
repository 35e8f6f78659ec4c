"""Reading files."""
from coinflip._randtests.common.exceptions import NonBinarySequenceError
from coinflip.cli import parsing

nan = float("nan")

ALPHABETS = {
    "bits": [0, 1],
    "bits, missing": [0, 1, nan],
    "three": [0, 1, 2],
    "three, missing": [5, 9, 10, nan],
    "one": [7],
    "one, missing": [7, nan],
    "letters": ["a", "b"],
    "letters, missing": ["a", "b", nan],
    "words": ["heads", "tails", "edge"],
    "floats": [0.5, -1.5, 2.0],
    "negative": [-1, 1],
    "similar": ["a", "A", "b"],
    "booleans": [True, False],
    "booleans, missing": [True, False, nan],
}


def binary(inp, n, fixed=(), more=0):
    """any bytes"""
    fixed = list(fixed) + [i * 11 % 256 for i in range(more)]
    bits = inp.bits(8 * n)
    data = []
    for i in range(n):
        byte = 0
        for j in range(8):
            byte = byte * 2 + bits[8 * i + j]
        data.append(byte)
    expected = list(bits)
    for byte in fixed:
        data.append(byte)
        for j in range(8):
            expected.append(byte >> (7 - j) & 1)
    path = inp.file(data)
    refused = False
    series = None
    try:
        series = parsing.parse_binary(path)
    except NonBinarySequenceError:
        refused = True
    ones = 0
    for b in expected:
        ones = ones + b
    constant = ones == 0 or ones == len(expected)
    inp.same("refused exactly when not two-valued", refused, constant)
    if not refused:
        inp.same("eight elements per byte", len(series), len(expected))
        inp.same("elements", [int(b) for b in series], expected)


def text(inp, n, alphabet, ncols=1):
    """any table of these values"""
    values = ALPHABETS[alphabet]
    rows = [[inp.pick("c%d_%d_" % (i, j), values) for j in range(ncols)] for i in range(n)]
    path = inp.table(rows)
    outcome = "accepted"
    series = None
    try:
        series = parsing.parse_text(path)
    except parsing.DataParsingError:
        outcome = "parsing error"
    except NonBinarySequenceError:
        outcome = "non-binary error"
    if ncols > 1:
        inp.same("outcome", outcome, "parsing error")
        return
    column = [r[0] for r in rows]
    missing = False
    for x in column:
        if x != x:
            missing = True
    distinct = 0
    for v in values:
        if v == v:
            found = False
            for x in column:
                if x == v:
                    found = True
            if found:
                distinct = distinct + 1
    fine = distinct == 2 and not missing
    inp.same("outcome", outcome, "accepted" if fine else "non-binary error")
    if outcome == "accepted":
        inp.same("values in order", list(series), column)
