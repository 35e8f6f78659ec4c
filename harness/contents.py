"""What the results hold to show: classes with expected and actual numbers."""
from itertools import product

from spec import nist

LONGEST_CLASSES = {8: ["0-1", "2", "3", "4+"], 128: ["0-4", "5", "6", "7", "8", "9+"]}
RANK_SHARES = [0.1336, 0.5776, 0.2888]


def usual(test, n, kw):
    """the parameters of the short runs made here"""
    given = kw or {}
    if test == "frequency_within_block":
        size = given.get("blocksize") or 8
        return {"blocksize": size, "nblocks": n // size}
    if test == "longest_runs":
        size = nist.longest_blocksize(n)
        return {"blocksize": size, "nblocks": nist.LONGEST[size][0]}
    if test == "binary_matrix_rank":
        nrows, ncols = given.get("matrix_dimen") or (2, 2)
        return {"nrows": nrows, "ncols": ncols}
    if test in ("non_overlapping_template_matching", "overlapping_template_matching"):
        size = given["blocksize"]
        return {"template size": given["template_size"], "blocksize": size, "nblocks": n // size}
    if test == "maurers_universal":
        size, first = given["blocksize"], given["init_nblocks"]
        return {"blocksize": size, "init nblocks": first, "segment nblocks": n // size - first}
    if test in ("linear_complexity", "serial", "approximate_entropy"):
        return {"blocksize": given["blocksize"]}
    return {}


def classes(test, bits, kw):
    """label, expected and actual number of each class of a chi-square test"""
    n = len(bits)
    par = usual(test, n, kw)
    if test == "longest_runs":
        N, _, shares = nist.LONGEST[par["blocksize"]]
        labels = LONGEST_CLASSES[par["blocksize"]]
        actual = nist.longest_runs(bits)[2]
    elif test == "binary_matrix_rank":
        full = min(par["nrows"], par["ncols"])
        N = n // (par["nrows"] * par["ncols"])
        shares = RANK_SHARES
        labels = ["0" if full == 2 else "0-%d" % (full - 2), str(full - 1), str(full)]
        actual = nist.matrix(bits, par["nrows"], par["ncols"])[2]
    elif test == "overlapping_template_matching":
        most = kw["matches_ceil"]
        N = par["nblocks"]
        shares = nist.overlapping_probabilities(par["template size"], par["blocksize"], most)
        labels = [str(u) for u in range(most)] + ["%d+" % most]
        actual = nist.overlapping(bits, par["template size"], par["blocksize"], most)[2]
    elif test == "linear_complexity":
        N = n // par["blocksize"]
        shares = nist.LC_PROBABILITIES
        labels = [str(k) for k in range(-3, 4)]
        actual = nist.linear_complexity(bits, par["blocksize"])[2]
    else:
        return None
    return [(label, N * share, k) for label, share, k in zip(labels, shares, actual)]


def tally(values):
    """how many times each value occurs, least value first"""
    out = {}
    for v in values:
        out[v] = out.get(v, 0) + 1
    return sorted(out.items())


def templates(size):
    return list(product([0, 1], repeat=size))
