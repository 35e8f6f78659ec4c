"""Configurations of every check, smallest first."""


def c(h, t=60, fork=False, lru=False, wit=6, max_paths=None, **p):
    d = {"h": "harness." + h, "p": p, "t": t, "wit": wit}
    if max_paths:
        d["max_paths"] = max_paths
    if fork:
        d["fork"] = True
    if lru:
        d["lru"] = True
    return d


CHECKS = {}


R = "randtests:"
ALL = "every binary sequence of the given length (both values present); 'free' lists the symbolic positions when the others are fixed pseudo-random bits"

CHECKS["C01"] = dict(
    quick=[c(R + "monobit", n=n) for n in (64, 33, 16, 9, 8, 5, 4, 3, 2)],
    thorough=[c(R + "monobit", t=900, n=n) for n in (100, 128, 200, 256, 97)],
    bounds="n in {2,3,4,5,8,9,16,33,64} (thorough: up to 256), " + ALL,
    outside="longer sequences",
)
CHECKS["C02"] = dict(
    quick=[c(R + "frequency_within_block", n=n, blocksize=M) for n, M in ((24, 7), (30, 5), (16, 4), (16, 8), (11, 5), (8, 3), (8, 8), (9, 2), (8, 1), (12, 1))],
    thorough=[c(R + "frequency_within_block", t=600, n=n, blocksize=M) for n, M in ((40, 8), (48, 16), (64, 20), (33, 10), (100, 25), (60, 7))],
    bounds="(n, blocksize) in (24,7) (30,5) (16,4) (16,8) (11,5) (8,3) (8,8) (9,2) (8,1) (12,1); thorough up to (100,25); " + ALL,
    outside="longer sequences, other block sizes",
)
CHECKS["C03"] = dict(
    quick=[c(R + "runs", n=n) for n in (24, 16, 13, 10, 8, 6, 5, 4, 3, 2)],
    thorough=[c(R + "runs", t=900, n=n) for n in (32, 40, 48, 64)],
    bounds="n in {2,3,4,5,6,8,10,13,16,24} (thorough: up to 64), " + ALL,
    outside="longer sequences",
)
CHECKS["C04"] = dict(
    quick=[
        c(R + "longest_runs", n=6272, free=list(range(120, 140)), seed=3),
        c(R + "longest_runs", n=128, free=list(range(0, 32))),
        c(R + "longest_runs", n=128, free=list(range(40, 62)), seed=2),
        c(R + "longest_runs", n=135, free=list(range(110, 135)), seed=5),
        c(R + "longest_runs", n=6271, free=list(range(100, 116)), seed=4),
        c(R + "longest_runs", n=127),
        c(R + "longest_runs", n=2),
    ],
    thorough=[
        c(R + "longest_runs", t=1200, n=128),
        c(R + "longest_runs", t=900, n=200, free=list(range(0, 128, 2)), seed=7),
        c(R + "longest_runs", t=900, n=6272, free=list(range(0, 6272, 128)), seed=8),
        c(R + "longest_runs", t=900, n=6300, free=list(range(6240, 6300)), seed=8),
    ],
    bounds="n=2 and n=127 refused; n in {128,135,6271,6272} with 16-32 symbolic bits and the rest fixed; thorough: all 128 bits symbolic at n=128",
    outside="block size 10000 (n >= 750000); all bits symbolic beyond n=128",
)
CHECKS["C05"] = dict(
    quick=[c(R + "matrix", n=n, nrows=a, ncols=b) for n, a, b in ((18, 3, 3), (20, 3, 3), (16, 2, 2), (18, 2, 3), (18, 3, 2), (16, 4, 2), (16, 4, 4), (9, 2, 2), (8, 1, 4), (6, 1, 1))],
    thorough=[c(R + "matrix", t=900, n=n, nrows=a, ncols=b) for n, a, b in ((36, 3, 3), (24, 3, 4), (24, 4, 3), (32, 4, 4), (40, 4, 5), (40, 2, 2), (25, 5, 5))],
    bounds="(n, rows, columns) as listed in the configurations, up to 4x4 matrices (thorough: 5x5, 4x5 x2); " + ALL,
    outside="larger matrices (32x32)",
)
CHECKS["C06"] = dict(
    quick=[c(R + "spectral", n=n) for n in (8, 9, 7, 6, 5, 4, 3, 2)],
    thorough=[c(R + "spectral", t=1500, n=n) for n in (10, 11, 12)] + [c(R + "spectral", t=900, n=n, free=list(range(8)), seed=n) for n in (16, 20, 31, 64, 100)],
    bounds="n in 2..9 (thorough: 10..12 and up to 100 with 8 symbolic bits), " + ALL,
    outside="longer sequences; inputs whose peak equals the threshold to rounding",
)
CHECKS["C07"] = dict(
    quick=[c(R + "non_overlapping", n=n, template_size=m, blocksize=M) for n, m, M in ((16, 2, 8), (12, 3, 6), (12, 2, 5), (12, 3, 12), (9, 2, 4), (8, 2, 4), (8, 1, 3), (10, 4, 5), (8, 3, 2))]
    + [c(R + "non_overlapping", n=40, template_size=3, blocksize=20, free=list(range(4, 14)))],
    thorough=[c(R + "non_overlapping", t=900, n=n, template_size=m, blocksize=M) for n, m, M in ((20, 2, 10), (24, 3, 8), (20, 3, 10), (15, 4, 15), (24, 2, 6))]
    + [c(R + "non_overlapping", t=900, n=100, template_size=4, blocksize=50, free=list(range(20, 36)))],
    bounds="(n, template size, block size) as listed, up to n=16 all symbolic (thorough: 24) and n=40 (100) with 10 (16) symbolic bits; every template; " + ALL,
    outside="longer sequences and templates",
)
CHECKS["C08"] = dict(
    quick=[c(R + "overlapping", n=n, template_size=m, blocksize=M, matches_ceil=k) for n, m, M, k in ((24, 3, 8, 3), (20, 2, 10, 5), (16, 2, 5, 2), (16, 2, 4, 5), (12, 1, 4, 2), (9, 2, 4, 1), (12, 3, 12, 4))]
    + [
        c(R + "overlapping", n=60, template_size=3, blocksize=20, matches_ceil=5, free=list(range(10, 30))),
        c(R + "overlapping", n=24, template_size=1, blocksize=12, matches_ceil=7),
        c(R + "overlapping", n=24, template_size=2, blocksize=12, matches_ceil=9),
        c(R + "overlapping", n=100, template_size=7, blocksize=50, matches_ceil=5, free=list(range(20, 40)), seed=2),
        c(R + "overlapping", n=120, template_size=10, blocksize=40, matches_ceil=3, free=list(range(40, 58)), seed=4),
    ],
    thorough=[c(R + "overlapping", t=900, n=n, template_size=m, blocksize=M, matches_ceil=k) for n, m, M, k in ((32, 2, 8, 4), (40, 3, 10, 5), (36, 4, 18, 6))]
    + [c(R + "overlapping", t=900, n=200, template_size=5, blocksize=50, matches_ceil=5, free=list(range(30, 70)))],
    bounds="(n, template size, block size, matches ceiling) as listed, up to n=24 all symbolic (thorough: 40); " + ALL,
    outside="longer sequences",
)
CHECKS["C09"] = dict(
    quick=[c(R + "universal", n=n, blocksize=L, init_nblocks=q) for n, L, q in ((8, 2, 1), (9, 2, 2), (7, 2, 1), (6, 1, 2), (7, 1, 3), (9, 3, 1))]
    + [
        c(R + "universal", n=24, blocksize=2, init_nblocks=4, free=list(range(2, 9))),
        c(R + "universal", n=40, blocksize=3, init_nblocks=5, free=list(range(9, 16)), seed=2),
        c(R + "universal", n=64, blocksize=6, init_nblocks=2, free=list(range(10, 19)), seed=3),
    ]
    + [c(R + "universal", n=L * 6 + L // 2, blocksize=L, init_nblocks=2, free=[0, L, L + 1, 2 * L, 3 * L - 1, 4 * L], seed=L) for L in range(4, 17)],
    thorough=[c(R + "universal", t=1500, n=n, blocksize=L, init_nblocks=q) for n, L, q in ((10, 2, 2), (12, 3, 1), (8, 1, 3), (10, 1, 4), (12, 2, 3), (16, 4, 1))]
    + [c(R + "universal", t=900, n=120, blocksize=4, init_nblocks=10, free=list(range(30, 46)), seed=2)],
    bounds="(n, blocksize, initialisation blocks) as listed, up to n=9 all symbolic (thorough: 16), longer ones with 7-9 (16) symbolic bits, and every block size 4-16 with 6 symbolic bits over 6 blocks; " + ALL,
    outside="longer sequences with every bit symbolic",
)
CHECKS["C10"] = dict(
    quick=[c(R + "linear_complexity", n=n, blocksize=M) for n, M in ((16, 5), (15, 7), (12, 6), (12, 4), (13, 4), (9, 3), (8, 2), (8, 8), (6, 1))],
    thorough=[c(R + "linear_complexity", t=900, n=n, blocksize=M) for n, M in ((24, 6), (20, 10), (12, 12), (24, 8), (28, 7))],
    bounds="(n, blocksize) as listed, up to blocks of 8 bits (thorough: 12); " + ALL,
    outside="longer blocks",
)
CHECKS["C11"] = dict(
    quick=[c(R + "serial", n=n, blocksize=m) for n, m in ((12, 2), (10, 3), (12, 4), (9, 3), (9, 2), (9, 1), (8, 2), (6, 3), (4, 2))]
    + [c(R + "serial", n=30, blocksize=3, free=list(range(20, 30)), seed=2)],
    thorough=[c(R + "serial", t=1200, n=n, blocksize=m) for n, m in ((14, 3), (16, 2), (16, 3), (16, 4), (12, 5))]
    + [c(R + "serial", t=1200, n=100, blocksize=4, free=list(range(0, 8)) + list(range(92, 100)), seed=2)],
    bounds="(n, blocksize) as listed, up to n=12 all symbolic (thorough: 16); " + ALL,
    outside="longer sequences with every bit symbolic",
)
CHECKS["C12"] = dict(
    quick=[c(R + "approximate_entropy", n=n, blocksize=m) for n, m in ((6, 2), (8, 1), (5, 2), (6, 1), (5, 3), (4, 1), (4, 2), (3, 1))]
    + [c(R + "approximate_entropy", n=16, blocksize=3, free=list(range(0, 6)), seed=2), c(R + "approximate_entropy", n=24, blocksize=2, free=[0, 1, 22, 23], seed=2)],
    thorough=[c(R + "approximate_entropy", t=1800, n=n, blocksize=m) for n, m in ((8, 2), (7, 2), (7, 3), (8, 3), (10, 1), (12, 1), (9, 2))]
    + [c(R + "approximate_entropy", t=1500, n=16, blocksize=2, free=list(range(4, 11)))],
    bounds="(n, blocksize) as listed, up to n=8 all symbolic (thorough: 12) and n=24 with 4-6 symbolic bits; " + ALL,
    outside="longer sequences with every bit symbolic",
)
CHECKS["C13"] = dict(
    quick=[c(R + "cusum", n=n, reverse=rev) for n in (12, 10, 9, 8, 5, 4, 3, 2) for rev in (False, True)],
    thorough=[c(R + "cusum", t=900, n=n, reverse=rev) for n in (16, 20, 24) for rev in (False, True)],
    bounds="n in {2,3,4,5,8,9,10,12} (thorough: 16, 20, 24), both directions, " + ALL,
    outside="longer sequences",
)
CHECKS["C14"] = dict(
    quick=[c(R + "random_excursions", n=n) for n in (8, 7, 6, 5, 4, 2)],
    thorough=[c(R + "random_excursions", t=1500, n=n) for n in (10, 12, 14)],
    bounds="n in {2,4,5,6,7,8} (thorough: up to 14), every state, " + ALL,
    outside="longer sequences",
)
CHECKS["C15"] = dict(
    quick=[c(R + "random_excursions_variant", n=n) for n in (11, 10, 9, 8, 5, 4, 2)],
    thorough=[c(R + "random_excursions_variant", t=1500, n=n) for n in (12, 14, 16)],
    bounds="n in {2,4,5,8,9,10,11} (thorough: up to 16), every state, " + ALL,
    outside="longer sequences",
)

K = "containers:"
STEPS = (None, 1, 2, -1, -2, 3)
CHECKS["C18"] = dict(
    quick=[c(K + "bins_history", fork=True, n=3, ops="wda"), c(K + "bins_access", fork=True, n=4), c(K + "bins_history", fork=True, n=4, ops="dwd"), c(K + "bins_history", fork=True, n=3, ops="ddr")]
    + [
        c(K + "bins_access", fork=True, n=3),
        c(K + "bins_access", fork=True, n=2, container="iter"),
        c(K + "bins_access", fork=True, n=3, kind="real", container="tuple"),
        c(K + "bins_access", fork=True, n=3, keykind="int", writes=3),
        c(K + "bins_access", fork=True, intervals=[0, 1, 2, 3, 4, 5], container="tuple"),
        c(K + "bins_access", fork=True, intervals=[-2.5, -1.5, -0.5, 0.5, 1.5, 2.5]),
        c(K + "bins_access", fork=True, n=1),
        c(K + "bins_history", fork=True, n=2, ops="adrw"),
        c(K + "bins_duplicates", fork=True, n=3),
        c(K + "bins_duplicates", fork=True, n=3, container="iter"),
        c(K + "bins_duplicates", fork=True, n=2),
    ],
    thorough=[
        c(K + "bins_history", t=900, fork=True, max_paths=40000, n=4, ops="adwd"),
        c(K + "bins_history", t=900, fork=True, max_paths=40000, n=5, ops="dad"),
        c(K + "bins_history", t=900, fork=True, max_paths=40000, n=3, ops="wadar"),
        c(K + "bins_access", t=900, fork=True, max_paths=40000, n=6, writes=2),
        c(K + "bins_access", t=900, fork=True, max_paths=40000, n=4, kind="real", writes=3),
        c(K + "bins_duplicates", t=600, fork=True, n=4),
    ],
    bounds="1-4 symbolic integer or real intervals in [-50,50] (and two fixed sets of 6), 2-4 operations with symbolic real or integer keys in [-100,100] and symbolic values; thorough: up to 6 intervals and 5 operations",
    outside="more intervals, longer histories, deletion of the last interval",
)
CHECKS["C19"] = dict(
    quick=[c(K + "floor_dict", fork=True, n=n, kind=k) for n in (5, 3, 1) for k in ("int", "real")]
    + [
        c(K + "floor_dict", fork=True, n=4, order=[2, 0, 3, 1]),
        c(K + "floor_dict", fork=True, keys=[128, 6272, 750000]),
        c(K + "floor_dict", fork=True, keys=[0, 387840, 904960, 2068480, 4654080, 10342400]),
        c(K + "floor_dict_ends", fork=True, keys=[0, 3, 4, 9]),
        c(K + "floor_dict_ends", fork=True, keys=[9, 4, 7]),
    ],
    thorough=[c(K + "floor_dict", t=600, fork=True, n=n, kind=k) for n in (8, 12) for k in ("int", "real")],
    bounds="1-5 symbolic integer or real keys (thorough: 12), inserted in and out of order, and any integer or real looked-up key; two fixed tables",
    outside="larger dictionaries; several lookups on one dictionary",
)
D = K + "default_list"
CHECKS["C20"] = dict(
    quick=[
        c(D, fork=True, ops="GS", fill=2, lim=2, steps=(None,), nvals=2),
        c(D, fork=True, ops="SD", fill=2, lim=2, steps=(None,), nvals=1),
        c(D, fork=True, ops="SD", fill=2, lim=2, steps=(2,), nvals=1),
        c(D, fork=True, ops="DG", fill=3, lim=2, steps=(None,)),
        c(D, fork=True, ops="DS", fill=2, lim=2, steps=(-1,), nvals=1),
        c(D, fork=True, ops="SiG", fill=1, lim=1, steps=(None,), nvals=1),
        c(D, fork=True, ops="S", fill=3, lim=4, steps=STEPS),
        c(D, fork=True, ops="D", fill=4, lim=5, steps=STEPS),
        c(D, fork=True, ops="G", fill=3, lim=5, steps=STEPS, default="seven"),
        c(D, fork=True, ops="D", fill=2, lim=5, steps=STEPS, skip=2, default="none"),
        c(D, fork=True, ops="gsd"),
        c(D, fork=True, ops="isd", fill=2, default="none"),
        c(D, fork=True, ops="dig", fill=2, lim=2, skip=1, default="seven"),
        c(D, fork=True, ops="axpIi", fill=2),
        c(D, fork=True, ops="xsI", fill=1),
        c(D, fork=True, ops="pppg", fill=2, lim=1),
    ],
    thorough=[
        c(D, t=1200, fork=True, max_paths=100000, ops="GSD", fill=2, lim=2, steps=(None, 1), nvals=1),
        c(D, t=1200, fork=True, max_paths=100000, ops="sSd", fill=2, lim=2, steps=(None, 1, -1), nvals=2),
        c(D, t=1200, fork=True, max_paths=100000, ops="DiS", fill=3, lim=2, steps=(None, 2), nvals=1),
        c(D, t=1200, fork=True, max_paths=100000, ops="gsdi", fill=2, lim=3),
        c(D, t=1200, fork=True, max_paths=100000, ops="S", fill=5, lim=6, steps=STEPS, nvals=3),
        c(D, t=1200, fork=True, max_paths=100000, ops="DD", fill=5, lim=3, steps=(None, 1, 2, -1)),
    ],
    bounds="histories of 1-5 operations (item and slice reads, writes and deletions, insert, append, extend, pop, index, equality) on lists of 0-4 filled positions, every index and slice bound up to 3-5 either side of 0, steps in {none, 1, 2, 3, -1, -2}, symbolic values",
    outside="longer histories, larger indices, step 0",
)
A = "algorithms:"
NOC = [3, 4, 5, 6] + [100 * i + 1 for i in range(1, 30)]
NOC_LONG = [400001, 700001, 1000001, 2000001, 4000001]
TEN = 10 ** 7


# lengths up to which a full run of the test settles doubts (FULL in harness/defaults.py)
CONFIRMED = dict(serial=10 ** 5, approximate_entropy=2 * 10 ** 5, non_overlapping_template_matching=2 * 10 ** 5, linear_complexity=210000, overlapping_template_matching=4 * 10 ** 5, maurers_universal=2100000, frequency_within_block=10 ** 7, longest_runs=10 ** 7, binary_matrix_rank=3 * 10 ** 6)


def long(fn, hi, wide, **k):
    """every length, parameters omitted and given"""
    D = "defaults:" + fn
    out = [
        c(D, test="frequency_within_block", lo=8, hi=hi),
        c(D, test="longest_runs", lo=128, hi=hi),
        c(D, test="binary_matrix_rank", lo=4, hi=hi),
        c(D, test="non_overlapping_template_matching", lo=2, hi=hi, cut=NOC),
        c(D, test="overlapping_template_matching", lo=4, hi=wide, cut="root"),
        c(D, test="overlapping_template_matching", lo=wide // 4 * 25, hi=wide // 4 * 25 + wide, cut="root"),
        c(D, test="maurers_universal", lo=4, hi=hi, cut="log"),
        c(D, test="linear_complexity", lo=2, hi=wide, cut="root"),
        c(D, test="linear_complexity", lo=90000, hi=hi, cut="root" if hi < 90000 else [90000 + 1000 * i for i in range(1, 11)]),
        c(D, test="serial", lo=2, hi=hi),
        c(D, test="approximate_entropy", lo=2, hi=hi),
        c(D, test="frequency_within_block", lo=8, hi=hi, give=dict(blocksize="1..%d" % hi)),
        c(D, test="binary_matrix_rank", lo=4, hi=hi, give=dict(matrix_dimen="1..3000")),
        c(D, test="non_overlapping_template_matching", lo=2, hi=hi, give=dict(template_size=list(range(1, 17)), blocksize="1..1000000")),
        c(D, test="non_overlapping_template_matching", lo=2, hi=hi, give=dict(blocksize="1..1000000")),
        c(D, test="non_overlapping_template_matching", lo=2, hi=hi, cut=NOC, give=dict(template_size=[2, 3, 5, 9, 10])),
        c(D, test="overlapping_template_matching", lo=1032, hi=hi, give=dict(template_size=[9, 10], blocksize=[1032], matches_ceil=[1, 3, 5, 8])),
        c(D, test="overlapping_template_matching", lo=200, hi=hi, give=dict(template_size=[2, 4, 5, 6], blocksize=[10, 64, 67, 131], matches_ceil=[2, 5])),
        c(D, test="overlapping_template_matching", lo=4, hi=wide, cut="root", give=dict(matches_ceil=[1, 4, 6])),
        *(c(D, test="maurers_universal", lo=4, hi=hi, cut="log", give=dict(blocksize=[b])) for b in range(1, 17)),
        c(D, test="maurers_universal", lo=4, hi=hi, cut="log", give=dict(init_nblocks="1..1000000")),
        c(D, test="maurers_universal", lo=4, hi=hi, give=dict(blocksize=list(range(1, 17)), init_nblocks="1..1000000")),
        c(D, test="linear_complexity", lo=2, hi=hi, give=dict(blocksize="1..%d" % hi)),
        c(D, test="serial", lo=2, hi=hi, give=dict(blocksize="1..24")),
        c(D, test="approximate_entropy", lo=2, hi=hi, give=dict(blocksize="1..24")),
    ]
    split = []
    for d in out:
        d["fork"] = True
        d.update(k)
        most = CONFIRMED[d["p"]["test"]]
        if d["p"]["lo"] <= most < d["p"]["hi"]:
            split.append(dict(d, p=dict(d["p"], hi=most)))
            d = dict(d, p=dict(d["p"], lo=most + 1))
            if d["p"]["test"] == "non_overlapping_template_matching" and "blocksize" not in d["p"].get("give", {}):
                d["p"]["cut"] = NOC_LONG
        split.append(d)
    return split


WHOLE = [
    ("frequency_within_block", (8, 99, 100, 2001, 5000, 5001), {}),
    ("frequency_within_block", (200,), dict(blocksize=[2, 3, 19, 20])),
    ("longest_runs", (128, 6271, 6272), {}),
    ("binary_matrix_rank", (4, 151, 152, 341, 342), {}),
    ("binary_matrix_rank", (300,), dict(matrix_dimen=[[2, 4], [3, 2], [3, 3]])),
    ("non_overlapping_template_matching", (2, 7, 99, 100, 301), {}),
    ("non_overlapping_template_matching", (60,), dict(template_size=[2, 3], blocksize=[20, 15])),
    ("overlapping_template_matching", (4, 9, 287, 288), {}),
    ("overlapping_template_matching", (60,), dict(template_size=[2, 3], blocksize=[20, 15], matches_ceil=[2, 5])),
    ("maurers_universal", (4, 7, 300), {}),
    ("maurers_universal", (60,), dict(blocksize=[2, 3], init_nblocks=[4, 5])),
    ("linear_complexity", (2, 9, 300), {}),
    ("linear_complexity", (40,), dict(blocksize=[5, 8])),
    ("serial", (2, 31, 32), {}),
    ("serial", (64,), dict(blocksize=[3, 4])),
    ("approximate_entropy", (2, 127, 256), {}),
    ("approximate_entropy", (64,), dict(blocksize=[1, 2])),
]
PLAIN = [(t, ns, {}) for t, ns in (("monobit", (99, 100)), ("runs", (99, 100)), ("spectral", (40,)), ("cusum", (99, 100)), ("random_excursions", (40,)), ("random_excursions_variant", (40,)))]


def ended(what, tests, **k):
    return [c("defaults:complete", fork=True, test=t, n=n, what=what, **(dict(give=g) if g else {}), **k) for t, ns, g in tests for n in ns]


LONGNOTE = "parameter selection and recommendations: the real test functions are run up to their first look at the data on a sequence whose length is a symbolic number; complete runs (two symbolic bits) at the listed lengths for the results' own fields"
CHECKS["C21"] = dict(
    quick=long("choices", TEN, 10000) + ended("parameters", WHOLE),
    thorough=long("choices", 10 ** 9, 100000, t=900, max_paths=40000),
    bounds="every length from the shortest accepted up to 10^7 (overlapping templates and the square-root rule of linear complexity: up to 10^4 and selected ranges), block sizes 1..10^7, matrix sides 1..3000, template sizes 1..16, initial blocks 1..10^6 as symbolic numbers; complete runs at n in 2..6272",
    outside="longer sequences; parameters of a type other than int; " + LONGNOTE,
)
CHECKS["C22"] = dict(
    quick=long("warned", 1100000, 10000)
    + [c("defaults:warned", fork=True, test=t, lo=2, hi=1100000) for t in ("monobit", "runs", "spectral", "cusum", "random_excursions", "random_excursions_variant")]
    + [c("defaults:warned", fork=True, test=t, lo=lo, hi=1100000, ctx=True) for t, lo in (("monobit", 2), ("spectral", 2), ("frequency_within_block", 8), ("binary_matrix_rank", 4), ("random_excursions", 2), ("serial", 2))]
    + ended("failures", PLAIN + WHOLE)
    + [c("defaults:complete", fork=True, test=t, n=n, what="failures", ctx=True) for t, n in (("monobit", 99), ("frequency_within_block", 99), ("overlapping_template_matching", 60), ("serial", 20))],
    thorough=long("warned", 1100000, 100000, t=900, max_paths=40000),
    bounds="every length up to 1,100,000 with the parameters omitted or given (ranges as for C21), as symbolic numbers; complete runs at n in 2..6272 for the failures listed in results",
    outside="longer sequences; recommendations worded with an approximate equality are only decided where they are clear (within 1e-9, or off by more than 5%); " + LONGNOTE,
)
CHECKS["C27"] = dict(
    quick=[c(A + "matrix_rank", nrows=a, ncols=b, tuples=t) for a, b, t in ((4, 4, False), (3, 5, False), (5, 3, False), (2, 6, True), (6, 2, False), (3, 3, True), (3, 3, False), (1, 4, False), (4, 1, False), (1, 1, False))]
    + [c(A + "matrix_rank", nrows=a, ncols=b, free=f, seed=b) for a, b, f in ((3, 40, (0, 7, 20, 41, 60, 80, 81, 119)), (4, 70, (0, 1, 35, 70, 105, 139, 140, 279)), (32, 32, (0, 33, 500, 1023)), (10, 10, (0, 11, 22, 33, 44, 55, 66, 77)))]
    + [c(A + "matrix_rank_sparse", nrows=a, ncols=b, cols=k) for a, b, k in ((3, 40, (0, 7, 8, 39)), (2, 100, (0, 31, 32, 63, 64, 99)), (4, 33, (0, 16, 32)), (20, 70, (0, 69)))],
    thorough=[c(A + "matrix_rank", t=1500, nrows=a, ncols=b) for a, b in ((4, 5), (5, 4), (4, 6), (5, 5), (3, 8), (8, 3))],
    bounds="every 0/1 matrix of the listed shapes, up to 4x4, 3x5, 5x3 (thorough: 5x5); 3x40, 4x70, 10x10 and 32x32 with 4-8 symbolic elements among fixed ones; 3x40, 2x100, 4x33 and 20x70 with 2-6 symbolic columns and the others 0",
    outside="larger matrices",
)
CHECKS["C28"] = dict(
    quick=[c(A + "berlekamp_massey", n=n, tuples=bool(n % 2)) for n in (10, 9, 8, 7, 6, 5, 4, 3, 2, 1)] + [c(A + "berlekamp_massey_search", n=n) for n in (6, 5, 4, 3, 2, 1)],
    thorough=[c(A + "berlekamp_massey", t=1500, n=n) for n in (11, 12, 13, 14, 16)] + [c(A + "berlekamp_massey_search", t=1500, n=n) for n in (7, 8, 9)],
    bounds="every 0/1 sequence of 1..10 elements (thorough: 16) against an independent register synthesis, and of 1..6 (thorough: 9) against a search over all registers",
    outside="longer sequences",
)
CHECKS["C29"] = dict(
    quick=[c(A + "multi_result", n=n) for n in (1, 2, 3, 5, 8)],
    thorough=[c(A + "multi_result", t=600, n=n) for n in (16, 18)],
    bounds="1, 2, 3, 5 and 8 (thorough: 16, 18) sub-results with symbolic real statistics and p-values",
    outside="other numbers of sub-results",
)
CHECKS["C32"] = dict(
    quick=[c(A + "mersenne", steps=1), c(A + "mersenne", steps=3), c(A + "mersenne_default"), c(A + "python", steps=8)],
    thorough=[c(A + "mersenne", t=600, steps=20), c(A + "python", steps=64)],
    bounds="one and three steps (thorough: 20) from every seed between -2^33 and 2^33 (which covers every state, as states are below 2^31: an inductive argument for ever), 50 steps from the default seed, 8 (64) bits of the Python generator for every source",
    outside="seeds beyond 2^33",
)

G = "gate:"
TESTS = (
    "monobit", "frequency_within_block", "runs", "binary_matrix_rank", "spectral", "non_overlapping_template_matching",
    "overlapping_template_matching", "maurers_universal", "linear_complexity", "serial", "approximate_entropy", "cusum",
    "random_excursions", "random_excursions_variant",
)
MIN = {"frequency_within_block": 8, "binary_matrix_rank": 4, "overlapping_template_matching": 4, "maurers_universal": 4}
C16 = []
for t in TESTS + ("longest_runs",):
    m = MIN.get(t, 2)
    big = m + (1 if t in ("approximate_entropy", "serial") else 2)
    C16 += [c(G + "accepts", test=t, n=n, alphabet="01nan") for n in (m + 1, m, m - 1)]
    C16 += [c(G + "accepts", test=t, n=big, alphabet="012"), c(G + "accepts", test=t, n=m + 1, alphabet="abnone"), c(G + "no_crash", test=t, n=big)]
C16 += [
    c(G + "accepts", test="monobit", n=n, alphabet=a, container=k)
    for n, a, k in ((0, "one", "list"), (1, "012", "list"), (3, "012nan", "list"), (4, "0123", "tuple"), (5, "abc", "list"), (5, "floats", "series"), (4, "bool", "list"), (3, "0nan", "list"), (4, "01none", "list"), (4, "01nan", "series"), (6, "012", "series"), (2, "one", "list"))
]
C16 += [c(G + "constant", test=t, n=n) for t, n in (("monobit", 1), ("monobit", 6), ("runs", 8), ("frequency_within_block", 8), ("serial", 5))]
CHECKS["C16"] = dict(
    quick=C16,
    thorough=[c(G + "no_crash", t=600, test=t, n=n) for t in TESTS for n in ((7, 9, 11) if t not in ("approximate_entropy", "maurers_universal") else (6, 7))]
    + [c(G + "accepts", t=600, test=t, n=n, alphabet=a) for t in TESTS for n in (6, 9) for a in ("012nan", "abc") if t not in ("approximate_entropy",)]
    + [c(G + "no_crash", t=600, test=t, n=n, free=list(range(8))) for t in TESTS for n in (50, 100, 128, 200)],
    bounds="every test at its minimum length and up to 2 either side: every sequence over {0,1,missing}, {0,1,2} or {a,b,None}; other alphabets (4 values, floats, booleans, one value) and containers on the monobit test up to length 6; the longest-runs test only below 128; thorough: up to length 11, and 50-200 with 8 symbolic elements",
    outside="longer sequences; values of other kinds (dates, categories); explicit parameters that do not fit the sequence",
)
SMALL = {
    "monobit": (8, None),
    "frequency_within_block": (9, {"blocksize": 3}),
    "runs": (7, None),
    "binary_matrix_rank": (9, {"matrix_dimen": (2, 2)}),
    "spectral": (6, None),
    "non_overlapping_template_matching": (9, {"template_size": 2, "blocksize": 4}),
    "overlapping_template_matching": (9, {"template_size": 2, "blocksize": 4, "matches_ceil": 2}),
    "maurers_universal": (7, {"blocksize": 2, "init_nblocks": 1}),
    "linear_complexity": (9, {"blocksize": 4}),
    "serial": (6, {"blocksize": 2}),
    "approximate_entropy": (4, {"blocksize": 1}),
    "cusum": (6, None),
    "random_excursions": (5, None),
    "random_excursions_variant": (6, None),
}
PAIRS = ("swap", "str", "neg", "bool", "digits", "float", "12", "ab", "big", "empty", "910", "negative", "case", "mixed")
CONT = ("equal index", "reversed index", "tuple", "offset index", "series", "string index")
C17 = []
for i, t in enumerate(TESTS):
    n, kw = SMALL[t]
    for j, pair in enumerate(PAIRS):
        C17.append(c(G + "labels", test=t, n=n, kw=kw, pair=pair, container=("list", "tuple", "series")[(i + j) % 3]))
    for j in range(2):
        C17.append(c(G + "containers", test=t, n=n, kw=kw, container=CONT[(2 * i + j) % len(CONT)]))
C17 += [c(G + "labels", test="monobit", n=5, pair=p) for p in PAIRS]
C17 += [c(G + "containers", test="runs", n=5, container=k) for k in CONT]
C17 += [c(G + "labels", test="longest_runs", n=128, pair="str", free=list(range(8)), container="reversed index"), c(G + "containers", test="longest_runs", n=128, free=list(range(8)), container="reversed index")]
CHECKS["C17"] = dict(
    quick=C17,
    thorough=[c(G + "labels", t=300, test=t, n=SMALL[t][0], kw=SMALL[t][1], pair=p, container=k) for t in TESTS for p in PAIRS for k in ("list", "equal index")]
    + [c(G + "containers", t=300, test=t, n=SMALL[t][0] + 2, kw=SMALL[t][1], container=k) for t in TESTS if t != "approximate_entropy" for k in CONT]
    + [c(G + "labels", t=300, test=t, n=100, pair="str", container="offset index", free=list(range(40, 48))) for t in TESTS],
    bounds="every test at a length of 4 to 9 (longest runs: 128 with 8 symbolic elements), every binary sequence, each of fourteen label pairs (integers, negative, large, floats, booleans, strings) and at least two of six containers (tuple; series with default, offset, reversed, string or repeated index) each; thorough: also series with repeated index and all containers, and length 100 with 8 symbolic elements",
    outside="longer sequences; label types whose order Python does not define; containers other than lists, tuples and series",
)

F = "refimpl:"
CHECKS["C33"] = dict(
    quick=[c(F + "monobit", n=n) for n in (33, 8, 3)]
    + [c(F + "frequency_within_block", n=n, blocksize=M) for n, M in ((24, 7), (11, 5), (8, 1))]
    + [c(F + "runs", n=n) for n in (16, 9, 4)]
    + [
        c(F + "longest_runs", n=128, free=list(range(20, 44))),
        c(F + "longest_runs", n=135, free=list(range(110, 135)), seed=5),
        c(F + "longest_runs", n=6272, free=list(range(120, 140)), seed=3),
    ]
    + [c(F + "matrix", n=n, nrows=a, ncols=b) for n, a, b in ((20, 3, 3), (18, 2, 3), (16, 4, 2), (9, 2, 2))]
    + [c(F + "spectral", n=n) for n in (8, 7, 6, 4)]
    + [c(F + "non_overlapping", n=n, template_size=m, blocksize=M) for n, m, M in ((13, 3, 6), (12, 2, 5), (11, 2, 11), (6, 1, 3))]
    + [c(F + "overlapping", n=n, template_size=m, blocksize=M) for n, m, M in ((22, 2, 11), (18, 3, 9), (8, 1, 7))]
    + [c(F + "universal", n=n, blocksize=L, init_nblocks=q) for n, L, q in ((15, 3, 2), (12, 2, 2), (9, 1, 3))]
    + [c(F + "linear_complexity", n=n, blocksize=M) for n, M in ((16, 8), (14, 7), (12, 4), (10, 3))]
    + [c(F + "serial", n=n, blocksize=m) for n, m in ((7, 3), (6, 4), (8, 2))]
    + [c(F + "approximate_entropy", n=n, blocksize=m) for n, m in ((7, 1), (6, 2), (5, 3))]
    + [c(F + "cusum", n=n, reverse=r) for n in (13, 8, 5) for r in (False, True)]
    + [c(F + "random_excursions", n=n) for n in (9, 7)]
    + [c(F + "random_excursions_variant", n=n) for n in (13, 9)],
    thorough=[c(F + "monobit", t=900, n=128), c(F + "frequency_within_block", t=600, n=48, blocksize=16), c(F + "runs", t=900, n=32)]
    + [c(F + "longest_runs", t=1200, n=128), c(F + "matrix", t=900, n=32, nrows=4, ncols=4), c(F + "matrix", t=900, n=24, nrows=3, ncols=4)]
    + [c(F + "spectral", t=900, n=n) for n in (12, 13)]
    + [c(F + "non_overlapping", t=900, n=n, template_size=m, blocksize=M) for n, m, M in ((20, 3, 10), (24, 2, 8), (18, 4, 9))]
    + [c(F + "overlapping", t=900, n=40, template_size=3, blocksize=20), c(F + "universal", t=900, n=24, blocksize=3, init_nblocks=4)]
    + [c(F + "linear_complexity", t=900, n=20, blocksize=10), c(F + "serial", t=900, n=10, blocksize=3), c(F + "approximate_entropy", t=900, n=9, blocksize=2)]
    + [c(F + "cusum", t=900, n=24, reverse=r) for r in (False, True)]
    + [c(F + "random_excursions", t=900, n=18), c(F + "random_excursions_variant", t=900, n=28)],
    bounds="each of the fifteen reference functions at two or more lengths between 3 and 33 (longest runs: 128, 135 and 6272 with 20-25 symbolic bits) and the listed parameters; thorough: up to 128; " + ALL,
    outside="longer sequences, other parameters; sequences holding one value only",
)

P = "purity:"
# test -> (harness in randtests, its parameters, the same as keyword arguments, a second choice of length and arguments)
CALLS = {
    "monobit": ("monobit", {"n": 7}, None, (5, None)),
    "frequency_within_block": ("frequency_within_block", {"n": 9, "blocksize": 3}, {"blocksize": 3}, (9, {"blocksize": 4})),
    "runs": ("runs", {"n": 7}, None, (6, None)),
    "longest_runs": ("longest_runs", {"n": 128, "free": list(range(12, 17))}, None, (130, None)),
    "binary_matrix_rank": ("matrix", {"n": 9, "nrows": 2, "ncols": 2}, {"matrix_dimen": (2, 2)}, (10, {"matrix_dimen": (2, 3)})),
    "spectral": ("spectral", {"n": 6}, None, (4, None)),
    "non_overlapping_template_matching": ("non_overlapping", {"n": 8, "template_size": 2, "blocksize": 4}, {"template_size": 2, "blocksize": 4}, (8, {"template_size": 2, "blocksize": 3})),
    "overlapping_template_matching": ("overlapping", {"n": 9, "template_size": 2, "blocksize": 4, "matches_ceil": 2}, {"template_size": 2, "blocksize": 4, "matches_ceil": 2}, (9, {"template_size": 2, "blocksize": 4, "matches_ceil": 3})),
    "maurers_universal": ("universal", {"n": 6, "blocksize": 2, "init_nblocks": 1}, {"blocksize": 2, "init_nblocks": 1}, (6, {"blocksize": 1, "init_nblocks": 2})),
    "linear_complexity": ("linear_complexity", {"n": 9, "blocksize": 4}, {"blocksize": 4}, (9, {"blocksize": 3})),
    "serial": ("serial", {"n": 5, "blocksize": 2}, {"blocksize": 2}, (6, {"blocksize": 3})),
    "approximate_entropy": ("approximate_entropy", {"n": 4, "blocksize": 1}, {"blocksize": 1}, (5, {"blocksize": 2})),
    "cusum": ("cusum", {"n": 6, "reverse": False}, None, (6, {"reverse": True})),
    "random_excursions": ("random_excursions", {"n": 4}, None, (5, None)),
    "random_excursions_variant": ("random_excursions_variant", {"n": 6}, None, (5, None)),
}
C34 = []
names = list(CALLS)
for i, t in enumerate(names):
    h, p, kw, (m2, kw2) = CALLS[t]
    n = p["n"]
    C34.append(c(P + "history", lru=True, first=t, m=n, kw=kw, then=h, p=p))
    C34.append(c(P + "history", lru=True, first=t, m=m2, kw=kw2, then=h, p=p, labels=("bool", "float", "12", "01s", "ab")[i % 5]))
    C34.append(c(P + "repeat", lru=True, test=t, n=n, kw=kw, between=t, m=m2, bkw=kw2, blabels=("float", "bool")[i % 2]))
    C34.append(c(P + "unchanged", lru=True, test=t, n=n, kw=kw))
    C34.append(c(P + "unchanged", lru=True, test=t, n=n, kw=kw, container="series", labels="ab"))
for i in range(15):
    t, u = names[i], names[(i + 4) % 15]
    if "longest_runs" not in (t, u):
        h, p, kw, _ = CALLS[t]
        C34.append(c(P + "history", lru=True, first=u, m=CALLS[u][1]["n"], kw=CALLS[u][2], then=h, p=p, labels=("bits", "bool")[i % 2]))
C34 += [c(P + "history", lru=True, first="monobit", m=3, then="monobit", p={"n": 4}, labels=k, times=2) for k in ("bits", "bool", "float")]
C34 += [c(P + "unchanged", test="runs", n=4, container="series", index=[3, 2, 1, 0]), c(P + "unchanged", test="monobit", n=4, container="series", index=["a", "b", "c", "c"])]
CHECKS["C34"] = dict(
    quick=C34,
    thorough=[c(P + "history", t=300, lru=True, first=u, m=CALLS[u][1]["n"], kw=CALLS[u][2], then=CALLS[t][0], p=CALLS[t][1], labels=k) for t in names for u in names for k in ("bits", "float")]
    + [c(P + "history", t=300, lru=True, first=t, m=CALLS[t][3][0], kw=CALLS[t][3][1], then=CALLS[t][0], p=CALLS[t][1], times=2) for t in names]
    + [c(P + "unchanged", t=300, test=t, n=CALLS[t][1]["n"] + 2, kw=CALLS[t][2], container="series", index=list(range(CALLS[t][1]["n"] + 2))[::-1]) for t in names],
    bounds="every test after an earlier call of the same test with any sequence of the same length, of another length and parameters and with other labels (booleans, floats, strings), and of one other test, functools caches modelled; lengths 3-10 (longest runs: 128 with 5 symbolic bits); lists and series compared before and after; thorough: every ordered pair of tests",
    outside="longer histories and sequences; eviction of cache entries; state outside the process",
)

Q = "progress:complete"
PARAMS = {
    "monobit": [(9, None), (2, None)],
    "frequency_within_block": [(17, None), (13, {"blocksize": 3}), (8, {"blocksize": 8}), (9, {"blocksize": 1})],
    "runs": [(12, None), (5, None)],
    "longest_runs": [],
    "binary_matrix_rank": [(17, None), (11, {"matrix_dimen": (2, 2)}), (14, {"matrix_dimen": (3, 2)}), (12, {"matrix_dimen": (1, 3)})],
    "spectral": [(6, None), (7, None), (3, None)],
    "non_overlapping_template_matching": [(8, None), (13, {"template_size": 3, "blocksize": 6}), (9, {"template_size": 2, "blocksize": 3}), (10, {"template_size": 1, "blocksize": 5})],
    "overlapping_template_matching": [(13, None), (10, {"template_size": 2, "blocksize": 5, "matches_ceil": 2}), (16, {"template_size": 3, "blocksize": 4, "matches_ceil": 3})],
    "maurers_universal": [(9, None), (9, {"blocksize": 2, "init_nblocks": 2}), (10, {"blocksize": 1, "init_nblocks": 3}), (11, {"blocksize": 3, "init_nblocks": 1})],
    "linear_complexity": [(12, None), (13, {"blocksize": 4}), (9, {"blocksize": 9}), (10, {"blocksize": 2})],
    "serial": [(8, None), (7, {"blocksize": 1}), (7, {"blocksize": 2}), (6, {"blocksize": 4})],
    "approximate_entropy": [(5, None), (5, {"blocksize": 1}), (5, {"blocksize": 3})],
    "cusum": [(10, None), (9, {"reverse": True})],
    "random_excursions": [(6, None), (3, None)],
    "random_excursions_variant": [(11, None), (4, None)],
}
CHECKS["C35"] = dict(
    quick=[c(Q, test=t, n=n, kw=kw) for t in PARAMS for n, kw in PARAMS[t]]
    + [
        c(Q, test="longest_runs", n=128, free=list(range(8))),
        c(Q, test="longest_runs", n=135, free=list(range(50, 58))),
        c(Q, test="longest_runs", n=180, free=list(range(8))),
        c(Q, test="longest_runs", n=6300, free=list(range(128, 136))),
        c(Q, test="longest_runs", n=9),
        c(Q, test="frequency_within_block", n=250, free=list(range(8))),
        c(Q, test="linear_complexity", n=150, free=list(range(5))),
        c(Q, test="binary_matrix_rank", n=200, free=list(range(8))),
        c(Q, test="overlapping_template_matching", n=150, free=list(range(8))),
        c(Q, test="serial", n=70, free=list(range(4))),
    ],
    thorough=[c(Q, t=300, test=t, n=n + d, kw=kw) for t in PARAMS for n, kw in PARAMS[t] for d in (1, 2) if (t, kw) != ("maurers_universal", None)]
    + [c(Q, t=300, test=t, n=n, free=list(range(6))) for t in PARAMS for n in (100, 200, 500)],
    bounds="every test at two or more lengths between 2 and 17 with default and explicit parameters, every binary sequence; lengths 70-250 with 4-8 symbolic bits for five tests; thorough: up to 500",
    outside="longer sequences, other parameters; the display itself",
)

B = "probability:probability"
LENGTHS = {
    "monobit": (24, 9, 3, 2), "frequency_within_block": (17, 11, 8, 7, 4, 2), "runs": (12, 7, 3, 2), "binary_matrix_rank": (17, 9, 4, 3, 2),
    "spectral": (8, 7, 4, 3, 2), "non_overlapping_template_matching": (13, 8, 5, 3, 2), "overlapping_template_matching": (16, 9, 4, 3, 2),
    "maurers_universal": (13, 9, 6, 4, 3, 2), "linear_complexity": (13, 8, 4, 2), "serial": (9, 6, 3, 2), "approximate_entropy": (6, 4, 3, 2),
    "cusum": (14, 7, 3, 2), "random_excursions": (8, 5, 3, 2), "random_excursions_variant": (12, 6, 3, 2),
}
CHECKS["C36"] = dict(
    quick=[c(B, test=t, n=n) for t in LENGTHS for n in LENGTHS[t]]
    + [
        c(B, test="longest_runs", n=128, free=list(range(10))),
        c(B, test="longest_runs", n=140, free=list(range(40, 50))),
        c(B, test="frequency_within_block", n=120, free=list(range(10))),
        c(B, test="binary_matrix_rank", n=152, free=list(range(10))),
        c(B, test="linear_complexity", n=100, free=list(range(4))),
        c(B, test="overlapping_template_matching", n=144, free=list(range(10))),
        c(B, test="maurers_universal", n=100, free=list(range(6))),
        c(B, test="non_overlapping_template_matching", n=100, free=list(range(6))),
    ],
    thorough=[c(B, t=600, test=t, n=n) for t in LENGTHS for n in (LENGTHS[t][0] + 1, LENGTHS[t][0] + 2)]
    + [c(B, t=600, test=t, n=n, free=list(range(8))) for t in LENGTHS for n in (50, 128, 300)],
    bounds="every test with default parameters at three or more lengths between its minimum and 24, every binary sequence; lengths 100-152 with 4-10 symbolic bits for seven tests; thorough: up to 300",
    outside="longer sequences; explicit parameters",
)

D = "display:"
RICH = "stand-ins replace the content classes of rich in symbolic runs (harness/richstub.py), compared with rich itself on sampled inputs"
CHECKS["C30"] = dict(
    quick=[
        c(D + "sequence_rows", n=6, ncols=80, free=None),
        c(D + "sequence_rows", n=20, ncols=15, pair="str"),
        c(D + "sequence_rows", n=40, ncols=11, pair="910"),
        c(D + "sequence_rows", n=300, ncols=30, pair="neg", free=list(range(0, 300, 7))),
        c(D + "sequence_rows", n=264, ncols=30, pair="bool", free=list(range(0, 264, 7))),
        c(D + "sequence_rows", n=265, ncols=30, pair="empty", free=list(range(0, 265, 7))),
        c(D + "sequence_rows", n=500, ncols=30, pair="01", free=list(range(3, 500, 17))),
        c(D + "subsequence", n=6, pair="float"),
        c(D + "subsequence", n=4, pair="str"),
        c(D + "subsequence", n=4, pair="910", container="series"),
        c(D + "different_texts", n=2, m=2),
        c(D + "different_texts", n=0, m=2),
        c(D + "different_texts", n=3, m=1),
        c(D + "different_ints", lo=-12, hi=25),
        c(D + "printed", n=5, pair="bool"),
        c(D + "printed", lru=True, n=5, pair="bool", then=[0, 1, 1]),
        c(D + "printed", lru=True, n=5, pair="01", then=[False, True, True]),
        c(D + "printed", lru=True, n=5, pair="float", then=[True, False]),
    ],
    thorough=[c(D + "sequence_rows", t=300, n=n, ncols=w, pair=k, free=list(range(0, n, 11))) for n, w, k in ((90, 18, "str"), (91, 18, "01"), (1000, 80, "ab"), (792, 80, "bool"), (793, 80, "float"), (2000, 100, "neg"))]
    + [c(D + "different_ints", t=600, max_paths=200000, lo=-60, hi=60), c(D + "different_ints", t=600, lo=95, hi=125), c(D + "different_texts", t=600, n=4, m=4)],
    bounds="every sequence of 6-40 elements, and of 264-500 elements with 30-43 symbolic ones, in rows of 11-80 columns, as numbers, booleans, floats and texts; every pair of integers in [-12, 25] and of texts of at most 3 letters; print_series after another sequence with functools caches modelled; thorough: up to 2000 elements and integers in [-60, 60]",
    outside="longer sequences and other labels; the layout rich gives to the rows",
    assumptions=[RICH],
)

A = "runall:"
CHECKS["C25"] = dict(
    quick=[
        c(A + "errors", which=[]),
        c(A + "errors", which=[0, 1, 2, 3, 4, 5, 6]),
        c(A + "errors", which=[4, 5, 6, 7, 8, 9, 10], shift=1),
        c(A + "errors", which=[8, 9, 10, 11, 12, 13, 14], shift=2),
        c(A + "errors", which=[0, 3, 6, 9, 12, 13, 14], shift=3),
        c(A + "together", n=2),
        c(A + "together", n=3),
        c(A + "together", n=4),
        c(A + "together", n=6, free=[0, 2, 3]),
        c(A + "together", n=9, free=[1, 4, 5]),
        c(A + "together", n=4, lru=True, before=3),
        c(A + "unknown", name="run"),
        c(A + "unknown", name="Monobit"),
        c(A + "unknown", name=""),
    ]
    + [c(A + "single", name=t, n=4) for t in names if t != "longest_runs"]
    + [c(A + "single", name="serial", n=4, kw={"blocksize": 2}), c(A + "single", name="cusum", n=4, kw={"reverse": True}), c(A + "single", name="frequency_within_block", n=9, kw={"blocksize": 4}), c(A + "single", name="longest_runs", n=128, free=list(range(6)))],
    thorough=[c(A + "errors", t=900, max_paths=20000, which=list(range(i, i + 10))) for i in range(6)]
    + [c(A + "together", t=300, n=n, free=list(range(0, n, 2))) for n in (8, 10, 12)]
    + [c(A + "together", t=600, n=n) for n in (5, 6, 7)],
    bounds="every subset of four sets of seven tests failing with errors of four classes, the others returning results, multi-results and results with failures; all tests together on every sequence of 2-4 elements and on sequences of 6 and 9 with 3 symbolic ones, also after another sequence with functools caches modelled, compared with each test alone; every test by name at n=4; thorough: every subset of six sets of ten tests, sequences up to 7 (12 with half the elements symbolic)",
    outside="failures of more tests at once in subsets beyond these; errors that are no test errors; longer sequences; the layout rich gives to what is printed",
    assumptions=[RICH, "a failing test is a stand-in that raises an error, put in the place of the test in the package the runner takes it from"],
)

X = "plots:refdist"
CHECKS["C31"] = dict(
    quick=[c(X, test="monobit", n=n) for n in (2, 5, 12, 20)]
    + [c(X, test="runs", n=n) for n in (3, 5, 9)] + [c(X, test="runs", n=30, free=list(range(6)), seed="01"), c(X, test="spectral", n=30, free=[0, 1, 2], seed="01")]
    + [c(X, test="frequency_within_block", n=n, dof=n // b, kw={"blocksize": b}) for n, b in ((9, 2), (8, 3), (11, 4), (8, 1))]
    + [c(X, test="frequency_within_block", n=8, dof=1), c(X, test="frequency_within_block", n=19, dof=2, free=list(range(10)))]
    + [c(X, test="spectral", n=n) for n in (4, 6, 7)]
    + [c(X, test="binary_matrix_rank", n=9, dof=2), c(X, test="binary_matrix_rank", n=12, dof=2, kw={"matrix_dimen": (2, 3)}), c(X, test="binary_matrix_rank", n=9, dof=2, kw={"matrix_dimen": (1, 2)})]
    + [c(X, test="approximate_entropy", n=5, dof=2 ** b, kw={"blocksize": b}) for b in (1, 2, 3)]
    + [c(X, test="approximate_entropy", n=6, dof=4)]
    + [c(X, test="linear_complexity", n=8, dof=6), c(X, test="linear_complexity", n=9, dof=6, kw={"blocksize": 4})]
    + [c(X, test="maurers_universal", n=n) for n in (4, 6, 8)]
    + [c(X, test="maurers_universal", n=9, kw={"blocksize": 2, "init_nblocks": 2})]
    + [c(X, test="overlapping_template_matching", n=n, dof=d, kw=kw) for n, d, kw in ((10, 5, None), (10, 2, {"template_size": 2, "blocksize": 5, "matches_ceil": 2}), (12, 3, {"template_size": 2, "blocksize": 6, "matches_ceil": 3}))]
    + [c(X, test="longest_runs", n=128, dof=3, free=list(range(8))), c(X, test="longest_runs", n=6272, dof=5, free=list(range(128, 136))), c(X, test="longest_runs", n=128, dof=3, free=list(range(8)), seed="01"), c(X, test="longest_runs", n=128, dof=3, free=list(range(16)), seed="0000111")],
    thorough=[c(X, t=300, test=t, n=n) for t in ("monobit", "runs", "spectral") for n in (10, 14)]
    + [c(X, t=300, test="frequency_within_block", n=n, dof=n // b, kw={"blocksize": b}) for n, b in ((16, 4), (15, 5), (20, 7))]
    + [c(X, t=300, test="binary_matrix_rank", n=16, dof=2), c(X, t=300, test="linear_complexity", n=12, dof=6), c(X, t=300, test="maurers_universal", n=12), c(X, t=300, test="overlapping_template_matching", n=16, dof=5)]
    + [c(X, t=300, test="longest_runs", n=130, dof=3, free=list(range(40, 60)))],
    bounds="the ten tests that plot a reference distribution, at lengths 2-12 with every sequence, 19, 128 and 6272 with 8-10 symbolic bits, default and explicit parameters; four of the fifty drawn points of each curve",
    outside="longer sequences, other parameters; how the chart is drawn from its data",
    assumptions=["stand-ins replace the charts of altair and the frames of pandas in symbolic runs (harness/altstub.py, harness/framestub.py), compared with the libraries themselves on sampled inputs", "the densities are left uninterpreted where the statistic takes too many values to tabulate them"],
)

F = "parsing:"
CHECKS["C23"] = dict(
    quick=[c(F + "binary", n=n) for n in (0, 1, 2, 3, 5, 8, 16, 32)]
    + [c(F + "binary", n=n, fixed=f) for n, f in ((1, (0,)), (1, (255, 255)), (2, (0, 255, 17, 10, 13)), (2, tuple(range(256))), (1, (85,) * 1030), (1, tuple(i * 7 % 256 for i in range(4100))), (1, (0,) * 8200))]
    + [c(F + "binary", t=200, n=1, more=66000)],
    thorough=[c(F + "binary", t=300, n=n) for n in (64, 128, 256)] + [c(F + "binary", t=600, n=8, more=k) for k in (8192, 65536, 1 << 18)],
    bounds="every content of files of 0-32 bytes; files of up to 66001 bytes with 1 or 2 symbolic leading bytes and fixed ones after them (thorough: 256 symbolic bytes, files of 256 kB)",
    outside="longer files; errors of the operating system while reading",
    assumptions=["the file is a stand-in holding symbolic bytes (harness/filestub.py); sampled contents are read from a real file by the real code"],
)

CHECKS["C24"] = dict(
    quick=[c(F + "text", n=n, alphabet=a) for n in (2, 5) for a in ("bits", "bits, missing", "three", "three, missing", "one", "one, missing", "letters", "letters, missing", "words", "floats", "negative", "similar", "booleans", "booleans, missing")]
    + [c(F + "text", n=1, alphabet=a) for a in ("bits", "letters, missing")]
    + [c(F + "text", n=n, alphabet=a, ncols=k) for n, a, k in ((1, "bits", 2), (3, "bits", 2), (3, "letters, missing", 3), (4, "three, missing", 2), (2, "one", 2), (4, "one, missing", 2))]
    + [c(F + "text", n=12, alphabet="three, missing"), c(F + "text", n=20, alphabet="bits"), c(F + "text", n=9, alphabet="words")],
    thorough=[c(F + "text", t=300, n=n, alphabet=a) for n in (16, 40) for a in ("bits", "three, missing", "letters, missing", "words")] + [c(F + "text", t=300, n=8, alphabet="three, missing", ncols=3)],
    bounds="every table of 1-5 rows (12 and 20 for some) over fourteen sets of at most three values with and without missing ones, in one column; 1-4 rows in 2 or 3 columns; thorough: up to 40 rows",
    outside="how pandas splits a text into cells and recognises numbers and missing values: the parsed table is the input; mixtures of numbers and texts",
    assumptions=["pandas.read_csv is a stand-in returning the table (psx/models.py, harness/framestub.py); sampled tables are written to a real file and read by the real code"],
)

S = "summary:"
CHECKS["C26"] = dict(
    quick=[c(S + "verdicts", kinds=k) for k in ("d", "ddded", "????", "s", "ssmesmsssseesms", "mmmmmmmmmmmmmmm", "eeeeeeeeeeeeeee", "sssssssssssssss", "")]
    + [c(S + "verdicts", kinds=k, reread=True) for k in ("smsssssmsm", "sssssssssssssmm", "m")]
    + [c(S + "shown_value", lo=0, hi=0.04), c(S + "shown_value", lo=0.96, hi=1)]
    + [
        c(S + "of_tests", n=5, names=["monobit", "runs", "cusum", "serial", "random_excursions_variant", "binary_matrix_rank", "approximate_entropy", "longest_runs"]),
        c(S + "of_tests", n=4, names=["frequency_within_block", "non_overlapping_template_matching", "overlapping_template_matching", "maurers_universal", "linear_complexity", "random_excursions", "spectral"]),
    ],
    thorough=[c(S + "verdicts", t=300, kinds="??????"), c(S + "verdicts", t=300, kinds="sssssssss??????"), c(S + "shown_value", t=300, lo=0, hi=1)]
    + [c(S + "of_tests", t=600, n=n, names=["monobit", "runs", "cusum", "frequency_within_block", "binary_matrix_rank", "random_excursions_variant"]) for n in (7, 9)],
    bounds="every p-value in [0, 1] of every single-result test, in every mixture of results, errors and multi-results of the first four tests and seven mixtures of all fifteen, for fresh and stored results; the displayed value for every p-value in [0, 0.04] and [0.96, 1] (thorough: [0, 1]); results of the tests themselves on every sequence of 4 or 5 bits",
    outside="the layout rich gives to the table; results of other classes; the text of a p-value is left opaque except in shown_value",
    assumptions=[RICH],
)

Q = "printed:"
CHECKS["C39"] = dict(
    quick=[
        c(Q + f, test=t, n=n, kw=kw, fork=True, t=90, **k)
        for f, t, n, kw, k in (
            ("single", "monobit", 5, None, {}),
            ("single", "monobit", 4, None, {}),
            ("single", "runs", 5, None, {}),
            ("single", "spectral", 7, None, {}),
            ("single", "spectral", 8, None, {}),
            ("single", "frequency_within_block", 8, {"blocksize": 3}, {}),
            ("single", "overlapping_template_matching", 10, {"template_size": 2, "blocksize": 5, "matches_ceil": 2}, {}),
            ("single", "cusum", 6, None, {}),
            ("single", "longest_runs", 128, None, dict(free=list(range(8)))),
            ("single", "longest_runs", 6272, None, dict(free=list(range(4)), seed="0011")),
            ("single", "binary_matrix_rank", 9, None, {}),
            ("single", "binary_matrix_rank", 9, {"matrix_dimen": (3, 3)}, {}),
            ("single", "linear_complexity", 8, {"blocksize": 4}, {}),
            ("single", "maurers_universal", 9, {"blocksize": 2, "init_nblocks": 2}, {}),
            ("single", "approximate_entropy", 4, {"blocksize": 2}, {}),
            ("several", "serial", 5, {"blocksize": 2}, dict(free=[0, 1, 2])),
            ("several", "random_excursions", 4, None, {}),
            ("several", "random_excursions_variant", 4, None, {}),
            ("several", "non_overlapping_template_matching", 8, {"template_size": 2, "blocksize": 4}, {}),
        )
    ],
    thorough=[
        c(Q + f, test=t, n=n, kw=kw, fork=True, t=600, **k)
        for f, t, n, kw, k in (
            ("single", "monobit", 8, None, {}),
            ("single", "runs", 7, None, {}),
            ("single", "frequency_within_block", 12, {"blocksize": 4}, {}),
            ("single", "overlapping_template_matching", 12, {"template_size": 2, "blocksize": 6, "matches_ceil": 3}, {}),
            ("single", "longest_runs", 128, None, dict(free=list(range(60, 69)))),
            ("single", "binary_matrix_rank", 12, {"matrix_dimen": (2, 3)}, {}),
            ("several", "random_excursions", 5, None, {}),
            ("several", "random_excursions_variant", 6, None, {}),
        )
    ],
    bounds="all fifteen tests, every sequence of 4-10 bits (longest_runs: 128 and 6272 bits with 8 and 4 symbolic ones; serial: 5 bits with 3 symbolic ones), one or two choices of parameters each; thorough: lengths up to 12",
    outside="longer sequences and other parameters; the layout rich gives to the tables and lists",
    assumptions=[RICH],
)

H = "charts:chart"
CHECKS["C40"] = dict(
    quick=[
        c(H, test=t, n=n, kw=kw, fork=True, t=90, **k)
        for t, n, kw, k in (
            ("monobit", 4, None, {}),
            ("monobit", 5, None, {}),
            ("frequency_within_block", 8, {"blocksize": 3}, {}),
            ("frequency_within_block", 8, {"blocksize": 4}, {}),
            ("longest_runs", 128, None, dict(free=list(range(8)))),
            ("longest_runs", 6272, None, dict(free=list(range(4)), seed="0011")),
            ("binary_matrix_rank", 9, None, {}),
            ("binary_matrix_rank", 9, {"matrix_dimen": (3, 3)}, {}),
            ("spectral", 6, None, {}),
            ("spectral", 7, None, {}),
            ("overlapping_template_matching", 10, {"template_size": 2, "blocksize": 5, "matches_ceil": 2}, {}),
            ("linear_complexity", 8, {"blocksize": 4}, {}),
            ("approximate_entropy", 5, {"blocksize": 2}, {}),
            ("cusum", 6, None, {}),
            ("cusum", 6, {"reverse": True}, {}),
            ("random_excursions", 6, None, {}),
            ("random_excursions_variant", 6, None, {}),
        )
    ],
    thorough=[
        c(H, test=t, n=n, kw=kw, fork=True, t=600, **k)
        for t, n, kw, k in (
            ("monobit", 12, None, {}),
            ("frequency_within_block", 15, {"blocksize": 5}, {}),
            ("longest_runs", 128, None, dict(free=list(range(60, 69)))),
            ("binary_matrix_rank", 12, {"matrix_dimen": (2, 3)}, {}),
            ("spectral", 8, None, {}),
            ("overlapping_template_matching", 12, {"template_size": 2, "blocksize": 6, "matches_ceil": 3}, {}),
            ("approximate_entropy", 6, {"blocksize": 2}, {}),
            ("cusum", 10, None, {}),
            ("cusum", 10, {"reverse": True}, {}),
            ("random_excursions", 8, None, {}),
            ("random_excursions_variant", 8, None, {}),
        )
    ],
    bounds="the eleven charts of data, every sequence of 4-10 bits (longest_runs: 128 and 6272 bits with 8 and 4 symbolic ones), one or two choices of parameters each; thorough: lengths up to 15",
    outside="longer sequences and other parameters; how Altair and Vega draw the data; titles and axis labels",
    assumptions=["stand-ins replace the charts of altair and the frames of pandas in symbolic runs (harness/altstub.py, harness/framestub.py), compared with the libraries themselves on sampled inputs"],
)

V = "storage:stored"
PICKLE = "pickle is replaced in symbolic runs by a copy made according to its protocol (reduce, getnewargs, getstate, setstate; psx/models.py); sampled results are stored and loaded with pickle itself"
CHECKS["C37"] = dict(
    quick=[
        c(V, tests=["monobit", "runs", "spectral", "cusum"], n=7, fork=True),
        c(V, tests=["cusum"], n=6, kw={"reverse": True}, fork=True),
        c(V, tests=["random_excursions"], n=7, fork=True),
        c(V, tests=["random_excursions_variant"], n=7, fork=True),
        c(V, tests=["binary_matrix_rank", "frequency_within_block"], n=8, fork=True),
        c(V, tests=["frequency_within_block"], n=9, kw={"blocksize": 3}, fork=True),
        c(V, tests=["linear_complexity", "maurers_universal"], n=8, fork=True),
        c(V, tests=["overlapping_template_matching"], n=8, fork=True),
        c(V, tests=["non_overlapping_template_matching"], n=8, fork=True),
        c(V, tests=["non_overlapping_template_matching"], n=9, kw={"template_size": 3, "blocksize": 4}, fork=True),
        c(V, tests=["serial"], n=5, kw={"blocksize": 2}, fork=True),
        c(V, tests=["approximate_entropy"], n=5, kw={"blocksize": 2}, fork=True),
        c(V, tests=["approximate_entropy"], n=6, kw={"blocksize": 1}, fork=True),
        c(V, tests=["longest_runs"], n=128, free=list(range(6)), fork=True),
        c(V, tests=["longest_runs", "monobit", "linear_complexity", "binary_matrix_rank", "runs"], n=128, free=list(range(3)), fork=True),
        c(V, tests=["random_excursions_variant", "serial", "monobit", "approximate_entropy", "cusum", "frequency_within_block"], n=8, free=[0, 3], fork=True),
        c(V, tests=[], n=3, fork=True),
        c(V, tests=["runs"], n=5, earlier=[], fork=True),
        c(V, tests=["monobit"], n=5, earlier=["monobit", "runs"], fork=True),
        c(V, tests=[], n=4, earlier=["cusum"], fork=True),
    ],
    thorough=[
        c(V, tests=["monobit", "runs", "spectral", "cusum"], n=9, fork=True, t=300),
        c(V, tests=["random_excursions"], n=9, fork=True, t=300),
        c(V, tests=["random_excursions_variant"], n=9, fork=True, t=300),
        c(V, tests=["binary_matrix_rank", "frequency_within_block", "linear_complexity"], n=10, fork=True, t=300),
        c(V, tests=["longest_runs"], n=128, free=list(range(60, 70)), fork=True, t=300),
        c(V, tests=["serial", "approximate_entropy", "longest_runs", "spectral", "non_overlapping_template_matching"], n=140, free=[0, 60], fork=True, t=300),
    ],
    bounds="results of all fifteen tests on every sequence of 4-9 bits (longest_runs: 128 bits with 6 symbolic ones), stored alone or with others, in a new file or in place of earlier results; thorough: lengths up to 10, and 140 with 2 symbolic bits",
    outside="longer sequences; the byte format of pickle and of the pandas and numpy objects in the results; files damaged or written by other versions",
    assumptions=[PICKLE],
)

K = "commands:"
CHECKS["C41"] = dict(
    quick=[
        c(K + "run", binary=True, content=1, fork=True),
        c(K + "run", binary=True, content=1, earlier=True, fork=True),
        c(K + "run", binary=True, content=0, fork=True),
        c(K + "run", binary=True, content=1, more=[0x41 + 7 * i for i in range(20)], fork=True),
        c(K + "run", binary=True, content=1, more=[255] * 5, fork=True),
        c(K + "run", binary=False, content=(3, [0, 1, 2], 1), which=[0, 6], fork=True),
        c(K + "run", binary=False, content=(4, [-1, 3], 1), which=[1, 13], shift=2, fork=True),
        c(K + "run", binary=False, content=(3, ["a", "b", float("nan")], 1), which=[14], fork=True),
        c(K + "run", binary=False, content=(3, [0, 1, float("nan")], 1), earlier=True, fork=True),
        c(K + "run", binary=False, content=(2, [0, 1], 2), fork=True),
        c(K + "run", binary=False, content=(2, [4, 5], 1), which=list(range(7)), fork=True),
        c(K + "run", binary=False, content=(2, [4, 5], 1), which=list(range(8, 15)), shift=1, fork=True),
        c(K + "run", binary=False, content=(2, [4, 5], 1), which=list(range(0, 15, 2)), shift=3, fork=True),
        c(K + "read", which=[0, 4, 5, 9], fork=True),
        c(K + "read", which=[1, 2, 3, 14, 13], n=3, fork=True),
        c(K + "example", n=5, fork=True),
        c(K + "example", n=4, generator="Mersenne", which=[0, 4, 14], fork=True),
        c(K + "example", n=2, generator="Mersenne", which=[1, 5, 8, 13], shift=1, fork=True),
    ]
    + [c(K + "example", n=3, which=list(range(15)), test=t, shift=i, generator=("Python", "Mersenne")[i % 2], fork=True) for i, t in enumerate(TESTS + ("longest_runs",))],
    thorough=[c(K + "run", binary=False, content=(4, [0, 1, 2, float("nan")], 1), which=[0, 7, 9], fork=True, max_paths=20000, t=600), c(K + "run", binary=False, content=(2, [4, 5], 1), which=list(range(11)), fork=True, max_paths=20000, t=800), c(K + "example", n=8, which=[3, 7], fork=True, t=300)],
    bounds="run: every binary file of 0 or 1 bytes, every text table of 2-4 rows over seven sets of values in one or two columns, every subset of up to 8 tests failing with every class of test error, with and without earlier results; read: results of every subset of up to 5 tests; example-run: every sequence of 2-5 bits, both generators, every subset of up to 4 tests failing, each of the fifteen tests alone; thorough: subsets of 11 tests",
    outside="the results themselves (C01-C15): stand-ins take the place of the tests; the parsing of command lines by click; default file names; longer files",
    assumptions=[RICH, PICKLE, "files are stand-ins holding symbolic contents (harness/filestub.py), replaced by real ones in the runs with sampled inputs"],
)

J = "document:"
CHECKS["C38"] = dict(
    quick=[c(J + "monobit", tests=["monobit"], n=n, fork=True) for n in (2, 3, 4, 5, 6)]
    + [
        c(J + "monobit", tests=["runs", "monobit", "cusum"], n=5, fork=True),
        c(J + "monobit", tests=["runs", "spectral"], n=5, fork=True),
        c(J + "monobit", tests=[], n=2, fork=True),
        c(J + "monobit", tests=["monobit", "runs"], n=200, free=[0, 1, 2, 3, 4], fork=True),
        c(J + "monobit", tests=["monobit"], n=150, free=[0, 1, 2, 3, 4], seed="01", fork=True),
        c(J + "monobit", tests=["monobit"], n=300, free=[0, 1, 2, 3], seed="0011110", fork=True),
        c(J + "monobit", tests=["monobit"], n=4, command=True, fork=True),
        c(J + "monobit", tests=["runs", "monobit", "cusum"], n=5, command=True, fork=True),
        c(J + "monobit", tests=["spectral"], n=4, command=True, fork=True),
        c(J + "sections", have=[0, 1, 2, 3], which=[0, 1, 2, 3], fork=True),
        c(J + "sections", have=[0, 5, 9, 14], which=[0, 4, 9, 14, 10], fork=True),
        c(J + "sections", have=[4, 12], which=[2, 4, 6, 8, 12], fork=True),
    ],
    thorough=[c(J + "monobit", tests=["monobit"], n=10, fork=True, t=300), c(J + "sections", have=[0, 3, 7, 11, 12], which=[0, 3, 7, 9, 11, 12], fork=True, t=600)],
    bounds="the section of the monobit test (the only one there is now) for every sequence of 2-6 bits, and of 150, 200 and 300 with 4 or 5 symbolic ones, from the function and for 4 and 5 bits from the report command; the sequence of sections for every subset of up to 5 results and every subset of up to 4 templates; thorough: 10 bits, 6 results and 5 templates",
    outside="the JSON of the charts (C31, C40 decide their data) and how Vega draws them; other templates than the current ones, as far as their wording goes",
    assumptions=["a stand-in renders the current templates, parsed by jinja2 itself, in symbolic runs (harness/jinjastub.py); sampled documents are rendered by jinja2", RICH],
)

# ---------------------------------------------------------------------------
NOT_APPLICABLE = {}
