"""SP800-22 rev. 1a, section 2 and 3, written from its definitions.

Every function takes a list of 0/1 integers (1 = heads) and explicit
parameters.
"""
from itertools import product
from math import ceil
from math import comb
from math import cos
from math import erfc
from math import exp
from math import factorial
from math import floor
from math import log
from math import log2
from math import pi
from math import sin
from math import sqrt

from scipy.special import gammaincc
from scipy.special import ndtr


def split(bits, size):
    """the whole blocks, the remainder is discarded"""
    return [bits[i * size : (i + 1) * size] for i in range(len(bits) // size)]


def chisquare(observed, expected, df):
    stat = 0
    for o, e in zip(observed, expected):
        stat = stat + (o - e) ** 2 / e
    return stat, gammaincc(df / 2, stat / 2)


# 2.1 ------------------------------------------------------------------------
def monobit(bits):
    n = len(bits)
    s = sum(2 * b - 1 for b in bits)
    stat = abs(s) / sqrt(n)
    return stat, erfc(stat / sqrt(2))


# 2.2 ------------------------------------------------------------------------
def frequency_within_block(bits, M):
    counts = [sum(block) for block in split(bits, M)]
    stat = 4 * M * sum((c / M - 1 / 2) ** 2 for c in counts)
    return stat, gammaincc(len(counts) / 2, stat / 2), counts


# 2.3 ------------------------------------------------------------------------
def runs(bits):
    n = len(bits)
    ones = sum(bits)
    v = 1 + sum(bits[i] ^ bits[i + 1] for i in range(n - 1))
    q = ones / n
    p = erfc(abs(v - 2 * n * q * (1 - q)) / (2 * sqrt(2 * n) * q * (1 - q)))
    return v, p


# 2.4 ------------------------------------------------------------------------
LONGEST = {
    8: (16, 1, [0.2148, 0.3672, 0.2305, 0.1875]),
    128: (49, 4, [0.1174, 0.2430, 0.2493, 0.1752, 0.1027, 0.1124]),
    10000: (75, 10, [0.0882, 0.2092, 0.2483, 0.1933, 0.1208, 0.0675, 0.0727]),
}


def longest_blocksize(n):
    if n < 6272:
        return 8
    if n < 750000:
        return 128
    return 10000


def run_at_least(block, k):
    """whether the block holds k consecutive ones"""
    return any(all(block[i : i + k]) for i in range(len(block) - k + 1))


def longest_runs(bits):
    M = longest_blocksize(len(bits))
    N, low, probs = LONGEST[M]
    K = len(probs) - 1
    at_least = [0] * K  # blocks whose longest run is at least low + 1, low + 2, ...
    for block in split(bits, M)[:N]:
        for k in range(K):
            at_least[k] = at_least[k] + (1 if run_at_least(block, low + 1 + k) else 0)
    counts = [N - at_least[0]]
    for k in range(1, K):
        counts.append(at_least[k - 1] - at_least[k])
    counts.append(at_least[K - 1])
    stat, p = chisquare(counts, [N * q for q in probs], K)
    return stat, p, counts


# 2.5 ------------------------------------------------------------------------
def rank(rows):
    """rank over GF(2) by elimination, column by column"""
    rows = [list(r) for r in rows]
    nrows, ncols = len(rows), len(rows[0])
    free = [1] * nrows  # rows that hold no pivot yet
    r = 0
    for c in range(ncols):
        found = 0
        pivot = [0] * ncols
        for i in range(nrows):
            take = free[i] & rows[i][c] & (1 ^ found)
            for j in range(ncols):
                pivot[j] = pivot[j] | (take & rows[i][j])
            free[i] = free[i] & (1 ^ take)
            found = found | take
        for i in range(nrows):
            hit = free[i] & rows[i][c] & found
            for j in range(ncols):
                rows[i][j] = rows[i][j] ^ (hit & pivot[j])
        r = r + found
    return r


def matrix(bits, nrows, ncols):
    full = rest = runnerup = 0
    best = min(nrows, ncols)
    blocks = split(bits, nrows * ncols)
    for block in blocks:
        r = rank(split(block, ncols))
        full = full + (1 if r == best else 0)
        runnerup = runnerup + (1 if r == best - 1 else 0)
        rest = rest + (1 if r < best - 1 else 0)
    N = len(blocks)
    counts = [rest, runnerup, full]
    stat, p = chisquare(counts, [0.1336 * N, 0.5776 * N, 0.2888 * N], 2)
    return stat, p, counts


# 2.6 ------------------------------------------------------------------------
def spectral_below(bits, n):
    """how many of the first half of the moduli lie below sqrt(n ln 20)"""
    m = len(bits)
    limit = n * log(20)
    below = 0
    for k in range(m // 2):
        re = sum((2 * bits[j] - 1) * cos(2 * pi * j * k / m) for j in range(m))
        im = sum((2 * bits[j] - 1) * sin(2 * pi * j * k / m) for j in range(m))
        below = below + (1 if re * re + im * im < limit else 0)
    return below


def spectral(bits):
    n = len(bits)
    below = spectral_below(bits if n % 2 == 0 else bits[:-1], n)
    d = (below - 0.95 * n / 2) / sqrt(n * 0.95 * 0.05 / 4)
    return d, erfc(abs(d) / sqrt(2)), below


def squared_magnitudes(bits):
    """squared moduli of the first half of the discrete Fourier transform of the +1/-1 sequence"""
    m = len(bits) - len(bits) % 2
    out = []
    for k in range(m // 2):
        re = sum((2 * bits[j] - 1) * cos(2 * pi * j * k / m) for j in range(m))
        im = sum((2 * bits[j] - 1) * sin(2 * pi * j * k / m) for j in range(m))
        out.append(re * re + im * im)
    return out


# 2.7 ------------------------------------------------------------------------
def scan(block, template):
    """non-overlapping occurrences found from the left"""
    m = len(template)
    busy = 0  # positions still covered by the last match
    count = 0
    covered = [0] * (len(block) + m)
    for i in range(len(block) - m + 1):
        hit = 1
        for j in range(m):
            hit = hit & (1 ^ block[i + j] ^ template[j])
        hit = hit & (1 ^ covered[i])
        count = count + hit
        for j in range(1, m):
            covered[i + j] = covered[i + j] | hit
    return count


def non_overlapping(bits, m, M):
    """per template: statistic, p-value and the counts of every block"""
    blocks = split(bits, M)
    mean = (M - m + 1) / 2 ** m
    var = M * (1 / 2 ** m - (2 * m - 1) / 2 ** (2 * m))
    out = {}
    for template in product([0, 1], repeat=m):
        counts = [scan(block, template) for block in blocks]
        stat = sum((c - mean) ** 2 / var for c in counts)
        out[template] = (stat, gammaincc(len(blocks) / 2, stat / 2), counts)
    return out


# 2.8 ------------------------------------------------------------------------
def overlapping_probabilities(m, M, K):
    """P(U = u) for u < K and P(U >= K); section 3.8"""
    eta = (M - m + 1) / 2 ** m / 2
    out = [exp(-eta)]
    for u in range(1, K):
        out.append(exp(-eta) / 2 ** u * sum(comb(u - 1, l - 1) * eta ** l / factorial(l) for l in range(1, u + 1)))
    out.append(1 - sum(out))
    return out


def overlapping(bits, m, M, K):
    blocks = split(bits, M)
    N = len(blocks)
    tallies = [0] * (K + 1)
    for block in blocks:
        hits = sum(1 if all(block[i : i + m]) else 0 for i in range(M - m + 1))
        for u in range(K):
            tallies[u] = tallies[u] + (1 if hits == u else 0)
        tallies[K] = tallies[K] + (1 if hits >= K else 0)
    expected = [N * q for q in overlapping_probabilities(m, M, K)]
    stat, p = chisquare(tallies, expected, K)
    return stat, p, tallies, expected


# 2.9 ------------------------------------------------------------------------
UNIVERSAL = {
    1: (0.7326495, 0.690), 2: (1.5374383, 1.338), 3: (2.4016068, 1.901), 4: (3.3112247, 2.358),
    5: (4.2534266, 2.705), 6: (5.2177052, 2.954), 7: (6.1962507, 3.125), 8: (7.1836656, 3.238),
    9: (8.1764248, 3.311), 10: (9.1723243, 3.356), 11: (10.170032, 3.384), 12: (11.168765, 3.401),
    13: (12.168070, 3.410), 14: (13.167693, 3.416), 15: (14.167488, 3.419), 16: (15.167379, 3.421),
}


def universal(bits, L, Q):
    blocks = split(bits, L)
    K = len(blocks) - Q
    total = 0
    for i in range(Q, len(blocks)):
        dist = i + 1
        for d in range(i, 0, -1):  # the nearest earlier equal block wins
            if blocks[i - d] == blocks[i]:
                dist = d
        total = total + log2(dist)
    mean, var = UNIVERSAL[L]
    stat = total / K
    return stat, erfc(abs(stat - mean) / sqrt(2 * var))


# 2.10 -----------------------------------------------------------------------
def generated(s, c):
    """whether the register with taps c generates the rest of s from its start"""
    L = len(c)
    return all(sum(c[i] * s[j - 1 - i] for i in range(L)) % 2 == s[j] for j in range(L, len(s)))


def linear_complexity_by_search(s):
    """length of the shortest register, by trying every one"""
    n = len(s)
    best = n
    for L in range(n - 1, -1, -1):
        if any(generated(s, c) for c in product([0, 1], repeat=L)):
            best = L
    return best


def solvable(s, L):
    """whether some register of length L generates s: the linear system

        c_1 s_(j-1) + ... + c_L s_(j-L) = s_j    for j = L .. n-1

    has a solution, i.e. appending the right-hand side does not raise the rank
    """
    n = len(s)
    if L >= n:
        return True
    if L == 0:
        return not any(s)
    rows = [[s[j - 1 - i] for i in range(L)] for j in range(L, n)]
    ext = [row + [s[L + k]] for k, row in enumerate(rows)]
    return rank(rows) == rank(ext)


def linear_complexity_of(s):
    n = len(s)
    best = n
    for L in range(n - 1, -1, -1):
        if solvable(s, L):
            best = L
    return best


LC_PROBABILITIES = [0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625, 0.020833]


def lc_mean(M):
    return M / 2 + (9 + (-1) ** (M + 1)) / 36 - (M / 3 + 2 / 9) / 2 ** M


def lc_class(M, L):
    t = (-1) ** M * (L - lc_mean(M)) + 2 / 9
    for k, bound in enumerate([-2.5, -1.5, -0.5, 0.5, 1.5, 2.5]):
        if t <= bound:
            return k
    return 6


def linear_complexity(bits, M):
    counts = [0] * 7
    classes = [lc_class(M, L) for L in range(M + 1)]
    blocks = split(bits, M)
    for block in blocks:
        L = linear_complexity_of(block)
        for v in range(M + 1):
            k = classes[v]
            counts[k] = counts[k] + (1 if L == v else 0)
    stat, p = chisquare(counts, [len(blocks) * q for q in LC_PROBABILITIES], 6)
    return stat, p, counts


# 2.11 -----------------------------------------------------------------------
def patterns(bits, m):
    """how often each of the m-bit patterns occurs, cyclically"""
    n = len(bits)
    out = []
    for t in product([0, 1], repeat=m):
        c = 0
        for i in range(n):
            hit = 1
            for j in range(m):
                hit = hit & (1 ^ bits[(i + j) % n] ^ t[j])
            c = c + hit
        out.append(c)
    return out


def psi2(bits, m):
    n = len(bits)
    if m <= 0:
        return 0
    return 2 ** m / n * sum(c * c for c in patterns(bits, m)) - n


def serial(bits, m):
    a, b, c = psi2(bits, m), psi2(bits, m - 1), psi2(bits, m - 2)
    d1 = max(a - b, 0)
    d2 = max(a - 2 * b + c, 0)
    return (d1, gammaincc(2 ** (m - 2), d1 / 2)), (d2, gammaincc(2 ** (m - 3), d2 / 2))


# 2.12 -----------------------------------------------------------------------
def phi(bits, m):
    n = len(bits)
    table = [0] + [c / n * log(c / n) for c in range(1, n + 1)]
    return sum(table[c] for c in patterns(bits, m))


def approximate_entropy(bits, m):
    n = len(bits)
    stat = max(2 * n * (log(2) - (phi(bits, m) - phi(bits, m + 1))), 0.0)
    return stat, gammaincc(2 ** (m - 1), stat / 2)


# 2.13 -----------------------------------------------------------------------
def cusum_p(n, z):
    """series over every integer k within the limits of section 2.13.4"""
    k1, k2 = ceil((-n / z + 1) / 4), ceil((-n / z - 3) / 4)
    stop = floor((n / z - 1) / 4) + 1
    r = sqrt(n)
    first = sum(ndtr((4 * k + 1) * z / r) - ndtr((4 * k - 1) * z / r) for k in range(k1, stop))
    second = sum(ndtr((4 * k + 3) * z / r) - ndtr((4 * k + 1) * z / r) for k in range(k2, stop))
    return min(1 - first + second, 1.0)


def partial_sums(bits):
    s, out = 0, []
    for b in bits:
        s = s + 2 * b - 1
        out.append(s)
    return out


def cusum(bits, reverse):
    n = len(bits)
    z = 0
    for s in partial_sums(bits[::-1] if reverse else bits):
        z = max(z, abs(s))
    table = [None] + [cusum_p(n, k) for k in range(1, n + 1)]
    return z, table[z]


# 2.14 -----------------------------------------------------------------------
def excursion_probabilities(x):
    x = abs(x)
    stay = 1 - 1 / (2 * x)
    return [stay] + [stay ** (k - 1) / (4 * x * x) for k in range(1, 5)] + [stay ** 4 / (2 * x)]


def random_excursions(bits):
    """per state: statistic, p-value"""
    walk = partial_sums(bits) + [0]
    out = {}
    zeros = sum(1 if s == 0 else 0 for s in walk)
    for state in [-4, -3, -2, -1, 1, 2, 3, 4]:
        tallies = [0] * 6
        visits = 0
        for s in walk:
            back = 1 if s == 0 else 0
            for k in range(6):
                tallies[k] = tallies[k] + (back if visits == k else 0)
            visits = 0 if s == 0 else (min(visits + 1, 5) if s == state else visits)
        expected = [zeros * q for q in excursion_probabilities(state)]
        out[state] = chisquare(tallies, expected, 5)
    return out


# 2.15 -----------------------------------------------------------------------
def random_excursions_variant(bits):
    walk = partial_sums(bits)
    J = 1 + sum(1 if s == 0 else 0 for s in walk)
    out = {}
    for state in range(-9, 10):
        if state != 0:
            visits = sum(1 if s == state else 0 for s in walk)
            out[state] = (visits, erfc(abs(visits - J) / sqrt(2 * J * (4 * abs(state) - 2))))
    return out
