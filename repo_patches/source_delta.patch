From 129a9390172de865d13df1ec52dde44a3675aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 01/25] fix: random excursions visit probabilities sum to 1

The rounded probabilities differ from 1 by more than chisquare() tolerates, so
the test raised ValueError for every sequence.
---
 src/coinflip/_randtests/random_walk.py | 19 +++++++++----------
 src/coinflip/randtests_refimpl.py      | 15 ++++++---------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index c70ca96..9de29b5 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -119,16 +119,15 @@ class CusumTestResult(TestResult):
 states = [-4, -3, -2, -1, 1, 2, 3, 4]
 df = 5
 
-# TODO calculate these dynamically
-state_probabilities = {
-    1: [0.5000, 0.2500, 0.1250, 0.0625, 0.0312, 0.0312],
-    2: [0.7500, 0.0625, 0.0469, 0.0352, 0.0264, 0.0791],
-    3: [0.8333, 0.0278, 0.0231, 0.0193, 0.0161, 0.0804],
-    4: [0.8750, 0.0156, 0.0137, 0.0120, 0.0105, 0.0733],
-    5: [0.9000, 0.0100, 0.0090, 0.0081, 0.0073, 0.0656],
-    6: [0.9167, 0.0069, 0.0064, 0.0058, 0.0053, 0.0588],
-    7: [0.9286, 0.0051, 0.0047, 0.0044, 0.0041, 0.0531],
-}
+# Probabilities of visiting state x 0, 1, 2, 3, 4 and 5+ times within a cycle.
+# Rounded values do not sum to 1, which chisquare() rejects.
+def visit_probabilities(x):
+    unvisited = 1 - 1 / (2 * x)
+    visited = [unvisited ** (k - 1) / (4 * x ** 2) for k in range(1, 5)]
+    return [unvisited, *visited, unvisited ** 4 / (2 * x)]
+
+
+state_probabilities = {x: visit_probabilities(x) for x in range(1, 8)}
 
 
 @randtest()
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 17f2499..f58167e 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -421,15 +421,12 @@ def random_excursions(sequence: List[Literal[0, 1]]):
     states = [-4, -3, -2, -1, 1, 2, 3, 4]
     state_count_bins = {state: Bins(range(6)) for state in states}
 
-    state_probabilities = {
-        1: [0.5000, 0.2500, 0.1250, 0.0625, 0.0312, 0.0312],
-        2: [0.7500, 0.0625, 0.0469, 0.0352, 0.0264, 0.0791],
-        3: [0.8333, 0.0278, 0.0231, 0.0193, 0.0161, 0.0804],
-        4: [0.8750, 0.0156, 0.0137, 0.0120, 0.0105, 0.0733],
-        5: [0.9000, 0.0100, 0.0090, 0.0081, 0.0073, 0.0656],
-        6: [0.9167, 0.0069, 0.0064, 0.0058, 0.0053, 0.0588],
-        7: [0.9286, 0.0051, 0.0047, 0.0044, 0.0041, 0.0531],
-    }
+    # rounded values do not sum to 1, which chisquare() rejects
+    state_probabilities = {}
+    for x in range(1, 5):
+        unvisited = 1 - 1 / (2 * x)
+        visited = [unvisited ** (k - 1) / (4 * x ** 2) for k in range(1, 5)]
+        state_probabilities[x] = [unvisited, *visited, unvisited ** 4 / (2 * x)]
 
     oscillations = [bit if bit == 1 else -1 for bit in sequence]
     cusums = accumulate(oscillations)
-- 
2.43.0


From 670f0168dd64f0599f746cab7a373b0275f3e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 02/25] fix: expected linear complexity uses (-1) ** (blocksize
 + 1)

The sign was applied after the power, which gave the wrong mean for every odd
block size.
---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/randtests_refimpl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index ccf4936..646667d 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -69,7 +69,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
 
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index f58167e..a524e23 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -342,7 +342,7 @@ def linear_complexity(sequence: List[Literal[0, 1]], blocksize: int):
     probabilities = [0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625, 0.020833]
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
-- 
2.43.0


From 6b4f560fce2f8690c409a1dcb563ba54bbf80b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 03/25] fix: cusum series starts at the first integer within
 its limits

SP800-22 sums over the integers k between two bounds; rounding the lower bound
down added a term outside of them (the worked example in section 2.13.8 gives
0.4116588, the code gave 0.4115847).
---
 src/coinflip/_randtests/random_walk.py | 5 +++--
 src/coinflip/randtests_refimpl.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 9de29b5..70d6856 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -1,5 +1,6 @@
 from collections import Counter
 from dataclasses import dataclass
+from math import ceil
 from math import erfc
 from math import floor
 from math import sqrt
@@ -51,8 +52,8 @@ def cusum(series, heads, tails, ctx, reverse=False):
     advance_task(ctx)
 
     # TODO this all can be done more elegantly
-    start1 = floor((-n / max_cusum + 1) / 4)
-    start2 = floor((-n / max_cusum - 3) / 4)
+    start1 = ceil((-n / max_cusum + 1) / 4)
+    start2 = ceil((-n / max_cusum - 3) / 4)
     stop = floor((n / max_cusum - 1) / 4) + 1
     p = (
         1
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index a524e23..a47ba5f 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -2,6 +2,7 @@ from collections import Counter
 from collections import defaultdict
 from itertools import accumulate
 from itertools import product
+from math import ceil
 from math import erfc
 from math import floor
 from math import log
@@ -402,14 +403,14 @@ def cusum(sequence: List[Literal[0, 1]], reverse: bool = False):
             norm.cdf((4 * k + 1) * max_cusum / sqrt(n))
             - norm.cdf((4 * k - 1) * max_cusum / sqrt(n))
             for k in np.arange(
-                floor((-n / max_cusum + 1) / 4), floor((n / max_cusum - 1) / 4) + 1, 1
+                ceil((-n / max_cusum + 1) / 4), floor((n / max_cusum - 1) / 4) + 1, 1
             )
         )
         + sum(
             norm.cdf((4 * k + 3) * max_cusum / sqrt(n))
             - norm.cdf((4 * k + 1) * max_cusum / sqrt(n))
             for k in np.arange(
-                floor((-n / max_cusum - 3) / 4), floor((n / max_cusum - 1) / 4) + 1, 1
+                ceil((-n / max_cusum - 3) / 4), floor((n / max_cusum - 1) / 4) + 1, 1
             )
         )
     )
-- 
2.43.0


From 4c519c390f7425dab11cd4f8d1adabf14f47dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 04/25] fix: cusum p-value never exceeds 1

The truncated series overshoots 1 for short sequences (1.1 for n = 4).
---
 src/coinflip/_randtests/random_walk.py | 1 +
 src/coinflip/randtests_refimpl.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 70d6856..c45ffff 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -68,6 +68,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
             for k in np.arange(start2, stop, 1)
         )
     )
+    p = min(p, 1.0)  # the truncated series overshoots for very short sequences
 
     advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index a47ba5f..3450cd0 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -414,6 +414,7 @@ def cusum(sequence: List[Literal[0, 1]], reverse: bool = False):
             )
         )
     )
+    p = min(p, 1.0)  # the truncated series overshoots for very short sequences
 
     return max_cusum, p
 
-- 
2.43.0


From edc7b05c11f95e301cc31ff7a6439cd64d4fe509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 05/25] fix: non-overlapping template default block fits the
 sequence

Sequences shorter than 6 got no block at all, and a NaN p-value.
---
 src/coinflip/_randtests/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 328bf0f..8847cfa 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -53,7 +53,7 @@ def non_overlapping_template_matching(
     n = len(series)
 
     if not blocksize:
-        blocksize = max(ceil(0.01 * n), 6)
+        blocksize = min(max(ceil(0.01 * n), 6), n)
         if blocksize % 2 != 0:
             blocksize -= 1
     nblocks = n // blocksize
-- 
2.43.0


From b72045728942e92133fdbacc36776ad144780747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 06/25] fix: non-overlapping template matching slides its
 window

SP800-22 slides the window by one position, and past the template after a
match. The test only looked at every template_size-th position, the reference
implementation counted overlapping matches.
---
 src/coinflip/_randtests/template.py | 12 +++++++-----
 src/coinflip/randtests_refimpl.py   |  9 ++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 8847cfa..04fbb4d 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -28,7 +28,6 @@ from coinflip._randtests.common.result import make_chisquare_table
 from coinflip._randtests.common.result import make_testvars_table
 from coinflip._randtests.common.result import plot_chi2_dist
 from coinflip._randtests.common.testutils import blocks
-from coinflip._randtests.common.testutils import rawblocks
 from coinflip._randtests.common.testutils import slider
 from coinflip._randtests.common.typing import Face
 from coinflip._randtests.common.typing import Float
@@ -61,8 +60,8 @@ def non_overlapping_template_matching(
     if not template_size:
         template_size = max(min(blocksize // 3, 9), 2)
 
-    nblocks_sub = blocksize // template_size
-    set_task_total(ctx, 1 + nblocks * (nblocks_sub + 1) + 1)
+    nwindows = max(blocksize - template_size + 1, 0)
+    set_task_total(ctx, 1 + nblocks * (nwindows + 1) + 1)
 
     failures = check_recommendations(
         ctx,
@@ -85,9 +84,12 @@ def non_overlapping_template_matching(
     template_block_matches = defaultdict(lambda: defaultlist(int))
     for i, block in enumerate(blocks(series, blocksize)):
         matches = defaultdict(int)
+        next_pos = defaultdict(int)  # where each template can match again
 
-        for window_tup in rawblocks(block, template_size):
-            matches[window_tup] += 1
+        for pos, window_tup in enumerate(slider(block, template_size)):
+            if pos >= next_pos[window_tup]:
+                matches[window_tup] += 1
+                next_pos[window_tup] = pos + template_size
 
             advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 3450cd0..d825c21 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -196,11 +196,14 @@ def non_overlapping_template_matching(
     )
 
     template_block_matches = defaultdict(lambda: defaultlist(int))
-    for i, block in enumerate(chunked(sequence, blocksize)):
+    for i, block in enumerate(chunked(sequence[: nblocks * blocksize], blocksize)):
         matches = defaultdict(int)
+        next_pos = defaultdict(int)
 
-        for window in windowed(block, template_size):
-            matches[window] += 1
+        for pos, window in enumerate(windowed(block, template_size)):
+            if pos >= next_pos[window]:
+                matches[window] += 1
+                next_pos[window] = pos + template_size
 
         for template, matches in matches.items():
             template_block_matches[template][i] = matches
-- 
2.43.0


From f297be1068839588bdcd076c1160fe23f46b4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 07/25] fix: reference block frequency discards the incomplete
 block

---
 src/coinflip/randtests_refimpl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index d825c21..90fbcc0 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -63,9 +63,10 @@ def monobit(sequence: List[Literal[0, 1]]):
 def frequency_within_block(sequence: List[Literal[0, 1]], blocksize: int):
     n = len(sequence)
     nblocks = n // blocksize
+    trunc_sequence = sequence[: nblocks * blocksize]
 
     deviations = []
-    for block in chunked(sequence, blocksize):
+    for block in chunked(trunc_sequence, blocksize):
         ones = sum(1 for bit in block if bit == 1)
         prop = ones / blocksize
         dev = prop - 1 / 2
-- 
2.43.0


From 73dd6e3e9d6a8dc3ee2861cdb88c2055f86b0678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 08/25] fix: reference overlapping template probabilities
 depend on the parameters

They were fixed to the values for lambda = 2.
---
 src/coinflip/randtests_refimpl.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 90fbcc0..51280a8 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -4,6 +4,7 @@ from itertools import accumulate
 from itertools import product
 from math import ceil
 from math import erfc
+from math import exp
 from math import floor
 from math import log
 from math import log2
@@ -18,6 +19,7 @@ from more_itertools import split_at
 from more_itertools import windowed
 from scipy.fft import fft
 from scipy.special import gammaincc
+from scipy.special import hyp1f1
 from scipy.stats import chisquare
 from scipy.stats import norm
 from typing_extensions import Literal
@@ -232,7 +234,12 @@ def overlapping_template_matching(
     nblocks = n // blocksize
     trunc_sequence = sequence[: nblocks * blocksize]
 
-    probabilities = [0.367879, 0.183939, 0.137954, 0.099634, 0.069935, 0.140656]
+    eta = (blocksize - template_size + 1) / 2 ** template_size / 2
+    probabilities = [exp(-eta)]
+    for u in range(1, 5):
+        prob = ((eta * exp(-2 * eta)) / 2 ** u) * hyp1f1(u + 1, 2, eta)
+        probabilities.append(prob)
+    probabilities.append(1 - sum(probabilities))
     expected_tallies = [prob * nblocks for prob in probabilities]
 
     block_matches = []
-- 
2.43.0


From 4678761c71b5cb7c91d781ac7a46aed15ac7145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 09/25] fix: sequences with missing values are not binary

---
 src/coinflip/_randtests/common/core.py | 2 +-
 src/coinflip/cli/parsing.py            | 2 +-
 src/coinflip/cli/runner.py             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 8f985ac..3c7cc02 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -87,7 +87,7 @@ def randtest(min_n=2):
             else:
                 series = pd.Series(sequence)
 
-            if series.nunique() != 2:
+            if series.nunique() != 2 or series.isna().any():
                 raise NonBinarySequenceError()
 
             n = len(series)
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 795297d..8c4fcf5 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -57,7 +57,7 @@ def parse_text(data_file) -> pd.Series:
         raise MultipleColumnsError(ncols)
     series = df.iloc[:, 0]
 
-    if series.nunique() != 2:
+    if series.nunique() != 2 or series.isna().any():
         raise NonBinarySequenceError()
 
     series = series.infer_objects()
diff --git a/src/coinflip/cli/runner.py b/src/coinflip/cli/runner.py
index 1850e7e..6613e36 100644
--- a/src/coinflip/cli/runner.py
+++ b/src/coinflip/cli/runner.py
@@ -80,7 +80,7 @@ def binary_check(func):
 
     @wraps(func)
     def wrapper(series, *args, **kwargs):
-        if series.nunique() != 2:
+        if series.nunique() != 2 or series.isna().any():
             raise NonBinarySequenceError()
 
         return func(series, *args, **kwargs)
-- 
2.43.0


From 3e52d45415f7f86b4e4d7202d9a2478917317578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 10/25] fix: results do not depend on the index of the series

---
 src/coinflip/_randtests/common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 3c7cc02..bdbd5c7 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -83,7 +83,7 @@ def randtest(min_n=2):
         @wraps(func)
         def wrapper(sequence, ctx: Progress = None, **kwargs):
             if isinstance(sequence, pd.Series):
-                series = sequence
+                series = sequence.reset_index(drop=True)
             else:
                 series = pd.Series(sequence)
 
-- 
2.43.0


From 501ff4998a5f6568169e8a3b2278377ed58929f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 11/25] fix: Bins accepts one-shot iterables of intervals

---
 src/coinflip/_randtests/common/collections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 18a8eba..23aa1b0 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -56,6 +56,7 @@ class Bins(MutableMapping):
     """
 
     def __init__(self, intervals: Iterable[Real]):
+        intervals = tuple(intervals)
         counts = Counter(intervals)
         if any(count > 1 for count in counts.values()):
             raise ValueError("Duplicate intervals for binning were passed")
-- 
2.43.0


From 372615337e00c51ff6b5ad4915f383c36450be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 12/25] fix: number of omitted rows in the displayed sequence

---
 src/coinflip/cli/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/cli/pprint.py b/src/coinflip/cli/pprint.py
index ad733d0..16b83b0 100644
--- a/src/coinflip/cli/pprint.py
+++ b/src/coinflip/cli/pprint.py
@@ -114,7 +114,7 @@ def pretty_sequence(series, ncols) -> RenderGroup:
                 yield l_arrow + pretty_row(row) + r_arrow
                 yield border
 
-            omit_msg = f"..omitting {nrows - 10} rows.."
+            omit_msg = f"..omitting {nrows - 8} rows.."
             omit_gap = ncols // 2 - len(omit_msg) // 2
             omit_pad = "".join(" " for _ in range(omit_gap))
 
-- 
2.43.0


From 8ebc99ace0e6800ad138c883c1db3b3153de7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 13/25] fix: empty strings can be displayed

---
 src/coinflip/_randtests/common/pprint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index abbd1ca..8a941f9 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -39,9 +39,9 @@ def determine_rep(heads, tails) -> Tuple[str, str]:
     tails_rep : ``str``
         Character representation of the ``tails``
     """
-    heads_rep = str(heads)[0]
-    tails_rep = str(tails)[0]
-    if heads_rep == tails_rep:
+    heads_rep = str(heads)[:1]
+    tails_rep = str(tails)[:1]
+    if not heads_rep or not tails_rep or heads_rep == tails_rep:
         heads_rep = "1"
         tails_rep = "0"
 
-- 
2.43.0


From 3a142e649eb71c8da8e9e51d1cd247161f98ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 14/25] fix: plotted reference distributions use the test's
 degrees of freedom

---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/_randtests/entropy.py    | 2 +-
 src/coinflip/_randtests/matrix.py     | 2 +-
 src/coinflip/_randtests/runs.py       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index 646667d..caa4685 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -154,7 +154,7 @@ class LinearComplexityTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(self.variance_bins))
+        return plot_chi2_dist(self.statistic, len(self.variance_bins) - 1)
 
 
 def berlekamp_massey(sequence: Sequence[Literal[0, 1]]) -> int:
diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index 1ad45e4..dae0319 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -125,4 +125,4 @@ class ApproximateEntropyTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, 2 ** (self.blocksize - 1))
+        return plot_chi2_dist(self.statistic, 2 ** self.blocksize)
diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index e42c63a..816005e 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -185,7 +185,7 @@ class BinaryMatrixRankTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(fields(self.rankcounts)))
+        return plot_chi2_dist(self.statistic, len(fields(self.rankcounts)) - 1)
 
 
 def matrix_rank(matrix: Iterable[Iterable[Literal[0, 1]]]) -> Integer:
diff --git a/src/coinflip/_randtests/runs.py b/src/coinflip/_randtests/runs.py
index 47190cd..42272ec 100644
--- a/src/coinflip/_randtests/runs.py
+++ b/src/coinflip/_randtests/runs.py
@@ -255,7 +255,7 @@ class LongestRunsTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(self.maxlen_bins))
+        return plot_chi2_dist(self.statistic, len(self.maxlen_bins) - 1)
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 43663e67cf57e7ce3bb3b69cb71d099de933f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 15/25] fix: recommendations are judged by the condition they
 state

---
 src/coinflip/_randtests/matrix.py    | 2 +-
 src/coinflip/_randtests/template.py  | 2 +-
 src/coinflip/_randtests/universal.py | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index 816005e..7c81594 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -55,7 +55,7 @@ def binary_matrix_rank(
     failures = check_recommendations(
         ctx,
         {
-            "n ≥ 128": n >= 152,  # nblocks=38, blocksize=4
+            "n ≥ 152": n >= 152,  # nblocks=38, blocksize=4
             "n ≥ 38 * blocksize": n >= 38 * blocksize,
         },
     )
diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 04fbb4d..e2ca1b7 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -231,7 +231,7 @@ def overlapping_template_matching(
             "min(expected_tallies) > df": min(expected_tallies) > df,
             "λ ≈ 2": isclose(lambda_, 2),
             "len(template) ≈ log2(nblocks)": isclose(template_size, log2(nblocks)),
-            "df ≈ 2 * λ": isclose(template_size, 2 * lambda_),
+            "df ≈ 2 * λ": isclose(df, 2 * lambda_),
         },
     )
 
diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index e767f78..fc286a7 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -109,10 +109,10 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
         {
             "n ≥ 387840": n >= 387840,
             "6 ≤ blocksize ≤ 16": 6 <= blocksize <= 16,
-            "init_nblocks ≈ 10 * 2 ** segment_nblocks": intclose(
-                init_nblocks, 10 * 2 ** segment_nblocks
+            "init_nblocks ≈ 10 * 2 ** blocksize": intclose(
+                init_nblocks, 10 * 2 ** blocksize
             ),
-            "segment_nblocks ≈ ⌈n / blocksize⌉ - init_nblocks": isclose(
+            "segment_nblocks ≈ ⌊n / blocksize⌋ - init_nblocks": isclose(
                 segment_nblocks, floor(n / blocksize) - init_nblocks
             ),
         },
-- 
2.43.0


From b46f33b60a55308109374134313ef5c757d63460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 16/25] fix: progress totals match the steps advanced

---
 src/coinflip/_randtests/random_walk.py | 2 +-
 src/coinflip/_randtests/serial.py      | 3 ++-
 src/coinflip/_randtests/universal.py   | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index c45ffff..0acaf01 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -243,7 +243,7 @@ variant_states = [-9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9]
 def random_excursions_variant(series, heads, tails, ctx):
     n = len(series)
 
-    set_task_total(ctx, 4)
+    set_task_total(ctx, 3 + len(variant_states))
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 29b84d3..1b084b9 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -29,7 +29,8 @@ def serial(series, heads, tails, ctx, blocksize=None):
     if not blocksize:
         blocksize = max(floor(log2(n)) - 2 - 1, 2)
 
-    set_task_total(ctx, (1 + n) * 3 + 2)
+    nsizes = min(blocksize, 3)  # window sizes below 1 are skipped
+    set_task_total(ctx, (1 + n) * nsizes + 2)
 
     failures = check_recommendations(
         ctx, {"blocksize < ⌊log2(n) - 2⌋": blocksize < floor(log2(n)) - 2}
diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index fc286a7..f2b6823 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -152,6 +152,8 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
 
     advance_task(ctx)
 
+    advance_task(ctx)
+
     return UniversalTestResult(
         heads,
         tails,
-- 
2.43.0


From baf7e41b178e9d53842a621997aaf5b943a3c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 17/25] fix: overlapping template matching needs 4 elements

---
 src/coinflip/_randtests/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index e2ca1b7..8d7afe1 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -184,7 +184,7 @@ class NonOverlappingTemplateMatchingMultiTestResult(MultiTestResult):
 
 
 # TODO Review paper "Correction of OTM Test Included in the NIST Randomness Test Suite"
-@randtest()  # TODO appropiate min input
+@randtest(min_n=4)  # shorter blocks cannot hold the template
 def overlapping_template_matching(
     series,
     heads,
-- 
2.43.0


From 81d4ab9365cf146cc90ff05021be316137ebde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 18/25] fix: universal test honours each given parameter

---
 src/coinflip/_randtests/universal.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index f2b6823..d07816a 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -14,6 +14,7 @@ from typing import Tuple
 
 from coinflip._randtests.common.collections import FloorDict
 from coinflip._randtests.common.core import *
+from coinflip._randtests.common.core import MinimumInputError
 from coinflip._randtests.common.exceptions import TestNotImplementedError
 from coinflip._randtests.common.result import TestResult
 from coinflip._randtests.common.result import plot_halfnorm_dist
@@ -90,15 +91,20 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
 
     if not blocksize or not init_nblocks:
         try:
-            blocksize, init_nblocks = n_defaults[n]
+            defaults = n_defaults[n]
         except KeyError:
-            blocksize = min(max(ceil(log(n)), 2), 16)  # largest blocksize_dists key
-            nblocks = n // blocksize
-            init_nblocks = max(nblocks // 100, 1)
+            max_blocksize = 16  # largest blocksize_dists key
+            defaults_blocksize = min(max(ceil(log(n)), 2), max_blocksize)
+            nblocks = n // (blocksize or defaults_blocksize)
+            defaults = DefaultParams(defaults_blocksize, max(nblocks // 100, 1))
+        blocksize = blocksize or defaults.blocksize
+        init_nblocks = init_nblocks or defaults.init_nblocks
 
     init_n = init_nblocks * blocksize
     init_series, segment_series = series[:init_n], series[init_n:]
     segment_nblocks = (n - init_n) // blocksize
+    if segment_nblocks < 1:
+        raise MinimumInputError(n, init_n + blocksize)
 
     mean_expect, variance = blocksize_dists[blocksize]
 
-- 
2.43.0


From 6952bcc3fc65ccfb4ee66f8762498602d4f32940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 19/25] fix: approximate entropy of evenly spread patterns has
 a p-value

---
 src/coinflip/_randtests/entropy.py | 2 +-
 src/coinflip/randtests_refimpl.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index dae0319..2304411 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -64,7 +64,7 @@ def approximate_entropy(series, heads, tails, ctx, blocksize=None):
         advance_task(ctx)
 
     approx_entropy = phis[blocksize] - phis[blocksize + 1]
-    chi2 = 2 * n * (log(2) - approx_entropy)
+    chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)  # rounding can undershoot 0
     p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
 
     advance_task(ctx)
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 51280a8..2640c8a 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -391,7 +391,7 @@ def approximate_entropy(sequence: List[Literal[0, 1]], blocksize: int):
         phis.append(phi)
 
     approx_entropy = phis[0] - phis[1]
-    chi2 = 2 * n * (log(2) - approx_entropy)
+    chi2 = max(2 * n * (log(2) - approx_entropy), 0.0)  # rounding can undershoot 0
     p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
 
     return chi2, p
-- 
2.43.0


From 3de56e5c1fd1cf7cefa9ce39b4f98f0d4739ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 20/25] fix: default list slices and insertions follow list
 semantics

---
 src/coinflip/_randtests/common/collections.py | 111 ++++++------------
 1 file changed, 33 insertions(+), 78 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 23aa1b0..3fc53f4 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -5,7 +5,6 @@ from collections.abc import Mapping
 from collections.abc import MutableMapping
 from collections.abc import MutableSequence
 from functools import lru_cache
-from itertools import chain
 from numbers import Real
 from typing import Any
 from typing import Callable
@@ -166,41 +165,20 @@ class defaultlist(MutableSequence):
 
         elif isinstance(key, slice):
             values = list(value) if isinstance(value, Iterable) else [value]
-            nvalues = len(values)
-
             srange = self._determine_srange(key)
-            if srange:
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-            else:
-                srange_min = srange_max = srange.start
-
-            for i in srange:
-                try:
-                    del self._ddict[i]
-                except KeyError:
-                    pass
-
-            diff = nvalues - len(srange)
-            if diff:
-                keys = list(self._ddict.keys())
-
-                threshold = srange_min + nvalues
-                reindexed_subdict = {}
-
-                mid_keys = [k for k in keys if srange_min <= k < srange_max]
-                for i, k in enumerate(sorted(mid_keys), start=threshold):
-                    reindexed_subdict[i] = self._ddict[k]
-
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k + diff
-                    reindexed_subdict[i] = self._ddict[k]
 
-                self._ddict.update(reindexed_subdict)
+            if srange.step == 1:
+                self._delete_range(srange)
+                self._make_room(srange.start, len(values))
+                srange = range(srange.start, srange.start + len(values))
+            elif len(values) != len(srange):
+                raise ValueError(
+                    f"attempt to assign sequence of size {len(values)}"
+                    f" to extended slice of size {len(srange)}"
+                )
 
-            for i, v in enumerate(values, start=srange_min):
-                self[i] = v
+            for i, v in zip(srange, values):
+                self._ddict[i] = v
 
         else:
             defaultlist._raise_type_error(type(key))
@@ -208,49 +186,30 @@ class defaultlist(MutableSequence):
     def __delitem__(self, key: Union[int, slice]):
         if isinstance(key, int):
             i = self._actualise_index(key)
-            try:
-                del self._ddict[i]
-            except KeyError:
-                pass
-
-            larger_keys = [k for k in self._ddict.keys() if k > i]
-            reindexed_subdict = {k - 1: self._ddict[k] for k in larger_keys}
-            for k in larger_keys:
-                del self._ddict[k]
-            self._ddict.update(reindexed_subdict)
+            self._delete_range(range(i, i + 1))
 
         elif isinstance(key, slice):
-            srange = self._determine_srange(key)
-            if srange:
-                for i in srange:
-                    try:
-                        del self._ddict[i]
-                    except KeyError:
-                        pass
-
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-
-                reindexed_subdict = {}
-
-                mid_keys = [
-                    k for k in self._ddict.keys() if srange_min <= k < srange_max
-                ]
-                for i, k in enumerate(sorted(mid_keys), start=srange_min):
-                    reindexed_subdict[i] = self._ddict[k]
-
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k - len(srange)
-                    reindexed_subdict[i] = self._ddict[k]
-
-                for k in chain(mid_keys, larger_keys):
-                    del self._ddict[k]
-                self._ddict.update(reindexed_subdict)
+            self._delete_range(self._determine_srange(key))
 
         else:
             defaultlist._raise_type_error(type(key))
 
+    def _delete_range(self, srange: range):
+        """Remove every index of the range, closing the gaps it leaves"""
+        removed = srange if srange.step > 0 else srange[::-1]
+        kept = {k: v for k, v in self._ddict.items() if k not in srange}
+        self._ddict.clear()
+        for k, v in kept.items():
+            self._ddict[k - bisect_left(removed, k)] = v
+
+    def _make_room(self, i: int, size: int):
+        """Shift every index from i onwards to the right"""
+        larger_keys = [k for k in self._ddict.keys() if k >= i]
+        reindexed_subdict = {k + size: self._ddict[k] for k in larger_keys}
+        for k in larger_keys:
+            del self._ddict[k]
+        self._ddict.update(reindexed_subdict)
+
     def _actualise_index(self, key: int) -> int:
         if key >= 0:
             return key
@@ -267,12 +226,12 @@ class defaultlist(MutableSequence):
         step = slice_.step or 1
 
         if slice_.start is None:
-            start = 0 if step > 0 else len(self)
+            start = 0 if step > 0 else len(self) - 1
         else:
             start = self._actualise_index(slice_.start)
 
         if slice_.stop is None:
-            stop = len(self) if step > 0 else 0
+            stop = len(self) if step > 0 else -1
         else:
             stop = self._actualise_index(slice_.stop)
 
@@ -298,12 +257,8 @@ class defaultlist(MutableSequence):
 
     def insert(self, i: int, value: Any):
         """"""
-        larger_keys = [k for k in self._ddict.keys() if k >= i]
-        reindexed_subdict = {k + 1: self._ddict[k] for k in larger_keys}
-        for k in larger_keys:
-            del self._ddict[k]
-        self._ddict.update(reindexed_subdict)
-
+        i = self._actualise_index(i)
+        self._make_room(i, 1)
         self._ddict[i] = value
 
     def __eq__(self, other: Any):
-- 
2.43.0


From d413534efdec14fab4c27aa9b968d410fa3970c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 21/25] fix: binary files of a single repeated bit are refused

---
 src/coinflip/cli/commands.py | 14 +++++---------
 src/coinflip/cli/parsing.py  |  3 +++
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index 012d3a9..0a4fe26 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -64,15 +64,11 @@ def run(data, out, binary):
     also be used to generate an informational web document via the report
     command.
     """
-    if not binary:
-        try:
-            series = parse_text(data)
-        except (DataParsingError, NonBinarySequenceError) as e:
-            print_error(e)
-            exit(1)
-
-    else:
-        series = parse_binary(data)
+    try:
+        series = parse_binary(data) if binary else parse_text(data)
+    except (DataParsingError, NonBinarySequenceError) as e:
+        print_error(e)
+        exit(1)
 
     print_series(series)
 
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 8c4fcf5..828d973 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -77,4 +77,7 @@ def parse_binary(data_file) -> pd.Series:
 
     series = pd.Series(sequence)
 
+    if series.nunique() != 2:
+        raise NonBinarySequenceError()
+
     return series
-- 
2.43.0


From a43a4de35c014555eb2cea91ee7e49ebc47de87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 22/25] fix: serial test of evenly spread patterns has p-values

---
 src/coinflip/_randtests/serial.py |  8 +++++---
 src/coinflip/randtests_refimpl.py | 12 ++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 1b084b9..2f60ead 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -64,13 +64,15 @@ def serial(series, heads, tails, ctx, blocksize=None):
 
     advance_task(ctx)
 
-    normsum_delta1 = normalised_sums[blocksize] - normalised_sums[blocksize - 1]
+    # rounding can undershoot 0
+    normsum_delta1 = max(normalised_sums[blocksize] - normalised_sums[blocksize - 1], 0)
     p1 = gammaincc(2 ** (blocksize - 2), normsum_delta1 / 2)
 
-    normsum_delta2 = (
+    normsum_delta2 = max(
         normalised_sums[blocksize]
         - 2 * normalised_sums[blocksize - 1]
-        + normalised_sums[blocksize - 2]
+        + normalised_sums[blocksize - 2],
+        0,
     )
     p2 = gammaincc(2 ** (blocksize - 3), normsum_delta2 / 2)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 2640c8a..111c1a9 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -331,11 +331,15 @@ def serial(sequence: List[Literal[0, 1]], blocksize: int):
 
         normalised_sums[window_size] = normsum
 
+    # rounding can undershoot 0
     normsum_deltas = [
-        normalised_sums[blocksize] - normalised_sums[blocksize - 1],
-        normalised_sums[blocksize]
-        - 2 * normalised_sums[blocksize - 1]
-        + normalised_sums[blocksize - 2],
+        max(normalised_sums[blocksize] - normalised_sums[blocksize - 1], 0),
+        max(
+            normalised_sums[blocksize]
+            - 2 * normalised_sums[blocksize - 1]
+            + normalised_sums[blocksize - 2],
+            0,
+        ),
     ]
 
     pvalues = [
-- 
2.43.0


From a218c8adb30eac28a98e6cd54ee3188dcecb93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 23/25] fix: sequences are not mixed up with earlier ones whose
 values compare equal (1, True, 1.0)

---
 src/coinflip/_randtests/common/core.py   | 2 --
 src/coinflip/_randtests/common/pprint.py | 2 +-
 src/coinflip/_randtests/frequency.py     | 3 ---
 3 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index bdbd5c7..2fae492 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import lru_cache
 from functools import wraps
 from typing import Dict
 from typing import List
@@ -106,7 +105,6 @@ def randtest(min_n=2):
     return decorator
 
 
-@lru_cache()
 def infer_faces(unique_values: Tuple[Face, Face]) -> Tuple[Face, Face]:
     """Infers the `heads` and `tails` faces from a list of unique values
 
diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index 8a941f9..43bf1d1 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -21,7 +21,7 @@ def make_warning(msg: str) -> Table:
     return grid
 
 
-@lru_cache()
+@lru_cache(typed=True)
 def determine_rep(heads, tails) -> Tuple[str, str]:
     """Determine single-character representations of each binary value
 
diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 1a6c84e..5c1ed8d 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -1,6 +1,5 @@
 from collections import Counter
 from dataclasses import dataclass
-from functools import lru_cache
 from math import ceil
 from math import erfc
 from math import sqrt
@@ -38,12 +37,10 @@ class FaceCounts(NamedTuple):
     tails: FaceCount
 
     @property
-    @lru_cache()
     def max(self):
         return max(*self, key=attrgetter("count"))
 
     @property
-    @lru_cache()
     def min(self):
         return min(*self, key=attrgetter("count"))
 
-- 
2.43.0


From 51f5318c0f90dd2ceac55c01111c9f5775ef2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 24/25] fix: progress totals of the universal and excursions
 variant tests

---
 src/coinflip/_randtests/random_walk.py | 2 +-
 src/coinflip/_randtests/universal.py   | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 0acaf01..e8798b0 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -243,7 +243,7 @@ variant_states = [-9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9]
 def random_excursions_variant(series, heads, tails, ctx):
     n = len(series)
 
-    set_task_total(ctx, 3 + len(variant_states))
+    set_task_total(ctx, 4 + len(variant_states))
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index d07816a..553da31 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -158,8 +158,6 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
 
     advance_task(ctx)
 
-    advance_task(ctx)
-
     return UniversalTestResult(
         heads,
         tails,
-- 
2.43.0


From 0706187265ccfe61190794118b8b728406130dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 25/25] fix: monobit result lists both values when their counts
 are equal

---
 src/coinflip/_randtests/frequency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 5c1ed8d..d390221 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -42,7 +42,7 @@ class FaceCounts(NamedTuple):
 
     @property
     def min(self):
-        return min(*self, key=attrgetter("count"))
+        return min(self.tails, self.heads, key=attrgetter("count"))
 
     @classmethod
     def from_series(cls, series, heads, tails):
-- 
2.43.0

