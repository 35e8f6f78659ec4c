"""Writes /verif/properties.jsonl (the single source for titles and statements)."""
import json
import pathlib

R = "src/coinflip/_randtests/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe or ["return value of the public call"],
                "hook_needed": None,
            },
        }
    )


FEW = "The suite checks one or two published example sequences per test to a few digits, and runs random inputs only for absence of crashes; every other sequence, length and block parameter is unchecked."

prop("C01", "Monobit test computes the SP800-22 statistic and p-value",
     "For every sequence with two distinct values, the monobit test reports |number of heads - number of tails| / sqrt(n) as its statistic and erfc(statistic / sqrt 2) as its p-value. The reported per-value counts are the true counts and their difference is the reported difference.",
     ["inputs"], "all binary sequences of every length n >= 2", FEW,
     [R + "frequency.py"], [("monobit, FaceCounts", R + "frequency.py")])
prop("C02", "Block frequency test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence of at least 8 elements and every block size not above its length, the frequency-within-block test splits the sequence into floor(n / blocksize) consecutive whole blocks, ignores the remainder, and reports 4 * blocksize * sum((heads share of block - 1/2)^2) as its statistic. The p-value is the upper incomplete gamma function at (nblocks / 2, statistic / 2), and the reported per-block counts are the numbers of heads in each block.",
     ["inputs", "configurations"], "all binary sequences, all block sizes 1..n", FEW,
     [R + "frequency.py", R + "common/testutils.py"], [("frequency_within_block", R + "frequency.py"), ("blocks", R + "common/testutils.py")])
prop("C03", "Runs test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence, the runs test reports the number of maximal runs of equal adjacent values as its statistic. Its p-value is erfc(|runs - 2 n q (1-q)| / (2 sqrt(2n) q (1-q))) where q is the share of heads.",
     ["inputs"], "all binary sequences of every length n >= 2", FEW,
     [R + "runs.py"], [("runs, asruns", R + "runs.py")])
prop("C04", "Longest-runs test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence of at least 128 elements, the longest-runs test classifies each block by the length of its longest run of heads (clamped to the SP800-22 classes for that block size) and reports the chi-square statistic and p-value of the class counts against the SP800-22 class probabilities. Exactly the prescribed number of blocks is classified, starting at the beginning of the sequence, and shorter sequences are refused with a test error.",
     ["inputs"], "all binary sequences of length n >= 128", FEW,
     [R + "runs.py", R + "common/collections.py"], [("longest_runs, asruns", R + "runs.py"), ("Bins", R + "common/collections.py")])
prop("C05", "Matrix rank test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence and every matrix shape, the matrix rank test cuts the sequence into floor(n / (rows * columns)) row-major matrices over GF(2), counts those of full rank, of rank one less, and of any lower rank, and reports the chi-square statistic and p-value against the proportions 0.2888, 0.5776 and 0.1336.",
     ["inputs", "configurations"], "all binary sequences, all matrix shapes fitting the sequence", FEW,
     [R + "matrix.py"], [("binary_matrix_rank, matrix_rank", R + "matrix.py")])
prop("C06", "Spectral test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence (an odd-length one loses its last element), the spectral test counts the first half of the discrete Fourier transform moduli of the +1/-1 sequence that lie below sqrt(n ln 20), and reports the difference to 0.95 n / 2 divided by sqrt(n * 0.95 * 0.05 / 4), where n is the given length. The p-value is erfc(|statistic| / sqrt 2).",
     ["inputs"], "all binary sequences of every length n >= 2", FEW,
     [R + "fourier.py"], [("spectral", R + "fourier.py")])
prop("C07", "Non-overlapping template test computes the SP800-22 statistics and p-values",
     "For every two-valued sequence, template size and block size, the non-overlapping template test reports for every possible template the number of its non-overlapping occurrences in each whole block, found by scanning from the block's start and skipping past each match. The statistic per template is the sum of squared deviations from (M-m+1)/2^m over the variance M(2^-m - (2m-1) 2^-2m), and the p-value is the upper incomplete gamma function at (nblocks / 2, statistic / 2).",
     ["inputs", "configurations"], "all binary sequences, template sizes and block sizes", FEW,
     [R + "template.py", R + "common/collections.py"], [("non_overlapping_template_matching", R + "template.py"), ("defaultlist", R + "common/collections.py")])
prop("C08", "Overlapping template test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence, template size, block size and match ceiling, the overlapping template test counts all (overlapping) occurrences of the all-heads template in each whole block, tallies blocks by that count with everything at or above the ceiling in the last class, and reports the chi-square statistic and p-value of the tallies. The expected tallies are the number of blocks times the SP800-22 class probabilities for the given block and template size.",
     ["inputs", "configurations"], "all binary sequences, template sizes, block sizes and ceilings", FEW,
     [R + "template.py", R + "common/testutils.py"], [("overlapping_template_matching", R + "template.py"), ("slider, blocks", R + "common/testutils.py")])
prop("C09", "Maurer's universal test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence, block size and number of initialisation blocks, Maurer's test reports the mean over all later whole blocks of the base-2 logarithm of the distance back to the latest earlier occurrence of the same block (or to position 0 if there is none). The p-value is erfc(|statistic - expected mean| / sqrt(2 * variance)) with the published mean and variance for the block size.",
     ["inputs", "configurations"], "all binary sequences, block sizes and initialisation lengths", FEW,
     [R + "universal.py"], [("maurers_universal", R + "universal.py")])
prop("C10", "Linear complexity test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence and block size, the linear complexity test computes the linear complexity L of every whole block, classifies (-1)^M (L - mu) + 2/9 into the seven SP800-22 classes with mu = M/2 + (9 + (-1)^(M+1))/36 - (M/3 + 2/9)/2^M, and reports the chi-square statistic and p-value of the class counts against the class probabilities.",
     ["inputs", "configurations"], "all binary sequences and block sizes", FEW,
     [R + "complexity.py", R + "common/collections.py"], [("linear_complexity, berlekamp_massey", R + "complexity.py"), ("Bins", R + "common/collections.py")])
prop("C11", "Serial test computes the SP800-22 statistics and p-values",
     "For every two-valued sequence and block size m, the serial test counts every cyclically overlapping pattern of length m, m-1 and m-2, and reports the first and second differences of the normalised sums of squared counts as its two statistics (rounding never makes a difference fall below 0). The p-values are the upper incomplete gamma function at (2^(m-2), first / 2) and (2^(m-3), second / 2).",
     ["inputs", "configurations"], "all binary sequences and block sizes", FEW,
     [R + "serial.py", R + "common/testutils.py"], [("serial", R + "serial.py"), ("slider", R + "common/testutils.py")])
prop("C12", "Approximate entropy test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence and block size m, the approximate entropy test reports 2 n (ln 2 - (phi_m - phi_(m+1))), where phi_k is the sum of f ln f over the relative frequencies f of all cyclically overlapping patterns of length k, and never less than 0. The p-value is the upper incomplete gamma function at (2^(m-1), statistic / 2).",
     ["inputs", "configurations"], "all binary sequences and block sizes", FEW,
     [R + "entropy.py", R + "common/testutils.py"], [("approximate_entropy", R + "entropy.py"), ("slider", R + "common/testutils.py")])
prop("C13", "Cumulative sums test computes the SP800-22 statistic and p-value",
     "For every two-valued sequence and both directions, the cumulative sums test reports the largest absolute partial sum of the +1/-1 walk taken from that direction as its statistic. The p-value is the SP800-22 two-sided normal series evaluated at that statistic and length, every sum running over exactly the integers between its two limits, and is never above 1.",
     ["inputs", "configurations"], "all binary sequences of every length n >= 2, forward and reverse", FEW,
     [R + "random_walk.py"], [("cusum", R + "random_walk.py")])
prop("C14", "Random excursions test computes the SP800-22 statistics and p-values",
     "For every two-valued sequence, the random excursions test splits the +1/-1 walk (ended with a return to zero) into cycles, classifies for each state from -4 to 4 except 0 the cycles by their number of visits (5 or more together), and reports the chi-square statistic and p-value against the SP800-22 visit probabilities. No accepted sequence makes it fail.",
     ["inputs"], "all binary sequences of every length n >= 2", "The two existing tests of this behaviour fail on the pinned tree and no other input is checked.",
     [R + "random_walk.py", R + "common/collections.py"], [("random_excursions, ascycles", R + "random_walk.py"), ("Bins", R + "common/collections.py")])
prop("C15", "Random excursions variant test computes the SP800-22 statistics and p-values",
     "For every two-valued sequence, the random excursions variant test reports for each state from -9 to 9 except 0 the total number of visits of the +1/-1 walk. The p-value is erfc(|visits - J| / sqrt(2 J (4|state| - 2))) where J is the number of zero crossings, counting the final return to zero.",
     ["inputs"], "all binary sequences of every length n >= 2", FEW,
     [R + "random_walk.py"], [("random_excursions_variant", R + "random_walk.py")])
prop("C16", "Tests accept exactly the sequences they are defined on",
     "A sequence is accepted by the randomness tests exactly when it has exactly two distinct values, contains no missing value and is at least as long as the test's minimum; any other sequence is refused with an input error of the library. With its parameters omitted, a test yields a result or an error of the library for every accepted sequence, never any other exception.",
     ["inputs"], "all sequences over ordinary, repeated and missing values, empty ones included, at every minimum-length boundary",
     "Tests only pass well-formed 0/1 sequences; missing values, one or three distinct values and boundary lengths are never given.",
     [R + "common/core.py"], [("randtest decorator", R + "common/core.py")])
prop("C17", "Results do not depend on how the two values are labelled or stored",
     "Replacing the two values of a sequence by any other two distinct comparable values in the same order, or passing the same elements as a list, a tuple or a series with any index, leaves every statistic and p-value unchanged. The larger value is always reported as heads and the smaller as tails, whichever comes first.",
     ["inputs", "configurations"], "all binary sequences, several label pairs and container kinds", "Tests use the integers 0 and 1 in lists only.",
     [R + "common/core.py", R + "common/testutils.py"], [("infer_faces, randtest decorator", R + "common/core.py")])
prop("C18", "Bins route every key to its nearest interval and lose no mass",
     "Reading or writing a bin through any real key acts on the interval nearest to the key, the larger one on ties, and on no other. Deleting one of at least two intervals (by that exact interval) removes it and adds its value to the interval nearest to it, intervals stay sorted and distinct, and duplicate intervals are refused.",
     ["inputs", "histories"], "all sets of intervals, keys and operation histories", "A random state machine samples integer-like keys; ties, extremes and mixed histories are reached only by luck.",
     [R + "common/collections.py"], [("Bins", R + "common/collections.py")])
prop("C19", "Floor dictionaries return the entry of the greatest key not above",
     "Looking a key up returns the value stored under the greatest stored key that does not exceed it, for every stored key set and every looked-up key. A key below all stored keys raises a key error.",
     ["inputs"], "all key sets and looked-up keys", "No test exercises this container.",
     [R + "common/collections.py"], [("FloorDict", R + "common/collections.py")])
prop("C20", "Default lists behave as lists that extend to infinity with defaults",
     "Every sequence of item and slice reads, writes, deletions and insertions on a default list has the same observable effect as on an ordinary list padded on the right with its default value, and its length is one more than the largest position now holding an element that was read, written or moved there. Negative indices and slice bounds out of range raise an index error, an assignment of the wrong size to an extended slice (step other than 0 and 1) raises a value error, and both leave the list unchanged.",
     ["inputs", "histories"], "all histories of operations with all indices, slices and values", "The state machine test deliberately leaves slices out and uses only in-range non-negative indices.",
     [R + "common/collections.py"], [("defaultlist", R + "common/collections.py")])
prop("C21", "Parameters default as documented and explicit parameters are honoured",
     "For every sequence length, omitted block sizes, template sizes, matrix dimensions and block counts take the values prescribed by the selection rules (SP800-22 recommendations where they can be met), are always positive, and never exceed what the sequence can hold; where nothing is left to test, the sequence is refused with a library error. A parameter the caller does give is used as given.",
     ["inputs", "configurations"], "all sequence lengths n up to 10^7 and all explicit parameter choices", "Only lengths 1000 and 1000000 and a few example lengths are ever run.",
     [R + "frequency.py", R + "runs.py", R + "matrix.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "serial.py", R + "entropy.py"],
     [("default parameter selection", R + "*.py")])
prop("C22", "Unmet recommendations are reported exactly when they are unmet",
     "A result lists a NIST recommendation as failed exactly when the stated condition is false for the sequence length and the parameters used (approximate equalities: met when equal, unmet when clearly different). Outside the command line, a user warning naming all failed recommendations is raised exactly when there are any; none is raised when all are met.",
     ["inputs", "configurations"], "all sequence lengths and parameters", "No test looks at recommendations or warnings.",
     [R + "common/core.py"], [("check_recommendations, make_failures_msg", R + "common/core.py")])
prop("C23", "Binary files are read bit by bit, most significant bit first",
     "Reading a binary file yields exactly eight elements per byte, in file order and most significant bit first, each 0 or 1. Nothing is dropped, added or reordered for any file content; a file whose bits are all equal, the empty one included, is refused with the non-binary error.",
     ["inputs"], "all file contents", "No test reads a binary file.",
     ["src/coinflip/cli/parsing.py"], [("parse_binary", "src/coinflip/cli/parsing.py")])
prop("C24", "Text input is accepted exactly when it is one two-valued complete column",
     "Parsed text data is accepted exactly when it has one column holding exactly two distinct values and no missing one, and the values come back unchanged and in order. More columns are refused with a parsing error and other value sets with a non-binary error.",
     ["inputs"], "all parsed tables (up to the bound) including missing values", "Only well-formed single-column files of 0/1 are parsed in tests.",
     ["src/coinflip/cli/parsing.py"], [("parse_text", "src/coinflip/cli/parsing.py")])
prop("C25", "Running all tests runs each once, in order, and isolates test errors",
     "Running all tests on a two-valued sequence executes every registered test exactly once in the registered order, and yields for each its name with either its result or its error. A test error of any subset of tests does not prevent the others from running nor change their results, and the final summary covers every test.",
     ["fault_sequences", "inputs"], "all combinations of tests succeeding or failing", "The only test of the command line fails on the pinned tree and never makes a chosen test fail.",
     ["src/coinflip/cli/runner.py"], [("run_all_tests, run_test, list_tests", "src/coinflip/cli/runner.py")], ["yielded tuples", "printed summary"])
prop("C26", "The summary verdict is PASS exactly when the p-value reaches 0.01",
     "In the results summary every single-result test gets one row whose verdict is PASS when its p-value is at least 0.01 and FAIL otherwise, tests that raised an error are shown as N/A, and tests with several results are listed as not summarisable. The verdict is decided on the exact p-value, not on the rounded one displayed.",
     ["inputs", "histories"], "all p-values and all mixtures of results", "No test looks at the summary.",
     ["src/coinflip/cli/runner.py"], [("print_results_summary", "src/coinflip/cli/runner.py")], ["summary table"])
prop("C27", "Matrix rank over GF(2) is exact",
     "For every 0/1 matrix of any shape, the matrix rank function returns its rank over GF(2), and leaves the matrix it is given unchanged.",
     ["inputs"], "all 0/1 matrices", "No test calls it except through a single example.",
     [R + "matrix.py", "src/coinflip/algorithms.py"], [("matrix_rank, bits2int", R + "matrix.py")])
prop("C28", "Berlekamp-Massey returns the shortest LFSR length",
     "For every non-empty 0/1 sequence, the Berlekamp-Massey function returns the length of the shortest linear feedback shift register that generates it, and leaves the sequence unchanged.",
     ["inputs"], "all 0/1 sequences", "Two example sequences are tested.",
     [R + "complexity.py", "src/coinflip/algorithms.py"], [("berlekamp_massey", R + "complexity.py")])
prop("C29", "Multi-results expose every sub-result and the smallest p-value",
     "The statistics and p-values of a multi-result list its sub-results in order, and its minimum is the first sub-result whose p-value no other undercuts.",
     ["inputs"], "all collections of sub-results", "No test reads these accessors beyond examples.",
     [R + "common/result.py"], [("MultiTestResult.min, statistics, pvalues", R + "common/result.py")])
prop("C30", "The displayed sequence is the given sequence",
     "The printed sequence shows one character per element in order, telling the two values apart, wrapped to the terminal width; when rows are omitted from the middle the stated number of omitted rows is exactly the number left out. Each value is shown by the first character of its text when these differ for the two values, and otherwise heads is shown as 1 and tails as 0.",
     ["inputs", "configurations"], "all binary sequences, label pairs and widths", "No test looks at the printed sequence.",
     ["src/coinflip/cli/pprint.py", R + "common/pprint.py"], [("pretty_sequence, pretty_subseq, determine_rep", "src/coinflip/cli/pprint.py")], ["rendered rows"])
prop("C31", "Plotted reference distributions are those the p-values come from",
     "For every result that plots a reference distribution, the plotted statistic and distribution are the ones its p-value was computed from: the upper tail of the plotted distribution from the plotted statistic equals the reported p-value.",
     ["inputs", "configurations"], "all results of the single-statistic tests", "No test calls the plotting methods.",
     [R + "common/result.py", R + "frequency.py", R + "runs.py", R + "matrix.py", R + "fourier.py", R + "template.py", R + "universal.py", R + "complexity.py", R + "entropy.py"],
     [("plot_refdist methods", R + "*.py")], ["arguments reaching the chart"])
prop("C32", "Example generators emit bits by their documented rule for ever",
     "The Mersenne example generator emits 0 when its state, advanced by multiplication with 16807 modulo 2^31 - 1, is below half the modulus and 1 otherwise, from every state and for ever; the Python generator emits exactly the bits of its random source. Both only ever emit 0 and 1.",
     ["histories", "inputs"], "all generator states", "Generators are only used to feed other tests.",
     ["src/coinflip/generators.py"], [("Mersenne.__next__, Python.__next__", "src/coinflip/generators.py")])
prop("C33", "The reference implementation agrees with SP800-22",
     "For every list of 0s and 1s that holds both and every parameter choice, the reference implementation of each test returns the SP800-22 statistic(s) and p-value(s), hence the same as the main implementation given the same parameters.",
     ["inputs", "configurations"], "all 0/1 lists and parameters", "Published examples only.",
     ["src/coinflip/randtests_refimpl.py"], [("all functions", "src/coinflip/randtests_refimpl.py")])
prop("C34", "Tests are pure: no mutation, no memory of earlier calls",
     "Running any test leaves the caller's sequence unchanged, and its statistics and p-values depend only on that call's sequence and parameters: any earlier calls, with any sequences, do not change them.",
     ["histories", "inputs"], "all pairs of sequences run one after the other", "No test compares a result before and after other calls or checks the input afterwards.",
     [R + "common/core.py", R + "common/collections.py"], [("lru_cache uses, module-level tables", R + "*.py")])
prop("C35", "Progress reporting is complete and never changes a result",
     "When a progress display is attached, each test that returns a result announces a total once and advances exactly that many steps, for every sequence and parameter choice. The result is the same with and without a display.",
     ["inputs", "configurations"], "all sequences and parameters of each test", "Nothing checks progress totals.",
     [R + "common/core.py"] + [R + f for f in ("frequency.py", "runs.py", "matrix.py", "fourier.py", "template.py", "universal.py", "complexity.py", "serial.py", "entropy.py", "random_walk.py")],
     [("set_task_total, advance_task calls", R + "*.py")], ["calls on the progress object"])
prop("C36", "Every reported p-value is a probability",
     "Whenever a test returns a result for an accepted sequence with its default parameters, every p-value in it is a real number between 0 and 1 (up to rounding) and every statistic is a finite number.",
     ["inputs"], "all binary sequences of each length", "Smoke tests only check that nothing is raised.",
     [R + f for f in ("frequency.py", "runs.py", "matrix.py", "fourier.py", "template.py", "universal.py", "complexity.py", "serial.py", "entropy.py", "random_walk.py")],
     [("p-value computations", R + "*.py")])
prop("C37", "Stored results load back equal",
     "Storing a sequence with its results and loading them back gives the same sequence and the same results: the same names in the same order, every result of the same kind with every field equal, for every test and parameters. Nothing a test returns prevents it from being stored.",
     ["inputs"], "results of all binary sequences, all fifteen tests", "Only a few results with mostly empty fields are pickled in tests.",
     ["src/coinflip/cli/report.py", R + "common/collections.py", R + "common/result.py"], [("store_results, load_results", "src/coinflip/cli/report.py"), ("result classes and Bins, defaultlist", R + "*.py")], ["loaded report"])
prop("C38", "The report document has a section for every result that has a template",
     "Writing a report produces one HTML document that contains, in the order of the results, the rendered section of every stored result for which there is a template, and nothing of any other; each result without a template is named in a warning and never stops the others. The section of the monobit test gives the more frequent value before the less frequent one (both values when they are equally frequent), the difference between their counts, the length of the sequence, the statistic to 2 decimals and the p-value to 3 decimals. The report command writes the document of the results stored in the given file to the given output file, ends with status 0 and leaves the stored results as they are.",
     ["inputs", "configurations"], "all stored results, all sets of templates", "One generated report is only checked for a zero exit code.",
     ["src/coinflip/cli/report.py", "src/coinflip/templates/index.html", "src/coinflip/templates/randtests/monobit.html", R + "frequency.py"], [("write_report_doc", "src/coinflip/cli/report.py"), ("report", "src/coinflip/cli/commands.py"), ("FaceCounts", R + "frequency.py")], ["written file"])
prop("C39", "Printing a result shows the numbers the test produced",
     "What is printed for a result states the statistic of the test and its p-value (to 3 decimals). The parameters it lists are the ones used. A table of classes lists every class of the chi-square test, each with the expected number of blocks (to 1 decimal), the number counted in the sequence, and the difference, counted minus expected. The monobit table gives each of the two values with its own number of occurrences, the larger first; the spectral list gives the counted and expected number of peaks and their difference. For a test with sub-results the table has one row per sub-result with its own statistic and p-value, in order; the first one with the least p-value is marked with * and is the one detailed next to the table. Every recommendation that was not met is named in a warning at the top.",
     ["inputs", "configurations"], "results of all binary sequences, all fifteen tests", "The tests of the printed form compare one fixed picture of tiny tables; no test compares what is printed with the sequence.",
     [R + f for f in ("common/result.py", "frequency.py", "runs.py", "matrix.py", "fourier.py", "template.py", "universal.py", "complexity.py", "serial.py", "random_walk.py")],
     [("make_testvars_list, make_chisquare_table, _results_table", R + "common/result.py"), ("_render of every result class", R + "*.py")])
prop("C40", "Charts of the data draw what was counted",
     "The chart each test has of its data draws exactly what the test counted in the sequence. The bars of a chi-square test give for every class its expected and its observed number of blocks. The monobit chart gives each value with its number of occurrences; the block frequency chart the number of blocks for each count of ones; the approximate entropy chart, for both block sizes, how many patterns occur how many times; the spectral chart the modulus of the transform at each frequency of the first half, and the threshold; the charts of walks every partial sum of the +1/-1 walk from 0 on (for the reverse direction, of the reversed sequence).",
     ["inputs", "configurations"], "results of all binary sequences of the eleven tests with such a chart", "The tests of charts only check that drawing them raises nothing.",
     [R + f for f in ("frequency.py", "runs.py", "matrix.py", "fourier.py", "template.py", "complexity.py", "entropy.py", "random_walk.py")],
     [("plot_counts, plot_count_nblocks", R + "frequency.py"), ("plot_maxlen_bins", R + "runs.py"), ("plot_rank_counts", R + "matrix.py"), ("plot_fourier", R + "fourier.py"), ("plot_template_matches", R + "template.py"), ("plot_variance", R + "complexity.py"), ("plot_permutation_counts", R + "entropy.py"), ("plot_random_walk", R + "random_walk.py")])
prop("C41", "The commands refuse bad data, run the tests and store exactly their results",
     "The run command ends with exit status 1 on data that is not one complete two-valued sequence: it shows an error, runs no test and leaves the output file as it was. Otherwise it runs every test on the sequence read from the file, ends with status 0 and stores in the output file the sequence and the result of exactly those tests that gave one, in order. The read command shows the stored sequence and every stored result, unchanged and in order, and the summary. The example-run command takes exactly the asked number of elements from the asked generator, runs every test, or the one asked for, on them, and ends with status 1 only when the single test asked for fails.",
     ["inputs", "faults"], "all contents of the file, all subsets of tests that fail, all subsets of stored results", "The commands are only run on one generated file and on one option each, and only the exit status is checked.",
     ["src/coinflip/cli/commands.py", "src/coinflip/cli/runner.py", "src/coinflip/cli/parsing.py", "src/coinflip/cli/report.py"],
     [("run, example_run, read", "src/coinflip/cli/commands.py")], ["exit status", "stored file", "printed output"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
