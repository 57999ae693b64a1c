#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
L = "libdieharder/"; D = "dieharder/"
only206 = "The suite runs one 32-bit generator (206) with one seed and default sizes; "

p("C01", "The bit supply delivers the generator's bits exactly once and in order",
  "For a generator of any width from 1 to 32 bits, consecutive requests to the library for 32-bit words, or for any mixture of 1 to 128 bits at a time, return exactly the generator's successive output bits (low bit of each output first): none lost, repeated, altered or reordered, whatever the sequence of request sizes. After the bit buffers are reset, the next request starts at the generator's next output with nothing left over. The bit fetcher compiled into the individual tests likewise loses and repeats nothing: it delivers each output most significant bit first, and a request of exactly the generator's width takes the next whole output.",
  ["inputs", "histories"], "all widths 1..32, all request-size histories (every buffer position x previous size x next size), any stream",
  only206 + "word widths below 32 and mixed request sizes are never reached.",
  [L + "bits.c", L + "static_get_bits.c"], [("get_uint_rand / get_rand_bits circular buffer", L + "bits.c"), ("get_rand_bits_uint static fetcher", L + "static_get_bits.c"), ("reset_bit_buffers", L + "bits.c")],
  ["return values of get_uint_rand, get_rand_bits"], [("bits_rand/bleft", "partial word", L + "bits.c"), ("bits_randbuf/brindex/bitindex", "ring of look-ahead words", L + "bits.c")])
p("C02", "Bit-window helpers select exactly the requested bits",
  "The library's public bit-manipulation helpers (masks, windows, rotations, single-bit access, bit-string conversion, n-tuples taken at any offset of a word vector with cyclic wrap-around) return exactly the bits their description names, for every offset, length, vector length and generator width in their documented ranges, and leave their input unchanged.",
  ["inputs"], "all offsets x lengths x vector lengths x widths, bounded vector lengths",
  only206 + "each test uses a single offset pattern at width 32; most helpers are not called at all.",
  [L + "bits.c"], [("b_umask, b_window, b_rotate_*, get_bit, bit2uint, cycle, get_bit_ntuple, get_ntuple_cyclic", L + "bits.c")], ["return values"])
p("C03", "Raw binary file input replays the file's words in order and wraps exactly",
  "Reading a raw binary file of any length of at least 16 words as a generator yields its 32-bit words in file order, continuing from the first word after the last complete one (a trailing partial word is never delivered), with the number of words delivered and of wrap-arounds counted exactly; reseeding with a nonzero seed restarts at the first word. This holds for every interleaving of reads and reseeds, for a second file opened later in the same process, and a file that is missing, empty or too short is refused with an error instead of being tested. The report of a run on a file states how many of its numbers were used and how often it was rewound.",
  ["inputs", "histories", "fault_sequences"], "all file lengths in bytes up to a bound, all read/reseed/reopen histories up to a depth",
  "No existing test reads a file.", [L + "rng_file_input_raw.c"], [("rewind at end of data, rptr/rtot/rewind_cnt counters", L + "rng_file_input_raw.c")],
  ["gsl_rng_get on generator 201", "file_input_get_rtot / rewind_cnt", "dieharder -g 201 -f"])
p("C04", "Formatted file input returns the numbers written in the file",
  "Reading a formatted (ASCII) file as a generator returns, in order, the value each line spells out in the format declared by the header (unsigned decimal, octal, hexadecimal, binary, or a real number in [0,1) scaled to the full 32-bit range), wrapping to the first number after the declared count, with delivered and wrap-around counts exact and reseeding with a nonzero seed restarting at the first number. Header lines, and comment lines of any length among them, are never delivered as numbers, and a file without a usable header or shorter than declared is refused with an error.",
  ["inputs", "histories"], "all declared formats x boundary values x counts x comment/header layouts x read/reseed histories up to a depth",
  "No existing test reads a file.", [L + "rng_file_input.c", L + "parse.c"], [("header parsing and per-format conversion", L + "rng_file_input.c")], ["gsl_rng_get on generator 202", "dieharder -g 202 -f"])
p("C05", "Standard-input streams are consumed word by word without loss",
  "When random numbers are piped in on standard input, the generator delivers the stream's successive 32-bit words in order no matter how the bytes are split across writes and reads, and at end of input (including a trailing partial word) the program stops with a message instead of delivering invented numbers or repeating old ones. (Measuring the generator's rate, when that output field is selected, takes its numbers from the stream too.)",
  ["schedules", "inputs", "crash_points"], "all ways of cutting a stream into write chunks, all truncation points",
  "No existing test uses standard input.", [L + "rng_stdin_input_raw.c"], [("4-byte buffered reads with end-of-file check", L + "rng_stdin_input_raw.c")], ["dieharder -g 200 -o output, exit"])
p("C06", "Exported numbers are exactly the generator's output and read back the same",
  "Exporting n numbers from a generator with a given seed writes exactly that generator's first n outputs for that seed, in raw binary, decimal, or real-number form as selected, with a header that states the right count, type and generator; feeding the exported binary or decimal file back in as input reproduces those numbers, and the real-number form reproduces them to the printed precision. The numbers go to the file named, or to standard output if none is, and a file that cannot be opened is reported. An export never overwrites the file its numbers are being read from.",
  ["inputs", "configurations"], "all generators x formats x counts up to a bound x seeds, file and stdout targets",
  "No existing test exports numbers.", [D + "output_rnds.c", L + "rng_file_input.c", L + "rng_file_input_raw.c"], [("output_rnds format switch", D + "output_rnds.c")], ["files written by dieharder -o/-O/-t"])
p("C07", "A seed completely determines a generator's stream, and values stay in range",
  "For every built-in software generator and seed, seeding it produces the same stream no matter what was done before (other seeds, any number of values drawn, other generators used, library bit buffers partly used), and two different points in a process that seed alike see identical streams (generators supplied by GSL: for the seeds GSL defines). Every integer returned, including from hardware generators, lies between the generator's declared minimum and maximum, and every uniform deviate lies in [0,1].",
  ["histories", "inputs"], "all registered generators x all seed/draw histories up to a depth over a seed alphabet",
  only206 + "one seeding per process.", [L + "rng_ca.c", L + "rng_uvag.c", L + "rng_superkiss.c", L + "rng_kiss.c", L + "rng_aes.c", L + "rng_threefish.c", L + "rngs_gnu_r.c", L + "rng_dev_urandom.c", L + "rng_dev_random.c", L + "dieharder_rng_types.c"],
  [("per-generator set/get functions", L)], ["gsl_rng_set/gsl_rng_get on dh_rng_types[]"])
p("C08", "The combined generator is the exclusive-or of the generators named",
  "Selecting the combining generator together with k other generators yields, word for word, the bitwise exclusive-or of those k generators' streams, each named generator contributing exactly one output per word and each seeded from the combined seed (component seeds are the successive outputs of generator 14, mt19937_1999, seeded with it), for every choice, order and number of components that fits and whose states are independent (the R generators share one state). A missing, unknown or recursive component is refused.",
  ["configurations", "histories"], "all ordered component lists up to length 3 over the 32-bit generators, several seeds, all reseed points",
  "No existing test uses the combining generator.", [L + "rng_XOR.c", D + "choose_rng.c"], [("XOR_set / XOR_get", L + "rng_XOR.c")], ["dieharder -g 207 -g a -g b -o", "gsl_rng_get"])
p("C09", "Every requested sample is run once and counted once",
  "Running a test with any number of requested samples calls the test once for each sample index 0..n-1 in order and combines exactly those n results, per statistic, into its final p-value; requests for more samples append to, never overwrite or drop, earlier ones, up to the stated ceiling; clearing a test starts it over. Zero sample counts select the test's standard values, scaled by the multiplier but never below one.",
  ["histories", "configurations"], "all create/run/extend/clear/destroy histories up to a depth over a parameter grid",
  only206 + "one run per process with one sample count.", [L + "std_test.c"], [("create_test, std_test, add_2_test, clear_test", L + "std_test.c")], ["calls of the test function, psamples, ks_pvalue"])
p("C10", "Escalation modes stop exactly when their rule says",
  "In 'resolve ambiguity' mode a test is extended step by step while its most extreme two-sided p-value lies between the fail and weak thresholds, in 'test to destruction' mode while it is not below the fail threshold, and in both until the sample ceiling is reached; the plain mode never extends. The last reported line is the outcome that satisfied the stop rule, every intermediate result is reported, and the number of samples on each line is right.",
  ["histories", "configurations"], "all sequences of per-round verdicts (fail/weak/pass on either side, several statistics) x modes x steps x ceilings",
  "The suite never uses the escalation modes.", [D + "run_test.c", L + "std_test.c"], [("execute_test loop on Xtrategy", D + "run_test.c")], ["rows printed, samples run"])
p("C11", "The combined p-value is the Kolmogorov-Smirnov probability of the sample",
  "For any list of p-values in [0,1], in any order and with ties, the combined p-value equals the Kolmogorov-Smirnov probability of the largest one-directional deviation of the sorted sample from i/(n+1) (to the accuracy of the selected method), lies in [0,1], equals the value itself for one sample, and depends only on the multiset of values. The Kuiper variant likewise returns the Kuiper probability of its statistic.",
  ["inputs"], "all multisets over value grids for small n, structured samples for all n up to a bound, all methods",
  "The suite combines 10 to 1000 values of one seed per test with the default method only.", [L + "kstest.c"], [("kstest, p_ks_new, q_ks, kstest_kuiper", L + "kstest.c")], ["return values of kstest / kstest_kuiper"])
p("C12", "Goodness-of-fit engines compute the textbook chi-square and normal tail",
  "The shared goodness-of-fit routines (Pearson with tail bundling and degree-of-freedom counting, Poisson, binomial, geometric, uniform G-test, two-dimensional table, normal-deviate) return exactly the tail probability of the textbook statistic for every vector of observed and expected counts: cells below the cutoff are pooled into one cell, which counts if it reaches the cutoff itself, none is counted twice or dropped, and the degrees of freedom are the number of cells used less one unless the caller fixed them (the binomial fit uses the bins with more than 10 observations; tables with fewer than two usable cells are outside this property).",
  ["inputs"], "all count vectors up to a length and total over small alphabets, all cutoffs",
  only206 + "only the count vectors of that run.", [L + "Vtest.c", L + "chisq.c", L + "Xtest.c", L + "prob.c"], [("Vtest_eval, chisq_*, Xtest_eval", L)], ["return values"])
p("C13", "Report rows show the right values, fields and verdict",
  "Every printed result row carries the test's name, parameters, sample counts and final p-value of the result it reports, in exactly the fields selected by the output flags, in fixed order, joined by the chosen separator, with the headers printed once and before the first row. The verdict is FAILED when the p-value lies within the fail threshold of 0 or 1, otherwise WEAK when within the weak threshold, otherwise PASSED. When histograms are selected, each bar's height is in proportion to the number of p-values in its interval.",
  ["configurations", "inputs"], "all 2^k output-flag sets x separators x p-values at and around every threshold x number of statistics",
  "The suite reads one default table layout and does not check verdicts at thresholds.", [D + "output.c", D + "output.h"], [("output, output_table_line, assessment", D + "output.c")], ["standard output"])
p("C14", "Command-line choices select exactly the named test, generator and parameters",
  "A test chosen by number and by the name shown in its report, and a generator chosen by number and by its listed name, are the same one; seed, sample counts, n-tuple, thresholds, separator, strategy and output-field options each set that parameter and nothing else, regardless of the order of the options; unknown tests, generators or options are refused rather than replaced by another. Repeated or over-long choices and file names are taken as given or refused, never cut short or written past their tables. The test and generator listings show every registered entry once under the number that selects it.",
  ["configurations"], "all option permutations up to a length, all test and generator names/numbers including out-of-range ones",
  "The suite passes one fixed option pattern.", [D + "parsecl.c", D + "choose_rng.c", D + "run_test.c", D + "list_tests.c", D + "list_rngs.c", D + "set_globals.c"], [("getopt loop, name lookup", D + "parsecl.c")], ["standard output, standard error, exit status"])
p("C15", "The full battery runs every registered test once per scheduled n-tuple",
  "Running all tests executes every registered diehard, STS and other test once each in number order, except that the bit-distribution, minimum-distance, permutation and lagged-sum tests are run for every n-tuple of their documented ranges (1-12, 2-5, 2-5, 0-32); each uses its standard sample size and sample count scaled by the multiplier. A single requested test runs only itself, with the requested n-tuple.",
  ["configurations"], "the complete schedule, all multipliers of a grid, every single test and n-tuple",
  "The suite runs tests one at a time; the battery is never run.", [D + "run_all_tests.c", L + "dieharder_test_types.c"], [("run_all_tests loops", D + "run_all_tests.c")], ["sequence of executed tests and report rows"])
p("C16", "Reseeding per test makes each result independent of what ran before",
  "With the reseed-per-test strategy and a fixed seed (or a file), a test's p-values are the same whether it runs alone or after any other tests in the same run: no bits, counters, tables, sizes or parameters left over from an earlier test influence a later one.",
  ["histories"], "all ordered pairs (and bounded longer sequences) of registered tests x generator widths",
  "The suite runs each test in a process of its own.", [D + "run_test.c", L + "bits.c", L + "static_get_bits.c", L + "std_test.c"] , [("reseed in execute_test, reset_bit_buffers", D + "run_test.c")], ["report rows / p-values"])
grp = [
 ("C17", "Bit-frequency tests score exactly the bits of the stream",
  "For every word stream and generator width, the monobit, runs, serial, bit-distribution, block-monobit and byte-distribution tests return, for each of their statistics and every supported n-tuple and sample size, the p-value of the documented statistic computed from exactly the words they draw, each bit being used as documented and none skipped or counted twice.",
  ["sts_monobit.c", "sts_runs.c", "sts_serial.c", "rgb_bitdist.c", "dab_monobit2.c", "dab_bytedistrib.c"]),
 ("C18", "Missing-word tests count exactly the words that never occur",
  "For every word stream and generator width, the overlapping bitstream, OPSO, OQSO, DNA and OPSO2 tests return the normal-tail p-value of the exact number of words missing from the stream they draw, using the documented number of letters, bit positions, mean and standard deviation.",
  ["diehard_bitstream.c", "diehard_opso.c", "diehard_oqso.c", "diehard_dna.c", "dab_opso2.c"]),
 ("C19", "Count-the-ones tests score exactly the five-letter words of the stream",
  "For every word stream and generator width, the two count-the-ones tests map every byte taken from the stream to its letter by its number of one bits and return the p-value of the documented difference of chi-squares over all overlapping four- and five-letter words, with the cell probabilities of fair bits.",
  ["diehard_count_1s_stream.c", "diehard_count_1s_byte.c", "countx.c"]),
 ("C20", "Rank tests use the true rank of every matrix",
  "The binary rank routine returns the rank over GF(2) of every bit matrix handed to it, and the two rank tests build their matrices from exactly the words they draw and return the chi-square p-value of the observed ranks against the exact rank distribution, for every stream and generator width.",
  ["rank.c", "diehard_rank_32x32.c", "diehard_rank_6x8.c"]),
 ("C21", "Ordering tests classify every tuple of numbers correctly",
  "For every stream, the permutation tests assign each tuple of numbers to exactly one of the k! orderings by its relative order and the runs test counts every maximal ascending and descending run by length, and each returns the p-value of its documented statistic over exactly the samples drawn, the five-permutation test in overlapping and non-overlapping mode.",
  ["rgb_permutations.c", "diehard_operm5.c", "diehard_runs.c"]),
 ("C22", "Birthday tests count repeated spacings exactly",
  "For every stream and width, the birthday tests take the documented bits of each draw as birthdays, sort them, count exactly the spacings that repeat, and return the p-value of those counts against the documented Poisson law, for every supported sample size and n-tuple.",
  ["diehard_birthdays.c", "dab_birthdays1.c"]),
 ("C23", "Geometric tests find the true minimum distance or number parked",
  "For every stream, the minimum-distance tests find the true smallest distance between any two of the points they draw, in every supported dimension, and the parking test counts exactly the cars that can be parked without overlap; each returns the p-value of that result under its documented distribution.",
  ["diehard_2dsphere.c", "diehard_3dsphere.c", "rgb_minimum_distance.c", "diehard_parking_lot.c"]),
 ("C24", "Uniform-deviate tests play out their rules exactly",
  "For every stream of uniform deviates, the squeeze, overlapping-sums, craps, lagged-sums and KS self-test apply their documented rules to exactly the deviates drawn (each used as documented, lags skipped as requested) and return the p-value of the documented statistic for every supported sample size and lag.",
  ["diehard_squeeze.c", "diehard_sums.c", "diehard_craps.c", "rgb_lagged_sums.c", "rgb_kstest_test.c"]),
 ("C25", "The greatest-common-divisor test runs Euclid's algorithm exactly",
  "For every stream and width, the GCD test draws consecutive pairs of 32-bit words (skipping zeros), tallies the exact number of Euclid steps and the exact greatest common divisor of each pair, and returns the chi-square p-values of both tallies against their documented distributions, for every sequence of sample sizes used in one process.",
  ["marsaglia_tsang_gcd.c"]),
 ("C26", "Transform and fill-tree tests score exactly what they draw",
  "For every stream and width, the discrete-cosine-transform test returns the p-value of the position of the largest coefficient of each true cosine transform (or, for small samples, of all coefficients), and the fill-tree tests return the p-values of the fill counts (over the cells expected more than four times) and of the final positions of every tree built from the stream, with the documented bit rotations; too few samples for two such cells are not covered.",
  ["dab_dct.c", "dab_filltree.c", "dab_filltree2.c"]),
]
for id, t, s, fs in grp:
    p(id, t, s, ["inputs", "histories", "configurations"], "all streams of bounded alphabet and length (plus long structured families) x widths x sample sizes x n-tuples x repeated calls in one process",
      only206 + "other widths, n-tuples, sample sizes, extreme values and repeated calls are not reached.",
      [L + f for f in fs], [("the test functions registered in dh_test_types", L + "dieharder_test_types.c")], ["pvalues written by the test function, words drawn from the generator"])
p("C27", "Built-in generators implement their published algorithms",
  "For every 32-bit seed, the library's own generators (AES-OFB, Threefish-OFB, KISS, SuperKISS, cellular automaton, UVAG, and the R family: Wichmann-Hill, Marsaglia multicarry, Super-Duper, Mersenne Twister, Knuth TAOCP and TAOCP-2002, both with the 2002 seeding) produce exactly the sequence their published algorithm defines for the seeding described in the source, at every position of the stream, including across internal block and table refills.",
  ["inputs"], "a seed alphabet (all single-bit, boundary and small seeds) x stream positions beyond two internal refills",
  only206 + "one seed of one generator.", [L + "rng_aes.c", L + "rijndael-alg-fst.c", L + "rng_threefish.c", L + "skein_block64.c", L + "rng_kiss.c", L + "rng_superkiss.c", L + "rng_ca.c", L + "rng_uvag.c", L + "rngs_gnu_r.c"], [("set/get functions", L)], ["gsl_rng_get"])
p("C28", "No test or generator choice corrupts memory or dies",
  "Every registered test completes and writes a p-value in [0,1] for each of its statistics, without reading or writing outside its own memory, on any stream (including all-zero, all-one and constant streams, except that a test which redraws unusable values needs a stream that contains a usable one), any generator width from 8 to 32 bits, and any supported sample size, sample count and n-tuple, and releases what it allocated when it is destroyed; every generator can be seeded and drawn from any number of times without such an error and without holding more and more memory.",
  ["inputs", "configurations", "histories"], "all tests x widths x extreme stream families x parameter grids, under an address sanitizer",
  only206 + "no sanitizer, no extreme stream.", [L], [("the test functions", L)], ["process exit, sanitizer reports, pvalues"])
p("C29", "Device generators deliver exactly the device's words",
  "A generator backed by a random device delivers, as each successive output, the next 32-bit word of the device it opened, in order and unaltered, for every history of reads and reseeds; a device that cannot be opened or that ends is reported with a message instead of producing invented numbers. The random seed the library picks is a word of the random device (or comes from the clock when there is none), and is never zero, the value that means that no seed was given.",
  ["inputs", "fault_sequences", "histories"], "all device contents of a bounded alphabet, all points at which the device can fail or end, all read/reseed histories up to a depth",
  "No existing test uses a device generator or a random seed.", [L + "rng_dev_random.c", L + "rng_dev_urandom.c", L + "rng_dev_arandom.c", L + "random_seed.c"], [("fread of one word per output", L + "rng_dev_urandom.c"), ("random_seed", L + "random_seed.c")], ["gsl_rng_get on generators 500 to 502", "random_seed()"])
p("C30", "A reported seed repeats the run",
  "When no seed is given, the seed the program chose and reports, entered again with -S, reproduces the same numbers: the same exported file and the same test report, for every value the random device can supply, and different device words give different seeds. A run with a given seed tests that generator's own stream for that seed, under either seeding strategy.",
  ["inputs", "configurations"], "all device words of a boundary alphabet x generators x export, single test and multi-test runs",
  "Every existing test gives a seed.", [D + "choose_rng.c", D + "output_rnds.c", L + "random_seed.c", D + "output.c"], [("seed selection and reporting", D + "choose_rng.c")], ["dieharder output with and without -S"])
p("C90", "P-values are uniformly distributed when the generator is ideal",
  "On an ideal random source each test's p-values are uniformly distributed on [0,1] at its standard sample sizes.",
  ["inputs"], "the probability distribution over all infinite streams", "A sampled run can only suggest it.",
  [L], [("statistical calibration of each test", L)], ["distribution of p-values"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
