"""What each property's check runs: C++ harness targets (variant -> PARTs, quick cases, thorough cases),
Python test modules, and the Cython modules those need."""

LP = ["distributions.lp.models." + m for m in ("bb", "_bb", "bnb", "_bnb", "dd", "_dd", "dpd", "_dpd", "gp", "_gp", "nich", "_nich", "niw", "_niw")]
LP_COMMON = ["distributions.rng_cc", "distributions.global_rng", "distributions.lp.vector", "distributions.lp.random", "distributions.lp.special", "distributions.lp.clustering"]
HP = ["distributions.hp.special", "distributions.hp.random", "distributions.hp.models.dd", "distributions.hp.models.gp", "distributions.hp.models.nich"]
HP_COMMON = ["distributions.hp.special", "distributions.hp.random"]
RNG = ["distributions.rng_cc", "distributions.global_rng", "distributions.lp.vector"]
E_MODELS = LP + RNG + HP + ["distributions._eigen"]
E_CLUSTER = RNG + HP_COMMON + ["distributions.lp.clustering"]
E_TRACKER = HP_COMMON + ["distributions.lp.mixture"]
E_NUMERIC = RNG + HP_COMMON + ["distributions.lp.random", "distributions.lp.special", "distributions._eigen"]
ALL_EXTS = sorted(set(E_MODELS + E_CLUSTER + E_TRACKER + E_NUMERIC))

M = 1000000
K = 1000

CHECKS = {
    "C01": dict(py=["p_models"], exts=E_MODELS,
        cpp=[dict(src="c01_stats", prefix="C01_", variants={"rel": ([0, 1, 2, 3], 600 * K, 40 * M), "san": ([0, 1], 120 * K, 8 * M)},
                  fuzz=([0, 1], ["C01_bb", "C01_bnb", "C01_gp", "C01_nich", "C01_dd8", "C01_dd256", "C01_dpd", "C01_debt_dpd"]))],
    ),
    "C02": dict(py=["p_models"], exts=E_MODELS,
        cpp=[dict(src="c01_stats", prefix="C02_", variants={"rel": ([0, 1, 2, 3], 600 * K, 40 * M), "san": ([0, 1], 120 * K, 8 * M)},
                  fuzz=([0, 1], ["C02_bb", "C02_bnb", "C02_gp", "C02_nich", "C02_dd8", "C02_dd256", "C02_dpd"]))],
    ),
    "C03": dict(py=["p_models"], exts=E_MODELS, cpp=[dict(src="c03_scores", prefix="C03_", variants={"rel": ([0, 1, 2, 3], 1200 * K, 60 * M)})]),
    "C04": dict(py=["p_models"], exts=E_MODELS, cpp=[dict(src="c03_scores", prefix="C04_", variants={"rel": ([0, 1, 2, 3], 300 * K, 8 * M)})]),
    "C05": dict(py=["p_models"], exts=E_MODELS, cpp=[dict(src="c03_scores", prefix="C05_", variants={"rel": ([0, 1, 2, 3], 1500 * K, 80 * M)})]),
    "C06": dict(py=["p_models"], exts=E_MODELS,
        cpp=[dict(src="c06_mixture", prefix="C06_", variants={"rel": ([0, 1, 2, 3], 700 * K, 30 * M), "san": ([0, 1], 120 * K, 5 * M)},
                  fuzz=([0, 1], ["C06_cached_bb", "C06_cached_bnb", "C06_cached_gp", "C06_cached_nich", "C06_cached_dd8", "C06_cached_dd256", "C06_cached_dpd", "C06_plain_dpd"]))],
    ),
    "C07": dict(py=["p_cluster"], exts=E_CLUSTER, cpp=[dict(src="c07_clustering", prefix="C07_", variants={"rel": ([0], 1 * M, 60 * M), "san": ([0], 150 * K, 10 * M)},
                          fuzz=([0], ["C07_py_cached", "C07_py_driver", "C07_le_driver"]))]),
    "C08": dict(py=["p_cluster"], exts=E_CLUSTER + E_TRACKER, cpp=[dict(src="c07_clustering", prefix="C08_", variants={"rel": ([0], 1 * M, 60 * M), "san": ([0], 150 * K, 10 * M)},
                          fuzz=([0], ["C08_tracker"]))]),
    "C09": dict(py=["p_cluster"], exts=E_CLUSTER, cpp=[dict(src="c07_clustering", prefix="C09_", variants={"rel": ([0], 2 * M, 40 * M), "san": ([0], 60 * K, 2 * M)})]),
    "C10": dict(py=["p_cluster"], exts=E_CLUSTER, cpp=[dict(src="c07_clustering", prefix="C10_", variants={"rel": ([0], 2 * M, 40 * M), "san": ([0], 60 * K, 2 * M)})]),
    "C11": dict(py=["p_cluster"], exts=E_CLUSTER, cpp=[dict(src="c07_clustering", prefix="C11_", variants={"rel": ([0], 100 * K, 3 * M), "san": ([0], 8 * K, 200 * K)})]),
    "C12": dict(py=["p_numeric"], exts=E_NUMERIC, cpp=[dict(src="c12_numeric", prefix="C12_", variants={"rel": ([0], 6 * M, 400 * M), "san": ([0], 600 * K, 20 * M)})]),
    "C13": dict(cpp=[dict(src="c12_numeric", prefix="C13_", variants={"rel": ([0], 1 * M, 60 * M), "san": ([0], 150 * K, 8 * M)},
                          fuzz=([0], ["C13_kernels", "C13_functions", "C13_storage"]))]),
    "C14": dict(py=["p_numeric"], exts=E_NUMERIC, cpp=[dict(src="c12_numeric", prefix="C14_", variants={"rel": ([1], 1 * M, 40 * M), "san": ([1], 100 * K, 4 * M)})]),
    "C16": dict(py=["p_numeric"], exts=E_NUMERIC, cpp=[dict(src="c12_numeric", prefix="C16_", variants={"rel": ([2], 25 * K, 1 * M), "san": ([2], 0, 100 * K)})]),
    "C15": dict(py=["p_models"], exts=E_MODELS, cpp=[dict(src="c15_samplers", prefix="C15_", variants={"rel": ([0, 1, 2, 3], 24 * K, 600 * K)})]),
    "C17": dict(py=["p_models", "p_cluster"], exts=E_MODELS + E_CLUSTER, cpp=[dict(src="c17_io", prefix="C17_", variants={"rel": ([0, 1, 2, 3], 500 * K, 30 * M), "san": ([0, 1], 60 * K, 4 * M)},
                          fuzz=([0, 1], ["C17_group_nich", "C17_group_dpd", "C17_shared_dpd", "C17_group_dd256"]))]),
    "C19": dict(py=["p_models"], exts=E_MODELS, cpp=[dict(src="c17_io", prefix="C19_", variants={"rel": ([1], 500 * K, 20 * M), "san": ([1], 40 * K, 2 * M)},
                          fuzz=([1], ["C19_weights"]))]),
    "C18": dict(py=["p_models", "p_cluster"], exts=E_MODELS + E_CLUSTER),
    "C21": dict(py=["p_streams"]),
    "C22": dict(py=["p_util"]),
    "C20": dict(cpp=[dict(src="c12_numeric", prefix="C20_", variants={"rel": ([3], 1 * M, 60 * M), "san": ([3], 150 * K, 8 * M)},
                          fuzz=([3], ["C20_counter_u32", "C20_counter_i32", "C20_counter_u64", "C20_sparse_u32", "C20_sparse_u64", "C20_packed_string"]))]),
    "C24": dict(py=["p_gibbs"], exts=E_MODELS + E_CLUSTER + E_TRACKER, cpp=[dict(src="c24_gibbs", prefix="C24_", variants={"rel": ([0, 1, 2, 3], 700 * K, 30 * M), "san": ([0, 1], 60 * K, 2 * M)})]),
    "C25": dict(cpp=[dict(src="c25_compare", prefix="C25_", variants={"rel": ([0], 400 * K, 30 * M)})]),
    "C26": dict(py=["p_misuse"], exts=ALL_EXTS, cpp=[dict(src="c26_misuse", prefix="C26_", variants={"chk": ([0, 1, 2], 1 * M, 60 * M)})]),
    "C27": dict(cpp=[dict(src="c27_threads", prefix="C27_", variants={"tsan": ([0, 1, 2, 3], 40 * K, 2 * M), "rel": ([0, 1, 2, 3], 80 * K, 4 * M)})]),
    "C23": dict(py=["p_models", "p_cluster"], exts=E_MODELS + E_CLUSTER, cpp=[dict(src="c23_pure", prefix="C23_", variants={"rel": ([0, 1, 2, 3], 200 * K, 10 * M), "san": ([0, 1], 20 * K, 1 * M)},
                          fuzz=([0, 1], ["C23_cached_dpd", "C23_cached_dd8", "C23_random", "C23_clustering"]))]),
}
TECHNIQUE = {
    "C01": "stateful property-based testing against a multiset model, with sanitizers and coverage-guided fuzzing",
    "C02": "stateful property-based testing of merges against a multiset model, with sanitizers and coverage-guided fuzzing",
    "C03": "property-based testing: metamorphic chain-rule and permutation relations over generated data sets",
    "C04": "property-based testing: generated groups, predictive summed or integrated numerically against 1",
    "C05": "property-based testing: differential against a double-precision closed-form reference",
    "C06": "stateful property-based testing of mixtures against independent groups, with sanitizers and coverage-guided fuzzing",
    "C07": "stateful property-based testing against a plain model of packed counts, with sanitizers and coverage-guided fuzzing",
    "C08": "stateful property-based testing against a list model, with sanitizers and coverage-guided fuzzing",
    "C09": "property-based testing: exact reference, chain-rule relations and summation over all partitions",
    "C10": "property-based testing: exact reference and summation over all partitions",
    "C25": "property-based testing: metamorphic perturbation and reordering of generated messages",
    "C26": "stateful property-based testing of histories with injected misuse, compared with snapshots and undisturbed twins",
    "C27": "property-based testing: generated histories run in several threads against the same histories run alone, under a race detector",
    "C11": "property-based testing: validity invariants and chi-squared and martingale tests of generated partitions",
    "C12": "property-based testing: differential against double-precision functions, aimed at table and segment boundaries",
    "C13": "property-based testing: differential against the elementwise definition inside guarded buffers, with sanitizers and coverage-guided fuzzing",
    "C14": "property-based testing: generator states aimed at outcome boundaries, exact probabilities, chi-squared tests with confirmation",
    "C16": "property-based testing: Kolmogorov-Smirnov and chi-squared tests over generated parameters, with confirmation on fresh draws",
    "C15": "property-based testing: probability integral transforms of generated groups' draws, tested for uniformity and independence, with confirmation",
    "C17": "stateful property-based testing: round trips through serialised bytes into fresh and used objects, then identical further histories",
    "C19": "stateful property-based testing against a model of reference counts and conserved weight, with sanitizers and coverage-guided fuzzing",
    "C24": "property-based testing: model-based histories of an assembled sampler against the exact model, and posterior invariance over all partitions",
    "C23": "property-based testing: metamorphic repetition of generated histories on differently filled memory, and invariance under const operations",
    "C18": "stateful differential property-based testing of the flavors against each other",
    "C21": "property-based testing: round trips through generated files, against the standard library's readers",
    "C22": "property-based testing: reference formulas, equivariance relations, and calibration and power over generated samples",
    "C20": "stateful property-based testing against std::map and std::vector models, with sanitizers and coverage-guided fuzzing",
}
NOTE = {
    "C01": "Random search: no counterexample among the generated histories. Trusts the multiset recomputation in double precision and its rounding bounds.",
    "C02": "Random search: no counterexample among the generated merges. Trusts the multiset recomputation in double precision and its rounding bounds.",
    "C03": "Random search. Tolerances derive from the measured accuracy of the single-precision log and lgamma approximations.",
    "C04": "Random search. Sums and integrals truncate tails whose mass the reference bounds; the bnb binomial coefficient is a known finding.",
    "C05": "Random search. Trusts the double-precision textbook formulas in cpp/oracle.cc; the bnb binomial coefficient is a known finding.",
    "C06": "Random search. Trusts that the group scoring itself is right (C03 to C05 check that); tolerances cover cached rounding.",
    "C07": "Random search: no counterexample among the generated histories.",
    "C08": "Random search: no counterexample among the generated histories.",
    "C09": "Random search; every partition is enumerated only up to 9 items.",
    "C10": "Random search; every partition is enumerated only for small sizes; the approximate partition function above 48 items is held to 3e-4 relative.",
    "C12": "Random search over bit patterns: not exhaustive over all floats. Trusts libm's double-precision functions.",
    "C13": "Random search: no counterexample among the generated vectors.",
    "C14": "Random search. Frequencies are tested to p of about 1e-7, three times over; small deviations in probability stay undetected.",
    "C16": "Random search with statistical tests to p of about 1e-7, three times over; small deviations in distribution stay undetected.",
    "C15": "Random search with statistical tests to p of about 1e-7, three times over; small deviations in distribution stay undetected. niw draws only where single precision keeps covariances positive definite.",
    "C17": "Random search: no counterexample among the generated states.",
    "C19": "Random search: no counterexample among the generated histories. The sum of the weights may exceed 1 by the minimum weight per added value.",
    "C24": "Random search; items of at most two features in C++ and Python; posterior invariance is a statistical test over partitions of up to five items.",
    "C23": "Random search. Uninitialised memory is only noticed if it changes a result between two differently filled heaps and stacks, or under sanitizers.",
    "C18": "Random search. The low-precision flavor is held to the measured accuracy of its approximations.",
    "C21": "Random search: no counterexample among the generated record lists; records up to 70,000 bytes.",
    "C22": "Random search. Calibration and power of the goodness-of-fit functions are checked for clear deviations only.",
    "C20": "Random search: no counterexample among the generated histories.",
    "C25": "Random search: no counterexample among the generated messages. Differences between a tenth of and twice the tolerance are left undecided.",
    "C26": "Random search over the misuse the code checks; preconditions it does not check are out of scope. Python runs under the assertions of an unoptimised interpreter.",
    "C27": "Random search over histories; schedules are the ones that happen, with data races found by happens-before analysis of them. glibc's own store to signgam is left out.",
    "C11": "Random search with statistical tests at p of about 1e-9, confirmed by a second draw; small deviations in probability stay undetected.",
}
