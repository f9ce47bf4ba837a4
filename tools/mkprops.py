#!/usr/bin/python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

M = "include/distributions/models/"
MODELS = [M + m + ".hpp" for m in ("bb", "bnb", "dd", "dpd", "gp", "nich", "niw")]
DBG = ["distributions/dbg/models/%s.py" % m for m in ("bb", "bnb", "dd", "dpd", "gp", "nich", "niw")]
HP = ["distributions/hp/models/%s.pyx" % m for m in ("dd", "gp", "nich")]
LP = ["distributions/lp/models/%s.pyx" % m for m in ("bb", "_bb", "bnb", "_bnb", "dd", "_dd", "dpd", "_dpd", "gp", "_gp", "nich", "_nich", "niw", "_niw")]
R = "include/distributions/random.hpp"
HIST = "histories of any length, order and interleaving"

prop("C01", "Group statistics depend only on the values a group holds",
 "For every component model (beta-Bernoulli, beta-negative-binomial, Dirichlet-discrete, Dirichlet-process-discrete, gamma-Poisson, normal-inverse-chi-squared, normal-inverse-Wishart) and every flavor, a group's dumped sufficient statistics and its scores depend only on the multiset of values it holds after any history of init, add_value, add_repeated_value and remove_value, not on the order or on values added and later removed. Adding a value n times with add_repeated_value has the same effect as n add_value calls on any group, empty or not. Count statistics agree exactly; real-valued ones up to floating-point rounding of the stored statistics, and sums of squared deviations are never negative.",
 ["histories", "inputs"], "all histories of add/remove/add_repeated over all values in each model's support, all hyperparameters, all flavors (C++ header, lp, hp, dbg)",
 "Tests add a handful of example values and remove them in one fixed order; add_repeated is only tried on an empty group; nothing interleaves operations or compares against an independent recomputation.",
 MODELS + DBG + HP + LP, [("Group::add_value / remove_value / add_repeated_value", M + "*.hpp"), ("running mean and count_times_variance update", M + "nich.hpp")],
 [("Group", "sufficient statistics of one mixture component", M + "*.hpp")], ["Group.dump / protobuf_dump", "score_value", "score_data"])

prop("C02", "Merging groups equals adding all of the other group's values",
 "For every model and flavor, merging a source group into a destination leaves the destination with the statistics and scores of a group holding the values of both, and the source unchanged; this holds for empty groups, disjoint and overlapping supports, and repeated merges, and the merged group behaves normally under later additions and removals.",
 ["histories", "inputs"], "all pairs (and chains) of groups reachable by add/remove histories, including empty ones, followed by further operations",
 "test_group_merge merges groups built from the example values once, checks the dump only, and never merges an empty or a previously merged group.",
 MODELS + DBG + HP + LP + ["include/distributions/sparse.hpp"], [("Group::merge", M + "*.hpp"), ("SparseCounter::merge", "include/distributions/sparse.hpp")],
 (), ["Group.dump", "score_value", "score_data"])

prop("C03", "Marginal score is the chain-rule sum of predictive scores",
 "For every model and flavor, score_data of a group equals the sum of score_value of its values taken one by one, each scored against the group of the values before it, starting from an empty group whose score_data is 0; the sum is the same for every ordering of the values. Equality is up to the accuracy of the library's single-precision log and lgamma approximations.",
 ["inputs", "histories"], "all data sets and orderings, all hyperparameters within each model's valid domain",
 "test_add_remove does this for seven fixed examples with a handful of values each; extreme hyperparameters, large counts and other orderings are never scored.",
 MODELS + DBG + HP + LP + [R], [("Group::score_value / score_data", M + "*.hpp")], (), ["score_value", "score_data"])

prop("C04", "Predictive scores are normalised log probabilities",
 "For every model, flavor and reachable group, exp(score_value) is a probability distribution over the model's support: it sums to 1 over discrete values (for the Dirichlet-process model including the OTHER value that stands for everything unseen) and integrates to 1 over real values, up to approximation accuracy. No in-support value scores NaN.",
 ["inputs", "histories"], "all hyperparameters and all groups reachable by add/remove/merge",
 "Normalisation is never summed in the tests; samplers are compared against scores only on example groups with loose thresholds.",
 MODELS + DBG + HP + LP, [("Scorer::init / eval, Group::score_value", M + "*.hpp")], (), ["score_value"])

prop("C05", "Scores equal the closed-form conjugate model",
 "For every model and flavor, score_value and score_data equal the textbook log posterior predictive and log marginal likelihood of the documented conjugate model (Bernoulli with beta prior, negative binomial with fixed r and beta prior on p, categorical with Dirichlet prior, categorical with realized stick-breaking base weights, Poisson with gamma(shape alpha, inverse scale inv_beta) prior, normal with normal-inverse-chi-squared prior, multivariate normal with normal-inverse-Wishart prior), computed directly from the raw data, up to the library's approximation accuracy; scorer objects and the plus_group posterior hyperparameters agree with them.",
 ["inputs", "histories"], "all hyperparameters in the valid domain, all data sets in the support",
 "There are no reference values in the tests for most models: flavors are compared with each other on one example, so a shared or lp-only error at other parameters is invisible.",
 MODELS + DBG + HP + LP + ["src/models/gp.cc", "src/models/nich.cc", "src/models/niw.cc", R], [("Scorer::init/eval", M + "*.hpp"), ("Shared::plus_group", M + "gp.hpp, nich.hpp, niw.hpp"), ("score_mv_student_t", R)],
 (), ["score_value", "score_data", "plus_group"])

prop("C06", "Mixture scorers agree with their groups after any history",
 "After any history of init, add_group, remove_group, add_value and remove_value on a mixture (cached or uncached), score_value adds to each accumulator slot exactly the score_value of the corresponding group, score_value_group returns the same number, score_data is the sum of the groups' score_data, and score_data_grid gives score_data for each hyperparameter set of the grid. Groups are packed: removing group i moves the last group into slot i and leaves the others in place, and the stored groups equal the ones obtained by applying the same operations to independent groups.",
 ["histories", "inputs"], HIST + " of mixture operations for all models; all values scored; all grids of hyperparameters; zero to dozens of groups",
 "test_mixture_score applies one scripted sequence to the example values per model, never removes a group out of the middle after caching, and never scores values that are unseen by the cache.",
 ["include/distributions/mixture.hpp", "include/distributions/vector.hpp", "src/models/gp.cc", "src/models/nich.cc", "src/models/niw.cc", "src/vector_math.cc"] + MODELS + LP,
 [("MixtureSlave", "include/distributions/mixture.hpp"), ("MixtureValueScorer / MixtureDataScorer", M + "*.hpp"), ("Packed_", "include/distributions/vector.hpp")],
 [("cached per-group score vectors", "log predictive pieces per group", M + "*.hpp MixtureValueScorer")], ["Mixture::score_value", "score_value_group", "score_data", "score_data_grid", "groups()"])

prop("C07", "Clustering mixtures track counts and keep their empty groups",
 "After any history of init, add_value and remove_value (of one or several items) the clustering mixture driver reports counts, sample size and the set of empty group ids exactly as a plain model of packed group counts does: the number of empty groups never changes, add_value returns true exactly when it filled an empty group (a fresh empty group is then appended), remove_value returns true exactly when it emptied a group (the last group is then moved into its slot). Its vector of scores equals the clustering model's score_add_value for each group, for both Pitman-Yor (cached) and low-entropy priors, in C++ and through the lp wrappers.",
 ["histories", "inputs"], HIST + " of driver operations over all initial count vectors with at least one empty group and all clustering hyperparameters",
 "One scripted add-all-then-remove-all run per example model, always one item at a time.",
 ["include/distributions/mixture.hpp", "include/distributions/clustering.hpp", "distributions/lp/clustering.pyx"],
 [("MixtureDriver::add_value/remove_value", "include/distributions/mixture.hpp"), ("PitmanYor::CachedMixture", "include/distributions/clustering.hpp")],
 [("empty_groupids_", "ids of groups with zero count", "include/distributions/mixture.hpp"), ("shifted_scores_", "cached unnormalised scores", "include/distributions/clustering.hpp")], ["counts()", "empty_groupids()", "sample_size()", "score_value", "return flags"])

prop("C08", "Group ids: global ids are stable, unique and never reused",
 "Through any history of adding and removing groups, the id tracker keeps a bijection between the packed ids 0..size-1 and the live global ids: a group's global id never changes while it lives, a new group gets the next never-used global id, removing packed id i moves the last packed group to i and leaves all others, and packed_to_global and global_to_packed are mutually inverse.",
 ["histories"], HIST + " of init/add_group/remove_group",
 "The tracker is exercised by one scripted sequence inside the mixture test.",
 ["include/distributions/mixture.hpp", "distributions/lp/mixture.pyx"], [("MixtureIdTracker", "include/distributions/mixture.hpp")], (), ["packed_to_global", "global_to_packed", "packed_size", "global_size"])

prop("C09", "Pitman-Yor scores form an exchangeable partition distribution",
 "For every valid (alpha, d), Pitman-Yor score_counts is the log probability of a partition: it equals the sum of score_add_value along any order of seating, does not depend on the order of the counts or on empty entries, sums to 1 over all partitions of n items, and exp(score_add_value) over all existing groups plus all empty groups sums to 1. score_remove_value of a group is minus the score_add_value that would put the item back, for the same number of empty groups.",
 ["inputs", "histories"], "all alpha > 0, 0 <= d < 1, all partitions, all seating orders, any number of empty groups",
 "Tests use five (alpha, d) pairs, sample_count at most 8 items and sampled partitions, and never call score_remove_value.",
 ["include/distributions/clustering.hpp", "src/clustering.cc", "distributions/lp/clustering.pyx"], [("score_counts, score_add_value, score_remove_value", "include/distributions/clustering.hpp, src/clustering.cc")], (), ["score_counts", "score_add_value", "score_remove_value"])

prop("C10", "Low-entropy clustering scores follow the partition-entropy prior",
 "For the low-entropy model with a full data set, score_counts is log(prod n_k^n_k) minus the log partition function, which is exact (log of the sum over all set partitions) below 48 items, so scores sum to 1 over all partitions of that size; score_add_value is the log ratio of unnormalised weights for growing a group (with the documented correction and a uniform split over empty groups for a new one), score_remove_value is minus the score_add_value that would put the item back for the same number of empty groups, and score_counts ignores empty groups and the order of the counts. The lp and dbg flavors agree.",
 ["inputs", "histories"], "all data set sizes, sample sizes not above them, all partitions and numbers of empty groups",
 "Normalisation is checked by sampling with a known-imprecise warning at one size, score_remove_value is never called, and counts with empty groups are never scored.",
 ["include/distributions/clustering.hpp", "src/clustering.cc", "distributions/lp/clustering.pyx", "distributions/dbg/clustering.py"], [("LowEntropy", "include/distributions/clustering.hpp, src/clustering.cc"), ("LowEntropy", "distributions/dbg/clustering.py")], (), ["score_counts", "score_add_value", "score_remove_value", "log_partition_function"])

prop("C11", "Sampled partitions are valid and follow the model's distribution",
 "sample_assignments returns an assignment of exactly the requested length whose group ids appear in order of first use with none skipped, and count_assignments returns the size of each group of such an assignment. For Pitman-Yor, partitions are drawn with probability exp(score_counts); for the low-entropy model each item is assigned with probability proportional to exp(score_add_value) given the items before it.",
 ["inputs"], "all model hyperparameters, all sizes including 0 and 1, all random streams",
 "The tests compare sampled frequencies of five examples with a loose threshold and never validate the raw assignment vectors.",
 ["src/clustering.cc", "distributions/lp/clustering.pyx", "distributions/dbg/clustering.py"], [("sample_assignments, count_assignments", "src/clustering.cc")], (), ["sample_assignments", "count_assignments"])

prop("C12", "Special functions stay within their stated accuracy everywhere",
 "fast_log, fast_exp, fast_lgamma, fast_lgamma_nu, log_beta, log_binom and their fast versions, fast_log_factorial, lmultigamma, log_sum_exp, log_stirling1_row, the Student-t scores (scalar and multivariate) and the elementwise vector versions approximate the exact functions over their whole domain, including table edges and segment boundaries, within the accuracy of the approximation scheme (about 6e-5 absolute for log, 1e-5 relative for exp and lgamma, 2e-2 absolute for lgamma_nu; log_stirling1_row exact below 32 and an approximation above).",
 ["inputs"], "all representable single-precision arguments in each function's domain",
 "Tests evaluate a few dozen points each at tolerance 1e-3 or looser and do not target segment boundaries.",
 ["include/distributions/special.hpp", "src/special.cc", "include/distributions/vendor/fmath.hpp", "src/vector_math.cc", "distributions/dbg/special.py", "distributions/hp/special.pyx", "distributions/lp/special.pyx"],
 [("coefficient tables and range reduction", "src/special.cc, include/distributions/special.hpp")], (), ["fast_*", "vector_*", "Python special modules"])

prop("C13", "Vector kernels equal the elementwise definition",
 "Every vector_* kernel computes exactly its elementwise or reduction definition for every length (including lengths that are not multiples of the SIMD width and, where meaningful, zero), writes only the given range, leaves its inputs unchanged, and its in-place and out-of-place versions agree.",
 ["inputs"], "all lengths, alignments of the caller's buffers that the callers use, and all finite contents",
 "There is no C++ test of the vector kernels at all; they are only reached through model scoring on small examples.",
 ["src/vector_math.cc", "include/distributions/vector_math.hpp", "include/distributions/aligned_allocator.hpp", "include/distributions/vector.hpp"], [("vector_* kernels", "src/vector_math.cc"), ("aligned storage", "include/distributions/aligned_allocator.hpp")], (), ["vector_*"])

prop("C14", "Discrete sampling is in range and proportional to likelihood",
 "Sampling an index from probabilities, likelihoods or scores always returns an index in range whose likelihood is positive, with frequency proportional to likelihood (exp of score), for any common shift of the scores; the reported probability is that index's normalised probability and agrees with score_from_scores for that index; scores_to_likelihoods and scores_to_probs give values proportional to exp(score), the latter summing to 1. Urn samplers return members of the urn, pairs being two distinct positions, uniformly.",
 ["inputs"], "all score/likelihood vectors of any length and spread (including very negative scores and zero likelihoods), all random streams",
 "Tests draw from a few random vectors of moderate spread and check frequencies coarsely.",
 [R, "src/random.cc", "distributions/lp/random.pyx", "distributions/dbg/random.py", "distributions/util.py"], [("sample_from_likelihoods, sample_discrete, scores_to_likelihoods, score_from_scores_overwrite, sample_pair_from_urn", R)], (), ["sample_from_scores*", "sample_prob_from_scores*", "scores_to_probs", "sample_discrete", "sample_from_urn"])

prop("C15", "Model samplers draw from the posterior predictive",
 "For every model, flavor and reachable group, sample_value draws lie in the model's support and are distributed as the posterior predictive of the documented conjugate model; sampler objects and sample_group draws are exchangeable sequences with the same one-value marginal, in which all values drawn from one sampler share one latent parameter.",
 ["inputs", "histories"], "all hyperparameters and all reachable groups, all random streams",
 "Tests run one coarse goodness-of-fit check per example on two groups; other parameters and pairwise dependence are never examined.",
 MODELS + DBG + HP + LP + [R, "src/random.cc"], [("Sampler::init / eval", M + "*.hpp")], (), ["sample_value", "Sampler.init/eval", "sample_group"])

prop("C16", "Primitive samplers follow their named distributions",
 "Each primitive sampler (Bernoulli, uniform integer, normal parameterised by mean and variance, chi-squared, Poisson, negative binomial, gamma, beta, Dirichlet, multivariate normal, Wishart, inverse Wishart, normal-inverse-Wishart, stick-breaking, Student-t, categorical, items and ordered pairs of distinct items from an urn) draws values in its support from the distribution with the documented parameters, in each module that offers it; the safe beta and Dirichlet variants stay within their stated bounds and return normalised values.",
 ["inputs"], "all valid parameters, all random streams",
 "Only a few samplers are compared with a reference at one parameter setting; the Wishart family and the safe variants are unchecked at most parameters.",
 [R, "src/random.cc", "distributions/dbg/random.py", "distributions/hp/random.pyx", "distributions/lp/random.pyx", "distributions/util.py"], [("sample_*", R)], (), ["sample_*"])

prop("C17", "Serialised shared parameters and groups round-trip",
 "For every model, flavor and reachable state, dumping a Shared, Group or clustering model to protobuf or to a JSON-able dict and loading it into a fresh object, or into one that held other contents, gives an object with the same dump, the same scores and the same behaviour under further updates; a dump made by one flavor loads in every other flavor of the model with the same meaning. A dump is a snapshot: later changes to the object it was taken from, or to an object loaded from it, leave it unchanged, and changing it changes neither.",
 ["histories", "inputs"], "all reachable states of all models including empty groups and large counts, all flavors on both sides, protobuf and JSON forms",
 "Tests round-trip example states only, always into fresh objects and mostly within one flavor, and check the dump but not later behaviour.",
 MODELS + DBG + HP + LP + ["include/distributions/io/protobuf.hpp", "distributions/io/schema.proto", "distributions/mixins.py", "distributions/lp/clustering.pyx", "distributions/dbg/clustering.py"], [("protobuf_load / protobuf_dump / load / dump", M + "*.hpp, distributions/*/models/*"), ("mixins", "distributions/mixins.py")], (), ["dump/load", "protobuf_dump/protobuf_load"])

prop("C18", "All flavors of a model agree",
 "For every model, the Python reference (dbg), high-precision (hp) and low-precision (lp) flavors, driven through the same history from the same hyperparameters, hold the same sufficient statistics and return the same scores, up to single-precision approximation accuracy, for every value in the support; where a flavor exposes mixtures, posterior hyperparameters or scorers, they agree as well.",
 ["histories", "inputs"], "all histories, hyperparameters and values accepted by all flavors",
 "The flavor test compares scores on the single example per model after adding three values.",
 DBG + HP + LP, [("the three implementations", "distributions/{dbg,hp,lp}/models")], (), ["dump", "score_value", "score_data"])

prop("C19", "Dirichlet-process base weights stay a probability distribution",
 "For the Dirichlet-process discrete model, after any history of adding and removing observed values and of realize, the base weights of the seen values are positive, together with the leftover weight beta0 (never negative) they sum to 1 up to rounding and the documented minimum weight; a value has a weight exactly while its reference count is positive, adding a new value takes its weight out of beta0, removing its last reference returns it, and realize leaves beta0 at zero with all mass on realized values. OTHER can never be added or removed.",
 ["histories", "inputs"], HIST + " of add_value/remove_value/realize, all gamma and alpha, all random streams",
 "The shared state is only driven through the example, which is fully realized, so weights never move in the tests.",
 [M + "dpd.hpp", "distributions/dbg/models/dpd.py", "distributions/lp/models/dpd.pyx", "include/distributions/sparse.hpp"], [("Shared::add_value/remove_value/realize", M + "dpd.hpp")], [("beta0, betas, counts", "leftover mass, weights, reference counts", M + "dpd.hpp")], ["Shared dump", "score_value"])

prop("C20", "Sparse counters and packed vectors behave as plain maps and lists",
 "Through any history, a sparse counter behaves as a map from keys to signed counts that stores no zero entries, with a running total equal to the sum of the counts (also after merge, rename, initialisation and clear); a sparse map behaves as a map with checked duplicate and missing keys; a packed vector's packed_remove moves the last element into the removed slot and leaves the others.",
 ["histories", "inputs"], HIST + " of container operations with all key patterns, including extreme keys and keys equal modulo powers of two",
 "There is no unit test of the containers; they are used by one model with small consecutive keys.",
 ["include/distributions/sparse.hpp", "include/distributions/trivial_hash.hpp", "include/distributions/vector.hpp"], [("Sparse_, SparseCounter", "include/distributions/sparse.hpp"), ("Packed_", "include/distributions/vector.hpp")], (), ["get_count", "get_total", "iteration", "packed_remove"])

prop("C21", "JSON and protobuf streams return the records that were written",
 "Any list of JSON-able values or of byte messages written with the stream functions is read back as the same list, in order, from plain and compressed files, whatever the record contents and sizes; the JSON stream file is itself a valid JSON document holding the list, and whole-file JSON load and dump round-trip a value. Records may be serialised messages, which read back as equal messages. Files open transparently compressed by their suffix, in directories that are made as needed, and the temporary-directory and chdir helpers put the working directory back, also after an exception. A file cut short at any byte, as a crash of its writer leaves it, yields only records that were written, and then ends or is refused.",
 ["inputs"], "all record lists (including empty lists, empty records and records with newlines or brackets inside strings) and all supported file kinds",
 "The stream tests use one fixed list and, on the interpreter used here, fail before reaching the code.",
 ["distributions/io/stream.py", "distributions/fileutil.py"], [("json_stream_dump/load, protobuf_stream_*", "distributions/io/stream.py"), ("tempdir, chdir", "distributions/fileutil.py")], (), ["stream functions", "the files written", "tempdir, chdir"])

prop("C22", "Score and goodness-of-fit utilities compute what they document",
 "scores_to_probs returns a normalised, shift-invariant distribution in score order; histogram and bin_samples preserve counts (every sample falls in exactly one bin, sums match, bins of bin_samples are contiguous and differ by at most one sample); the goodness-of-fit functions return a p-value in [0, 1] that is not small for samples drawn from the claimed distribution and is small for clearly different ones, for discrete and density forms.",
 ["inputs"], "all score lists, all samples and distributions accepted by the functions (distinct samples, at least one per bin, for bin_samples)",
 "Tests use one-dimensional Gaussian examples and one hand-written score list.",
 ["distributions/util.py"], [("scores_to_probs, bin_samples, multinomial_goodness_of_fit, density_goodness_of_fit, discrete_goodness_of_fit", "distributions/util.py")], (), ["distributions.util functions"])

prop("C23", "Results are a pure function of arguments and random state",
 "Two runs of the same sequence of operations from the same arguments and the same random generator state return identical results and leave the generator in the same state, in C++ and for seeded Python flavors; operations on const objects (scoring, sampling, dumping, validating) do not change what the object later returns, and scoring does not consume randomness.",
 ["histories", "inputs"], "all operation sequences over all models, mixtures, clustering and sampling functions, all seeds",
 "test_rng checks one sampler under one seed.",
 MODELS + [R, "src/random.cc", "src/clustering.cc", "distributions/rng.py", "distributions/rng_cc.pyx", "distributions/global_rng.pyx"], [("explicit rng_t argument", R), ("global_rng", "distributions/global_rng.pyx")], (), ["all sampling and scoring entry points"])

prop("C24", "A Gibbs sampler assembled from the parts targets the exact posterior",
 "When the parts are put together as the library intends (a clustering mixture, one mixture per feature, an id tracker, and sample_from_scores over the summed scores, as in examples/mixture), then after any history of items joining, moving and leaving, every score slot of the assembled conditional equals the exact posterior conditional of the full model for that group up to one common constant, all parts agree on the number, order and contents of the groups, and a sweep started from an exact posterior draw yields an exact posterior draw. Groups may be added before or after the first init.",
 ["histories", "inputs"], HIST + " of add, move and remove of items with missing features, all pairs of feature models, hyperparameters and values",
 "The unit tests check one part at a time; nothing assembles a sampler, and only the examples would, which are not run as tests.",
 MODELS + ["include/distributions/mixture.hpp", "include/distributions/clustering.hpp", R, "distributions/lp/mixture.pyx", "distributions/lp/clustering.pyx", "distributions/lp/models", "examples/mixture"], [("MixtureSlave, MixtureDriver, MixtureIdTracker", "include/distributions/mixture.hpp"), ("Clustering::Mixture", "include/distributions/clustering.hpp"), ("sample_from_scores_overwrite", R)], [("packed group order", "slot i of every part is the same group", "include/distributions/mixture.hpp")], ["score_value of each part", "groups of each part", "sampled assignment"])

prop("C25", "Comparing serialised states tells equal from different",
 "are_close, as used by DIST_ASSERT_CLOSE and the flavors' own consistency tests, accepts two serialised shared parameters or groups exactly when all their fields agree up to the documented tolerance, whatever the order in which sparse entries are listed, and rejects them when any field, entry or length differs by more; message equality is equality of contents; the printed form of vectors and messages shows every element. The comparison is symmetric and a state is always close to itself.",
 ["inputs"], "all messages of all models, all perturbations of single fields and entries, all orders of sparse entries",
 "The comparison is the oracle of the project's own C++ test: a comparison that accepts too much makes that test pass on anything, and nothing tests the comparison.",
 ["include/distributions/assert_close.hpp", "include/distributions/io/protobuf.hpp", "src/test_protobuf.cc"], [("are_close, DIST_ASSERT_CLOSE", "include/distributions/assert_close.hpp"), ("operator==, are_close, operator<<", "include/distributions/io/protobuf.hpp")], (), ["are_close", "operator==", "operator<<"])

prop("C26", "Checked misuse raises an error and leaves objects fit for use",
 "In the checked configuration in which the Python modules are built (DIST_DEBUG_LEVEL=3 with DIST_THROW_ON_ERROR), and in the Python flavors, a call that breaks a documented precondition which the code checks (group, global or packed ids and dirichlet-discrete values out of bounds, also below zero; score arrays of another length; values unknown to the Dirichlet-process parameters, or OTHER; removals from an empty group; driver without an empty group; duplicate and missing keys; malformed or oversized states and messages; clustering parameters out of range; non-contiguous assignments; empty urns and likelihoods; unusable goodness-of-fit samples; files of another format or cut short) raises an exception instead of returning or ending the process. The groups, shared parameters, mixtures, trackers and arrays involved in a refused operation are unchanged, an object that refused a state can load a good one, and calls within the domain never raise.",
 ["histories", "inputs"], HIST + " with misuse interleaved; all out-of-range ids, values, lengths and states of the kinds listed",
 "Unit tests never call out of bounds; a check that is off by one, comes after the damage, or lets the error escape through a wrapper that cannot carry it is invisible to them.",
 MODELS + LP + ["include/distributions/common.hpp", "include/distributions/mixture.hpp", "include/distributions/clustering.hpp", "include/distributions/sparse.hpp", "include/distributions/vector.hpp", R, "distributions/lp/random.pyx", "distributions/lp/clustering.pyx", "distributions/lp/mixture.pyx", "distributions/sparse_counter.pxd", "distributions/dbg/models/dpd.py", "distributions/dbg/models/niw.py", "distributions/dbg/clustering.py", "distributions/util.py", "distributions/io/stream.py"],
 [("DIST_ASSERT, DIST_ASSERT1..3", "include/distributions/common.hpp"), ("asserts of the Python flavors", "distributions"), ("except + declarations", "distributions/lp/models/*_h.pxd, distributions/lp/*.pyx")], (), ["exceptions raised", "dump and scores after a refused call"])

prop("C27", "Threads with objects of their own do not disturb each other",
 "Histories on distinct objects (each with its own random generator), run at the same time in several threads, give bit for bit the results and serialised states that they give alone, and so do operations on one shared const object or its copies (groups, shared parameters, scorers, mixtures, clustering drivers and id trackers, except the dirichlet-discrete mixtures' data scores, which the code documents as not thread safe). Scratch space and tables that the library builds on first use (rows of Stirling numbers, buffers for vectorised scores) are the same whichever threads ask first. No such run contains a data race.",
 ["schedules", "histories", "inputs"], "all operation sequences over all models, mixtures, clustering and sampling functions in two to four threads, all interleavings",
 "The tests are single-threaded; scratch space shared by mistake gives right answers in every one of them.",
 MODELS + ["src/models/gp.cc", "src/models/nich.cc", "src/special.cc", R, "include/distributions/special.hpp"], [("static thread_local temp_", "src/models/gp.cc, src/models/nich.cc"), ("log_stirling1_mutex", "src/special.cc")], (), ["all scoring, sampling and dumping entry points"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
