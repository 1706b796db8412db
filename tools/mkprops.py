#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
MODELS = ["include/distributions/models/%s.hpp" % m for m in "bb bnb dd dpd gp nich niw".split()]
DBG = ["distributions/dbg/models/%s.py" % m for m in "bb bnb dd dpd gp nich niw".split()]
HP = ["distributions/hp/models/%s.pyx" % m for m in "dd gp nich".split()]

def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Removing a value undoes adding it; order of additions is irrelevant",
  "For every model, adding a value to any group and then removing it leaves every sufficient statistic of the group as it was, "
  "and adding the same values in any order gives the same statistics. This holds in the C++ models and in the Python reference (dbg) and high-precision (hp) models.",
  ["inputs", "histories"], "all hyperparameters, all prior group contents (arbitrary counts/means/variances), all values, all orders of two or three additions",
  "test_models.test_group_merge/test_add_remove walk one or two fixed EXAMPLES lists; they sample a handful of values and compare float states loosely.",
  MODELS + DBG + HP,
  [("Group::add_value/remove_value", "include/distributions/models/*.hpp"), ("Group.add_value/remove_value", "distributions/dbg/models/*.py")],
  [("sufficient statistics", "heads/tails, counts, count/sum/log_prod, count/mean/count_times_variance, sum_x/sum_xxT", "Group in each model")],
  ["Group::protobuf_dump", "Group.dump"])

p("C02", "Merging groups equals adding all values of both",
  "Merging one group into another gives the statistics (every one of them, including cached totals) and the scores of a group holding the values of both; merging with a group that holds no values, on either side, changes nothing. "
  "This holds in the C++ models and in the dbg and hp Python models.",
  ["inputs", "histories"], "all hyperparameters, all contents of both groups (including empty ones), all values",
  "test_group_merge uses a few fixed value lists, never merges two empty groups and never scores the merged C++ group.",
  MODELS + DBG + HP + ["include/distributions/sparse.hpp"],
  [("Group::merge", "include/distributions/models/*.hpp"), ("SparseCounter::merge", "include/distributions/sparse.hpp"), ("Group.merge", "distributions/dbg/models/*.py")],
  [("count_sum / total_", "cached totals that must follow merges", "dd.hpp, sparse.hpp")], ["Group::protobuf_dump", "Group::score_value", "Group::score_data"])

p("C03", "add_repeated_value(v, n) equals n additions of v",
  "For every model, adding a value with a repetition count n to any group gives the same sufficient statistics as adding that value n times one by one. "
  "This holds in the C++ models and in the dbg and hp Python models.",
  ["inputs", "histories"], "all prior group contents, all values, repetition counts 1..4 (and symbolic counts composed as n then one more)",
  "test_add_repeated_value starts only from an empty group and one value.",
  MODELS + DBG + HP, [("Group::add_repeated_value", "include/distributions/models/*.hpp"), ("Group.add_repeated_value", "distributions/dbg/models/*.py")],
  observe=["Group::protobuf_dump", "Group.dump"])

p("C04", "Predictive score is the increment of the data score",
  "For every model, hyperparameters and group, the score of a value equals the group's data score after adding that value minus its data score before, and an empty group has data score zero. "
  "This holds (up to approximation error of the fast special functions) in the C++ models and in the dbg and hp Python models.",
  ["inputs", "histories"], "all hyperparameters in range, all group contents, all values (exact real arithmetic)",
  "test_score_data_value / test_scorer check a few sampled EXAMPLES to 1e-2 tolerance.",
  MODELS + DBG + HP, [("Group::score_value / Scorer", "include/distributions/models/*.hpp"), ("Group::score_data", "include/distributions/models/*.hpp")],
  observe=["Group::score_value", "Group::score_data"])

p("C05", "Cached mixture value scores always equal the groups' own scores",
  "After any history of initialising a mixture, adding and removing groups and adding and removing values, the mixture's vector of value scores and its per-group score both equal what each group on its own would score for that value, and vector scores are accumulated onto the caller's buffer. "
  "This holds for the fast (cached) and the small (uncached) mixture of every C++ model.",
  ["inputs", "histories"], "all hyperparameters, group contents, values; histories of up to three structural or value operations after init over 1..3 groups",
  "test_mixture_runs/test_mixture_score use fixed operation orders on EXAMPLES with loose tolerance.",
  MODELS + ["include/distributions/mixture.hpp", "src/models/"],
  [("MixtureValueScorer", "include/distributions/models/*.hpp"), ("MixtureSlave, MixtureSlaveGroups", "include/distributions/mixture.hpp"), ("packed_remove/packed_add", "include/distributions/vector.hpp")],
  observe=["Mixture::score_value", "Mixture::score_value_group", "Group::score_value"])

p("C06", "Mixture data score is the sum over groups; grid score is pointwise",
  "The data score of a mixture equals the sum of the data scores of its groups, and scoring a grid of hyperparameters equals scoring each grid point separately, in any order and with repeats. "
  "This holds for every C++ model with any number of groups including empty groups.",
  ["inputs", "histories"], "all hyperparameter grids of up to 3 points, 1..3 groups with arbitrary contents",
  "test_mixture_score / test_score_data_grid use a few EXAMPLES; the incremental grid path is exercised on one shape.",
  MODELS + ["include/distributions/mixture.hpp"],
  [("MixtureDataScorer::score_data", "include/distributions/models/*.hpp"), ("DirichletDiscrete::MixtureDataScorer::_update", "include/distributions/models/dd.hpp"), ("score_data_grid", "include/distributions/mixture.hpp")],
  observe=["Mixture::score_data", "Mixture::score_data_grid", "Group::score_data"])

p("C07", "Discrete predictive distributions sum to one",
  "For beta-Bernoulli, Dirichlet-discrete and Dirichlet-process-discrete groups, the probabilities (exponentiated scores) of all possible values, including 'any other value', sum to one for every group content and hyperparameters. "
  "This holds in the C++, dbg and hp flavours. Likewise the Pitman-Yor probabilities of joining each existing group or each empty group sum to one.",
  ["inputs", "histories"], "all hyperparameters, all group contents over up to 4 values / 4 groups",
  "goodness-of-fit tests sample a few hyperparameters; normalisation at all contents is never asserted.",
  ["include/distributions/models/bb.hpp", "include/distributions/models/dd.hpp", "include/distributions/models/dpd.hpp", "include/distributions/clustering.hpp", "distributions/dbg/models/bb.py", "distributions/dbg/models/dd.py", "distributions/dbg/models/dpd.py", "distributions/hp/models/dd.pyx"],
  [("Group::score_value", "models"), ("PitmanYor::score_add_value", "include/distributions/clustering.hpp")],
  observe=["Group::score_value", "PitmanYor::score_add_value"])

p("C08", "Pitman-Yor scores are exchangeable and sequentially consistent",
  "The Pitman-Yor score of a list of group sizes equals the sum of the sequential add-value scores in whatever order the customers arrive, does not depend on the order of the groups or on empty groups in the list, and the remove-value score is minus the add-value score of the state it leads back to. "
  "This holds for the cached and the plain C++ implementation.",
  ["inputs", "histories"], "all alpha > 0, 0 <= d < 1, all lists of up to 4 groups with sizes 0..5 and all arrival orders (adjacent transpositions)",
  "test_clustering checks sampled assignments of a few sizes at fixed parameters.",
  ["include/distributions/clustering.hpp", "src/clustering.cc"],
  [("PitmanYor::score_counts / score_add_value / score_remove_value", "src/clustering.cc, include/distributions/clustering.hpp")],
  observe=["PitmanYor::score_counts", "PitmanYor::score_add_value", "PitmanYor::score_remove_value"])

p("C09", "Mixture driver bookkeeping and cached clustering scores stay exact",
  "After any history of adding and removing values, a clustering mixture reports the sample size as the sum of its group counts, reports exactly the zero-count groups as empty, keeps the number of empty groups constant, and says a group was created or removed exactly when the group count changed. "
  "Its vector of value scores always equals the model's add-value score of each group computed from scratch, and its data score equals the model's score of its counts.",
  ["inputs", "histories"], "all counts of up to 4 initial groups (1..2 empty), all model parameters, histories of up to 3 operations with symbolic group ids and multiplicities",
  "test_clustering's mixture tests run one fixed sequence per model.",
  ["include/distributions/mixture.hpp", "include/distributions/clustering.hpp"],
  [("MixtureDriver", "include/distributions/mixture.hpp"), ("PitmanYor::CachedMixture", "include/distributions/clustering.hpp")],
  [("counts_, empty_groupids_, sample_size_", "group sizes, ids of the empty groups, total", "include/distributions/mixture.hpp"), ("shifted_scores_", "cached scores", "include/distributions/clustering.hpp")],
  ["Mixture::counts", "Mixture::empty_groupids", "Mixture::sample_size", "Mixture::score_value"])

p("C10", "Group id tracker is a bijection with stable, never reused global ids",
  "After any history of adding and removing groups, packed ids and global ids translate to each other and back, each surviving group keeps the global id it was given, and no global id is ever given to two groups. "
  "Looking up the global id of a removed group, or an id out of range, raises an error.",
  ["histories", "inputs"], "initial sizes 0..3, histories of up to 5 operations with symbolic removal positions",
  "test_mixture's id tracker test follows a random history of one shape.",
  ["include/distributions/mixture.hpp"], [("MixtureIdTracker", "include/distributions/mixture.hpp")],
  [("packed_to_global_, global_to_packed_", "the two directions of the map", "include/distributions/mixture.hpp")],
  ["MixtureIdTracker::packed_to_global", "MixtureIdTracker::global_to_packed"])

p("C11", "Discrete samplers return valid indices by inverse CDF",
  "Every discrete sampler (from probabilities, likelihoods, scores, urns and pairs from urns) returns an in-range choice that is the inverse of the cumulative distribution at the uniform draw, so each choice has exactly its normalised likelihood as probability and a choice of zero likelihood is never returned; pairs from an urn are distinct positions, uniformly over ordered pairs. This includes the Python reference samplers (from probabilities and from scores).",
  ["inputs"], "all likelihood vectors of size 1..4 with nonnegative entries and positive total, all uniform draws in [0,1)",
  "test_random compares empirical frequencies of a few vectors; measure-zero and boundary draws are never hit.",
  ["include/distributions/random.hpp", "src/random.cc", "distributions/dbg/random.py"],
  [("sample_discrete, sample_from_likelihoods, sample_pair_from_urn", "include/distributions/random.hpp")],
  observe=["return values"])

p("C12", "Score, likelihood and probability conversions are consistent",
  "Turning scores into likelihoods, probabilities, a log-sum-exp or the log probability of one choice preserves ratios, is unchanged (or shifts exactly) when a constant is added to every score, yields probabilities summing to one, and the reported probability or score of a sampled choice equals its likelihood over the total. This holds in the C++ functions and in the Python conversion of scores to probabilities, which leaves its argument alone.",
  ["inputs"], "all score vectors of size 1..4 (exact real arithmetic)",
  "test_random/test_util check a few random vectors.",
  ["src/random.cc", "include/distributions/random.hpp", "include/distributions/special.hpp", "distributions/util.py", "distributions/dbg/random.py"],
  [("log_sum_exp, scores_to_likelihoods, scores_to_probs, score_from_scores_overwrite, sample_prob_from_scores_overwrite", "src/random.cc, include/distributions/random.hpp")],
  observe=["return values and output vectors"])

p("C13", "Dirichlet and beta draws are normalised and keep their floor",
  "A Dirichlet draw has entries in [0,1] summing to one with zeros exactly at zero parameters, also when parameters and output share storage; the 'safe' variants keep every entry at least the requested floor divided by the total floor mass, and beta draws lie in [0,1].",
  ["inputs"], "all dimensions 1..4, all nonnegative parameters with at least one positive, all positive gamma draws",
  "the tests never call the safe variants at the boundary nor in-place.",
  ["src/random.cc", "include/distributions/random.hpp"],
  [("sample_dirichlet, sample_dirichlet_safe, sample_beta, sample_beta_safe", "src/random.cc, include/distributions/random.hpp")],
  observe=["output arrays"])

p("C14", "Sparse counters keep total, entries and merges consistent",
  "A sparse counter always reports a total equal to the sum of its counts, stores no zero entries, returns the resulting count from every addition, and merging adds counts key by key; renaming moves a count to the new key and changes nothing else; a rename onto a key in use raises an error and leaves the counter as it was. "
  "A sparse map rejects duplicate insertions and missing keys and otherwise behaves as a map.",
  ["histories", "inputs"], "histories of up to 4 operations with symbolic keys and signed counts",
  "no test of sparse.hpp exists besides its use inside the dpd model.",
  ["include/distributions/sparse.hpp"], [("SparseCounter, Sparse_", "include/distributions/sparse.hpp")],
  [("total_", "cached sum of counts", "include/distributions/sparse.hpp")], ["get_total", "get_count", "iteration"])

p("C15", "Stick-breaking shared state conserves probability mass",
  "Across any history of adding, removing and realising values in the Dirichlet-process-discrete shared parameters, the stick lengths plus the unallocated remainder sum to one (up to rounding and the documented minimum stick), every stick is positive (in the Python reference: not negative), and a value has a stick exactly while its count is nonzero; loading a message restores a state with the same guarantees, a remainder that rounding made negative becoming zero, or raises an error. This holds in the C++ model and the Python reference (dbg); the Python truncated stick-breaking sampler returns sticks summing to one.",
  ["histories", "inputs"], "histories of up to 4 operations over symbolic values and stick fractions; messages with up to 3 values",
  "test_dpd style tests use EXAMPLES with beta0 fixed and never interleave additions and removals of sticks.",
  ["include/distributions/models/dpd.hpp", "distributions/dbg/models/dpd.py", "distributions/lp/models/dpd.pyx"],
  [("Shared::add_value/remove_value/realize/protobuf_load", "include/distributions/models/dpd.hpp")],
  [("beta0, betas, counts", "remaining mass, sticks, observation counts", "include/distributions/models/dpd.hpp")],
  ["Shared fields / protobuf_dump"])

p("C16", "Dump/load round trips preserve every parameter and statistic",
  "Dumping any shared parameters or group to a protobuf message or a dict and loading it into another object reproduces every hyperparameter and sufficient statistic, for all models in the C++, dbg, hp and lp flavours and for the clustering models, whatever the target object held before. "
  "Messages and dicts that do not fit (dimension over the limit, mismatched lengths) raise an error instead of corrupting memory.",
  ["inputs"], "all field values; dimensions/keys up to 3; arbitrary prior contents of the target",
  "test_load_and_dump covers EXAMPLES loaded into fresh objects only; in this environment protobuf stream tests do not run.",
  MODELS + DBG + HP + ["include/distributions/clustering.hpp", "distributions/lp/models/", "distributions/lp/clustering.pyx", "distributions/mixins.py"],
  [("protobuf_load/protobuf_dump", "include/distributions/models/*.hpp"), ("load/dump/protobuf_load/protobuf_dump", "distributions/dbg/models/*.py, distributions/lp/models/*.pyx")],
  observe=["dump output after load"])

p("C17", "Fast special functions stay within their error bounds",
  "The table- and polynomial-driven log, log-gamma, log-gamma difference and log-factorial functions agree with the exact functions within small fixed error bounds for every positive float in their domain (degrees of freedom below 2^32), and never index outside their tables; log-sum-exp, log-beta, log-binomial and the multivariate log-gamma equal their formulas over these functions.",
  ["inputs"], "all positive normal floats per binade (mantissa symbolic)",
  "test_special samples random points at coarse tolerance; a wrong coefficient row at a large binade is never sampled.",
  ["include/distributions/special.hpp", "src/special.cc"],
  [("FastLog, fast_lgamma, fast_lgamma_nu, fast_log_factorial, coefficient tables", "include/distributions/special.hpp, src/special.cc")],
  observe=["return values"])

p("C18", "Stirling-number rows obey the exact recurrence",
  "Each row of log Stirling numbers of the first kind below the approximation cut-off equals the logarithms of the exact numbers, whatever rows were requested before; every row has impossible first entry and zero last entry, and approximate rows stay close to exact ones at the cut-off.",
  ["inputs", "histories"], "all n below 32 after up to two earlier requests; approximate rows up to 128",
  "test_special compares a few rows requested in increasing order.",
  ["src/special.cc", "include/distributions/special.hpp"], [("get_log_stirling1_row", "src/special.cc")], observe=["returned row"])

p("C19", "Vector kernels compute their scalar definition for every element",
  "Every vector kernel writes, for each position of vectors of any size, exactly the scalar expression its documentation states, touches no element outside the given size, and reductions return the minimum, maximum, sum or dot product of all elements.",
  ["inputs"], "all contents, sizes 0..20 (thorough 60)",
  "test_vector_math-style tests exist only in the C++ benchmarks; Python tests cover exp/log/lgamma on random data.",
  ["include/distributions/vector_math.hpp", "src/vector_math.cc"], [("vector_*", "src/vector_math.cc")], observe=["output arrays"])

p("C20", "Reference, high-precision and C++ models define the same distribution",
  "For every model implemented in more than one flavour, the same hyperparameters and the same sequence of added values give the same statistics, value scores and data scores in the dbg Python, hp and C++ flavours. "
  "The same holds for the low-entropy clustering scores.",
  ["inputs", "histories", "programs"], "all hyperparameters, group statistics and values, one step of each operation (so every history, by induction), in exact real arithmetic",
  "test_model_flavors compares flavours on EXAMPLES to 1e-2..1e-3 tolerance.",
  MODELS + DBG + HP + ["include/distributions/clustering.hpp", "src/clustering.cc", "distributions/dbg/clustering.py"],
  [("score_value / score_data in each flavour", "include/distributions/models, distributions/dbg/models, distributions/hp/models")],
  observe=["score_value", "score_data", "dump"])

p("C21", "Sampled and counted assignments are well formed",
  "Sampling assignments returns exactly the requested number of group ids, contiguous from zero in order of first appearance for Pitman-Yor and within the number of groups opened so far for low-entropy, and each choice is made from likelihoods proportional to the model's own add-value probabilities; counting assignments returns the size of each group and rejects ids that are not contiguous. This holds in C++ and, for low-entropy, in the Python reference; splitting a list by group sizes puts every item in one group of the size asked for.",
  ["inputs", "histories"], "sizes up to 4, all parameters, all random draws; all assignments of up to 4 items",
  "test_clustering samples a few sizes and only checks lengths.",
  ["src/clustering.cc", "include/distributions/clustering.hpp", "distributions/dbg/clustering.py"],
  [("sample_assignments, count_assignments", "src/clustering.cc")], observe=["returned vectors"])

p("C22", "Entropy discipline: only sampling consumes randomness, in fixed amounts",
  "Adding, removing, merging, scoring and caching operations consume no random numbers; scoring a given choice from scores consumes exactly as many random numbers as sampling it; and every other operation's result depends on the generator only through the numbers it draws. Sampling and scoring leave the group and the shared parameters as they were. This holds in the C++, dbg and hp flavours.",
  ["inputs", "histories"], "all models and operations, all inputs within the other harnesses' bounds",
  "test_models' seed tests check one operation per EXAMPLE.",
  MODELS + DBG + HP + ["include/distributions/random.hpp", "src/random.cc", "include/distributions/mixture.hpp"],
  [("rng_t & arguments; SYNCHRONIZE_ENTROPY_FOR_UNIT_TESTING", "include/distributions/*.hpp, src/random.cc")], observe=["number of draws"])

p("C23", "Samplers draw with the posterior's parameters",
  "Sampling a value from a group draws from the named distributions with exactly the conjugate posterior parameters implied by the hyperparameters and the group's statistics, and returns a value in the model's support; this holds in the C++, dbg and hp flavours. The multivariate samplers (Wishart, inverse Wishart, normal-inverse-Wishart, multivariate normal and Student t) combine univariate draws of the right distributions into a sample with the right scale.",
  ["inputs", "histories"], "all hyperparameters, all group contents, all outcomes of the underlying draws",
  "goodness-of-fit tests sample a few EXAMPLES with a wide rejection threshold.",
  MODELS + DBG + HP + ["include/distributions/random.hpp", "src/random.cc", "distributions/dbg/random.py", "distributions/hp/random.pyx", "distributions/rng_cc.hpp"], [("Sampler::init/eval", "include/distributions/models/*.hpp")], observe=["parameters passed to the random number distributions", "returned value"])

p("C24", "Low-entropy clustering scores are consistent and in domain",
  "The low-entropy remove-value score is minus the add-value score of the state it leads back to for every reachable state, the score of complete datasets is the sum of n log n over groups minus the log partition function, the score of joining a group is the increment of n log n, precisely (within 0.01) also for large groups, the score of counts depends neither on the order of the groups nor on how many empty ones are listed, and no reachable state makes a score raise an error. This holds in C++ and in the Python reference.",
  ["inputs", "histories"], "all dataset sizes and group sizes up to 60, all reachable states",
  "test_clustering covers sampled assignments at a few dataset sizes; states with the full dataset are not removed from.",
  ["include/distributions/clustering.hpp", "src/clustering.cc", "distributions/dbg/clustering.py"],
  [("LowEntropy::score_add_value/score_remove_value/score_counts/log_partition_function", "include/distributions/clustering.hpp, src/clustering.cc")], observe=["return values"])
p("C25", "The lp Python classes forward every call to C++ and return its answer",
  "Every method of the compiled (lp) Python models, groups, samplers, mixtures, clusterings, id trackers and random/special functions makes the call of that name on its own C++ object with the caller's arguments in order (a repeated value with its count, a group id, the global generator where the C++ takes one) and returns the C++ answer unchanged: mixture scores are added to what the caller's array held, one per group, and arrays of another length and strided arrays are never misread (they are rejected or handled); group ids out of range are rejected when indexing; arrays and matrices are converted entry by entry; sample_group draws exactly the number of values asked for from an empty group; arguments are not modified.",
  ["inputs", "histories"], "all values, counts, ids and scores, mixtures of up to 2 groups, sizes up to 3",
  "the tests call the wrappers with a few values and compare to dbg within tolerances; argument order, array growth and length mismatches are not varied.",
  ["distributions/lp/models", "distributions/lp/clustering.pyx", "distributions/lp/mixture.pyx", "distributions/lp/random.pyx", "distributions/lp/special.pyx", "distributions/lp/vector.pyx", "distributions/_eigen.pyx"],
  [("Group/Sampler/Mixture wrappers", "distributions/lp/models/_*.pyx"), ("PitmanYor, LowEntropy", "distributions/lp/clustering.pyx"), ("MixtureIdTracker", "distributions/lp/mixture.pyx"), ("random and special functions", "distributions/lp/random.pyx, distributions/lp/special.pyx")], observe=["calls made", "return values"])

p("C26", "Threads that share only what they query never race",
  "In C++, threads that each use their own generator, outputs and scorers may concurrently score values against one mixture, score and sample from one group, use one clustering model, one id tracker and one set of hyperparameters, update separate mixtures and drivers, and call the sampling, special and vector functions and log_stirling1_row: no two of them ever access the same memory, one of them writing, without synchronisation. Queries write nothing but their outputs, the generator and thread-local scratch space, and the process-wide table of Stirling numbers is only touched under its lock. (Data scorers of one mixture are documented as not thread safe and are not shared here.)",
  ["schedules", "inputs", "histories"], "every pair of operations on two threads, all inputs, every path of each",
  "the tests are single threaded.",
  ["include/distributions", "src"],
  [("log_stirling1_cache and its mutex", "src/special.cc"), ("thread-local scratch space of MixtureValueScorer::score_value", "src/models/gp.cc, src/models/nich.cc"), ("score_value, score_value_group, sample_value (const)", "include/distributions/models/*.hpp, include/distributions/mixture.hpp")], observe=["memory accesses and lock operations of two threads"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
