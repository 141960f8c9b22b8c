#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
I = "include/albatross/src/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [I + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": I + w} for n, w in mech],
            "observe_at": observe, "hook_needed": False}})


prop("C01", "Keyed-map helpers implement exact map algebra",
     "For every pair of maps ordered by the same comparator, the lookup, join, strict join, union, intersection, difference, symmetric difference, key-difference, key-intersection, subset and key/value listing helpers return exactly the map or ordered list that the definition over partial functions prescribes, with the documented left bias and with the merge function called once per shared key with (key, left value, right value). Empty, disjoint, nested and partially overlapping maps, custom comparators and arbitrary key sequences obey the same definition, and inputs are left unchanged.",
     ["inputs"], "All finite maps used as arguments, including empty, disjoint, nested, overlapping and equal domains, ascending and descending comparators, and all key sequences including absent and repeated keys.",
     "The unit tests use a few hand-written maps per helper; the definition quantifies over every pair of partial functions.",
     ["utils/map_utils.hpp"],
     [("linear merge of two ordered maps", "utils/map_utils.hpp detail::map_merge"), ("ordered subsetting", "utils/map_utils.hpp detail::map_subset_sequence")],
     ["return values of the map helpers", "merge callback arguments"], [("map", "partial function from keys to values", "std::map argument")])

prop("C02", "Spanning trees are optimal, acyclic and preserve connectivity",
     "For every non-empty weighted undirected graph, the minimum (maximum) spanning forest is a subset of the input edges with unchanged costs, contains no cycle, connects exactly the vertices the input connects, and has the smallest (largest) possible total cost; the minimum (maximum) spanning tree is the same for connected inputs and, for disconnected ones, is such a tree of one component. This holds in every edge order and for equal, negative and zero finite costs, parallel edges and self edges, and an empty graph yields an empty result.",
     ["inputs"], "All weighted graphs: every multigraph with few vertices and small integer costs in every edge order, plus larger random ones.",
     "Tests check a handful of fixed graphs; optimality and acyclicity are statements about every graph and every edge order.",
     ["graph/minimum_spanning_tree.hpp"],
     [("Prim queue loop", "graph/minimum_spanning_tree.hpp maximum_spanning_tree"), ("Kruskal merge loop", "graph/minimum_spanning_tree.hpp KruskalAlgoRunner")],
     ["returned edges and vertices", "text output of a graph"], [("tree partition", "which tree each vertex belongs to", "KruskalAlgoRunner::vertices_"), ("queue", "candidate edges leaving the tree", "maximum_spanning_tree")])

prop("C03", "Compressed payloads decode to exactly what was encoded, or are rejected",
     "For every serializable value and byte string, compressing and then decompressing returns an equal value at every supported level and size, including empty and very large or highly repetitive payloads, and any number of values can be packed and unpacked in sequence. Truncated, corrupted or unrelated bytes make decompression report failure by its documented failure signal rather than crash, or return a wrong value silently when the frame is incomplete.",
     ["inputs", "fault_sequences"], "All payload contents, sizes and compression levels; all truncation points and corruptions of the compressed form.",
     "Tests compress a few strings; the round trip and the rejection of damaged input are claims about every payload and every truncation point.",
     ["utils/compress.hpp"],
     [("buffer growth while compressing", "utils/compress.hpp"), ("streaming decompression loop", "utils/compress.hpp")],
     ["decompressed bytes/values", "failure signal"])

prop("C04", "Chebyshev polynomials and basis matrices follow their exact recurrences",
     "For every degree and every evaluation point, the Chebyshev polynomials of the first and second kind have the values given by the exact three-term recurrence, for every point in [-1, 1] including degree zero and one, zero and the interval ends. Basis matrices hold, for every point and every degree up to the requested one, the value of that polynomial at that point in the documented position.",
     ["inputs"], "All degrees up to several dozen and all rational evaluation points, including end points and zero.",
     "Tests compare a few points to fixed tolerances; the identity holds for every degree and point.",
     ["polynomial/chebyshev.hpp"],
     [("recurrence", "polynomial/chebyshev.hpp")], ["returned values"])

prop("C05", "Splitting tagged data by alternative and re-merging is lossless",
     "For every sequence of tagged-union values with per-element measurement means and covariances, extracting one alternative returns exactly the values holding that alternative in their original relative order together with the matching means and covariance entries, and wrapping values into a union preserves each value and its position. Elements with other alternatives are omitted, never shifted onto another element's measurements.",
     ["inputs"], "All sequences of tagged values, any mixture and order of alternatives including none and all, with any aligned measurements.",
     "Tests use one or two short fixed sequences.",
     ["utils/variant_utils.hpp"],
     [("extraction with aligned targets", "utils/variant_utils.hpp"), ("wrapping into a union", "utils/variant_utils.hpp")],
     ["returned values, means and variances"])

prop("C06", "Grouping partitions the data and can be recombined without loss",
     "For every collection and every grouping function, the groups' index lists are disjoint, cover every element, keep original order and put each element under exactly the key its grouping function returns; counts, keys, per-group values and first-of-group agree with that partition. Leave-one-out, leave-one-group-out and k-fold schemes give folds whose test sets partition the data and whose training sets are exact complements, and recombining the groups returns every original element exactly once.",
     ["inputs", "configurations"], "All vectors and datasets, all key functions (constant, injective, colliding), all fold counts up to and beyond the number of elements.",
     "Tests group a few fixed vectors; the partition laws quantify over all data and key functions.",
     ["indexing/group_by.hpp", "evaluation/folds.hpp", "evaluation/cross_validation_utils.hpp"],
     [("group indexer construction", "indexing/group_by.hpp"), ("fold creation", "evaluation/folds.hpp"), ("fold indexers", "evaluation/cross_validation_utils.hpp")],
     ["index lists, groups and folds returned"])

prop("C07", "Operations on grouped data act on each group exactly once",
     "For every grouped container, per-group apply, filter, combine, count, first-group, min/max, threshold, any/all and index-wise applications call the given function exactly once per group with that group's key and value and return exactly the per-group results under the same keys; filtering keeps precisely the groups (or their complement) for which the predicate is true. Combining the result afterwards contains exactly the surviving elements in key order.",
     ["inputs", "histories"], "All grouped containers, predicates, value functions and sequences of grouped operations.",
     "Tests apply one function to one grouping; the contract covers all sequences of grouped operations.",
     ["indexing/group_by.hpp", "indexing/apply.hpp", "indexing/filter.hpp"],
     [("grouped container operations", "indexing/group_by.hpp")], ["returned grouped containers and call arguments"])

prop("C08", "Index-based selection picks exactly the requested elements in order",
     "For every vector, matrix, diagonal matrix or map and every list of in-range indices (repeated, unordered or empty), taking a subset returns element i of the result equal to the element at the i-th requested index, symmetric subsets pick the matching rows and columns, and writing a subset changes exactly the addressed entries. Complements of index lists contain exactly the remaining indices in increasing order, unique values keep exactly one of each, filters keep exactly the elements satisfying the predicate in order, and apply returns one result per element in order.",
     ["inputs"], "All containers, all index lists with repeats/any order, all predicates and functions.",
     "Tests use one or two index lists per container type.",
     ["indexing/subset.hpp", "indexing/unique.hpp", "indexing/filter.hpp", "indexing/apply.hpp", "utils/vector_utils.hpp"],
     [("subset family", "indexing/subset.hpp"), ("unique", "indexing/unique.hpp"), ("apply/filter", "indexing/apply.hpp")],
     ["return values"])

prop("C09", "Dataset operations never separate a feature from its measurement",
     "For every sequence of dataset operations (subset, concatenation, alignment of two datasets on shared features, removing duplicates, filtering, grouping, subsetting by feature values), every feature in the result is paired with the measurement mean and variance it had in its source, the result contains exactly the elements the operation's definition selects in its defined order, and no element is invented or lost. Aligned datasets hold equal features at equal positions.",
     ["inputs", "histories"], "All datasets (with repeated features, with and without variances, empty) and all sequences of operations over them.",
     "Tests check each operation on one small dataset; pairing must survive any chain of operations.",
     ["core/dataset.hpp", "core/concatenate.hpp", "indexing/subset.hpp", "indexing/filter.hpp"],
     [("dataset subset/concatenate/align/deduplicate", "core/dataset.hpp"), ("concatenation of vectors and distributions", "core/concatenate.hpp")],
     ["features, target means and covariances"])

prop("C10", "Distribution algebra equals the transformation of mean and covariance",
     "For every marginal or joint distribution, adding, subtracting, scaling by a number, multiplying by matrices or vectors (dense or sparse), marginalizing, sub-setting and concatenating independent distributions gives exactly the mean and covariance of the corresponding transformed random vector. Equality and approximate equality compare both mean and covariance, and operands are left unchanged by non-assigning operators.",
     ["inputs", "histories"], "All distributions of any size (including one and zero elements), all matrices of compatible shape and all chains of operations.",
     "Tests check one example per operator.",
     ["core/distribution.hpp", "core/transformed_distribution.hpp", "core/concatenate.hpp"],
     [("distribution operators", "core/distribution.hpp"), ("matrix-transformed distributions", "core/transformed_distribution.hpp")],
     ["mean and covariance of results"])

prop("C11", "Linear combinations of features behave linearly under covariances and means",
     "For every covariance function k, mean function m and linear combinations of features, the covariance of two combinations equals the double sum of products of coefficients and pairwise covariances, and the mean equals the coefficient-weighted sum, with a plain feature acting as a combination with one unit coefficient. Sum and difference helpers build the coefficients they denote, and a posterior or prior prediction of a combination equals the same linear map applied to the joint prediction of its parts.",
     ["inputs"], "All coefficient vectors (zero, negative, repeated features) and all pairs of combinations and plain features, also inside tagged unions.",
     "Tests check a few fixed combinations with one covariance.",
     ["core/linear_combination.hpp", "covariance_functions/callers.hpp"],
     [("linear combination caller", "covariance_functions/callers.hpp"), ("sum/difference/mean helpers", "core/linear_combination.hpp")],
     ["covariance and mean values"])

prop("C12", "Composed covariance and mean functions evaluate to the composition",
     "For every expression built from the provided covariance functions by sum, product, scaling, measurement-only wrapping and dispatch over tagged features, evaluating on any pair of features equals the same arithmetic on the leaves' defining formulas, is symmetric, and is zero where a term does not apply; cross and self covariance matrices, diagonals and mean vectors hold exactly the pairwise values in feature order, whether computed on one or several threads. Parameters of an expression are the union of its leaves' parameters and setting one changes exactly the leaves that own it.",
     ["inputs", "configurations", "schedules"], "All expression trees, hyperparameter values, feature types and lists, thread counts.",
     "Tests evaluate a few expressions at a few points.",
     ["covariance_functions/covariance_function.hpp", "covariance_functions/mean_function.hpp", "covariance_functions/callers.hpp", "covariance_functions/radial.hpp", "covariance_functions/polynomials.hpp", "covariance_functions/noise.hpp", "covariance_functions/nugget.hpp", "covariance_functions/scaling_function.hpp", "covariance_functions/measurement.hpp", "covariance_functions/distance_metrics.hpp", "covariance_functions/representations.hpp"],
     [("call forwarding", "covariance_functions/callers.hpp"), ("sum/product", "covariance_functions/covariance_function.hpp"), ("radial kernels", "covariance_functions/radial.hpp")],
     ["covariance values, matrices, parameters, names"])

prop("C13", "Parallel helpers give the sequential result under every schedule",
     "For every input collection, function and thread pool, the asynchronous and pooled apply helpers call the function exactly once per element, return results in input order under the right key, have written every result when they return, and propagate a thrown error to the caller rather than losing it. The result is the same for no pool, one thread and many threads, and however the tasks interleave.",
     ["schedules", "inputs", "configurations"], "All interleavings of task execution, all collection types and sizes (including empty and fewer elements than threads), all pool sizes.",
     "Tests run with whatever interleaving the machine gives; schedules are not enumerated.",
     ["utils/async_utils.hpp", "indexing/apply.hpp", "indexing/group_by.hpp", "covariance_functions/callers.hpp"],
     [("async apply and block distribution", "utils/async_utils.hpp")], ["returned results, calls made, memory written"])

prop("C14", "Parameter handling is a faithful, bounded, prior-aware key-value store",
     "Through any history of setting, reading, copying and bulk-updating parameters, reading a parameter returns the last value written to that name and writing one name affects no other; unknown names and mismatched updates are rejected. Packing tunable parameters to a vector and back is the identity on tunable parameters and leaves fixed ones alone, validity holds exactly when every value is inside its prior's bounds (not-a-number is inside none), and the prior log-likelihood is the sum of the individual priors' log-densities.",
     ["histories", "inputs"], "All histories of parameter operations over any store, prior types and values including out-of-bounds and non-finite ones.",
     "Tests set one or two parameters once.",
     ["core/parameters.hpp", "core/parameter_handling_mixin.hpp", "core/parameter_macros.hpp", "core/priors.hpp"],
     [("parameter store", "core/parameter_handling_mixin.hpp"), ("tunable packing and bounds", "core/parameters.hpp"), ("priors", "core/priors.hpp")],
     ["parameter values, validity, likelihood, packed vectors"], [("parameters", "name -> value and prior", "ParameterStore")])

prop("C15", "Cross-validation predicts each point only from the other folds, in order",
     "For every dataset, grouping and model, each fold's held-out predictions equal those of the model fit on exactly the complement of that fold, results are keyed by the fold's group and the flattened means, marginals and joints line up with the original order of the data. Scores are the metric applied fold by fold, and models with a closed-form cross-validation predict each held-out measurement (noise included) from the other measurements as refitting on them would.",
     ["inputs", "configurations"], "All datasets, groupings (one group, singleton groups, uneven groups) and models.",
     "Tests use one linear dataset and a fixed grouping.",
     ["evaluation/cross_validation.hpp", "evaluation/cross_validation_utils.hpp", "evaluation/folds.hpp", "evaluation/model_metrics.hpp"],
     [("cross validation prediction", "evaluation/cross_validation.hpp"), ("closed-form leave-out predictions", "evaluation/cross_validation_utils.hpp")],
     ["predicted means, marginals, joints, scores"])

prop("C16", "Gaussian-process predictions equal the exact conditional Gaussian",
     "For every training set, measurement noise, covariance and mean function, a fitted Gaussian process predicts (mean, marginal, joint) the conditional Gaussian obtained by exact linear algebra from the prior covariances, with measurement-only terms applied to training data but not to latent predictions unless a measurement is asked for. Its prior, its log-likelihood, and a fit constructed from a previous joint prediction agree with the same exact formulas.",
     ["inputs", "configurations"], "All training sets, prediction sets (including training points, empty), noises, covariance and mean functions.",
     "Tests compare to itself or to a few fixed numbers.",
     ["models/gp.hpp", "covariance_functions/representations.hpp", "core/fit_model.hpp", "core/model.hpp", "core/prediction.hpp"],
     [("fit and predict", "models/gp.hpp")], ["predicted mean, marginal, joint", "log likelihood"], [("fit", "information vector and covariance factor", "gp.hpp Fit")])

prop("C17", "Updating a fit with new data equals fitting all data at once",
     "For every split of a dataset into an initial part and any number of later batches, predictions after updating the initial fit batch by batch equal predictions of one fit on all the data, for means, variances and joint covariances, whatever the batch sizes. This includes non-zero mean functions and measurement-only noise terms.",
     ["inputs", "histories"], "All datasets, all splits into batches of any size, all update orders.",
     "Tests update once with one split and no mean function.",
     ["models/gp.hpp", "linalg/block_symmetric.hpp", "models/sparse_gp.hpp"],
     [("update", "models/gp.hpp _update_impl"), ("block symmetric solver", "linalg/block_symmetric.hpp"), ("sparse update", "models/sparse_gp.hpp")],
     ["predictions after update"])

prop("C18", "Structured matrix solvers equal their dense definitions",
     "For every symmetric positive (semi-)definite, block-diagonal, block-symmetric, diagonal or rectangular system, the library's solves, square-root products, inverse blocks, inverse diagonals, determinants and products agree with the exact dense linear-algebra definition, including block sizes of one, a single block and pivoted factorizations. Results are identical with and without a thread pool.",
     ["inputs", "configurations"], "All well-conditioned matrices, block partitions, right-hand sides and pool sizes.",
     "Tests use random well-behaved matrices of one shape.",
     ["linalg/block_diagonal.hpp", "linalg/block_symmetric.hpp", "linalg/block_utils.hpp", "linalg/qr_utils.hpp", "linalg/spqr_utils.hpp", "eigen/serializable_ldlt.hpp", "eigen/serializable_spqr.hpp", "utils/eigen_utils.hpp"],
     [("block diagonal", "linalg/block_diagonal.hpp"), ("LDLT extensions", "eigen/serializable_ldlt.hpp"), ("QR helpers", "linalg/qr_utils.hpp")],
     ["solutions, determinants, inverse blocks"])

prop("C19", "RANSAC returns the best valid consensus it saw and is honest about failure",
     "For every sampler history, inlier metric, threshold and consensus metric, the outlier-rejection loop considers exactly the configured number of candidates, accepts only models the candidate test accepts, extends each to exactly the groups whose metric is within the threshold, requires the minimum consensus size, keeps the candidate with the best (lowest) consensus metric, and reports inliers and outliers that partition all groups. A metric that is not a number is worse than any number, the loop gives up after max(1, the configured number of) consecutively counted rejections, and two outputs compare equal exactly when code, best and iterations are equal; the printed text of an output tells its iterations, best and code. When no candidate qualifies, or the configuration is invalid, it reports the corresponding failure code, and the model wrapper falls back to no fit.",
     ["histories", "inputs", "configurations"], "All sequences of random candidates and all outcomes of user functions, all configurations including invalid ones.",
     "Tests run seeded random cases and check the final inliers.",
     ["models/ransac.hpp", "models/ransac_gp.hpp"],
     [("candidate loop", "models/ransac.hpp"), ("GP-specific consensus", "models/ransac_gp.hpp")],
     ["returned inliers, outliers, metrics, return code, call history"], [("best", "best candidate so far", "ransac.hpp RansacOutput"), ("iterations", "candidates tried and failures", "ransac.hpp")])

prop("C20", "Serialization round-trips every supported object",
     "For every supported object (matrices dense, sparse, diagonal and permutation, factorizations, distributions, datasets, parameters with priors, tagged unions, fitted models and their predictions), writing to any supported archive and reading back gives an object that is equal and behaves identically, including empty, one-element, non-square and non-finite contents. Reading does not depend on previous contents of the destination.",
     ["inputs"], "All values of all supported types and both archive formats.",
     "Tests serialize one instance per type.",
     ["cereal/eigen.hpp", "cereal/distribution.hpp", "cereal/dataset.hpp", "cereal/parameters.hpp", "cereal/priors.hpp", "cereal/variant.hpp", "cereal/gp.hpp", "cereal/serializable_ldlt.hpp", "cereal/serializable_spqr.hpp", "cereal/suitesparse.hpp", "cereal/block_utils.hpp", "cereal/fit_model.hpp", "cereal/representations.hpp", "cereal/least_squares.hpp", "cereal/ransac.hpp", "cereal/model.hpp"],
     [("matrix serialization", "cereal/eigen.hpp"), ("factorization serialization", "cereal/suitesparse.hpp")],
     ["deserialized object's value and behaviour"])

prop("C21", "Simple models equal their closed-form definitions",
     "For every dataset, least squares predicts with coefficients that minimize the squared residual, refuses targets of unequal variances instead of ignoring them, and uses the solver an implementation brings; linear regression fits the exact line through collinear data; the null model predicts zero with variance 10^4 everywhere regardless of data; and the conditional Gaussian model predicts the exact conditional of its prior given the observed variables. Predictions with uncertainty have the covariance implied by the same definition, and a kind of prediction a model does not implement (mean, marginal, joint) is taken from the nearest kind it does.",
     ["inputs"], "All datasets of full rank, all configurations and prediction points.",
     "Tests use one dataset.",
     ["models/least_squares.hpp", "models/null_model.hpp", "models/conditional_gaussian.hpp"],
     [("least squares fit", "models/least_squares.hpp"), ("conditional", "models/conditional_gaussian.hpp")],
     ["predictions"])

prop("C22", "Sparse Gaussian process equals its defining approximation",
     "For every dataset, inducing set and grouping of the data, the sparse Gaussian process predicts exactly the posterior of the partially independent training conditional approximation (groups are independent given the values at the inducing points, which its nuggets regularize), and equals the exact Gaussian process when the inducing points are the training points. Its log-likelihood, batch updates (also with other feature types), re-basing onto new inducing points, fits from predictions and refits after parameter or strategy changes obey the same approximation, including with a non-zero mean function, with either QR decomposition and with any number of threads.",
     ["inputs", "histories", "configurations"], "All datasets, groupings, inducing sets, mean functions and update/re-base histories.",
     "Tests compare sparse to dense with loose tolerances on one dataset with zero mean.",
     ["models/sparse_gp.hpp"],
     [("component computation", "models/sparse_gp.hpp"), ("rebase/update", "models/sparse_gp.hpp")],
     ["predictions and likelihood"])

prop("C23", "Ensemble sampling follows the stretch-move transition rule",
     "For every log-density, ensemble and random stream, each walker's next state is either its previous state with its previous log-density or the proposed stretch of itself relative to another walker, accepted exactly by the Metropolis rule with the dimension-dependent factor, and the recorded log-density always equals the log-density of the recorded position. Proposals outside the support (a log-density of minus infinity or not a number, or parameters outside of their bounds) are never accepted, callbacks see the initial ensemble and every iteration once and in order, the returned history is what the callbacks saw, every initial walker lies inside the bounds of its parameters with a finite log-density, and equal random generators give equal samples.",
     ["histories", "inputs"], "All random histories, target densities (including ones that reject or return non-finite values) and ensemble sizes.",
     "Tests check sample statistics of a few long runs.",
     ["samplers/ensemble.hpp", "samplers/initialization.hpp", "samplers/callbacks.hpp", "samplers/state.hpp"],
     [("stretch move", "samplers/ensemble.hpp"), ("initialization", "samplers/initialization.hpp")],
     ["sequence of ensemble states", "callback invocations"], [("ensemble", "positions and log densities of walkers", "samplers/state.hpp")])

prop("C24", "Tuning never returns something worse, out of bounds or touching fixed values",
     "For every objective and starting point, tuning returns parameters whose objective value is no worse than the start, that lie inside the prior bounds, and that leave fixed parameters and all priors exactly as given; every evaluated point lies within the bounds, the search starts at the given values in the given order, derivative-free searches return the best point they evaluated, smooth convex objectives are brought close to their minimum within the bounds (with gradients as well), and the optimizer's budget is kept. A model tuner scores every data set with the same parameters, in order, and aggregates exactly those scores; the model itself is not changed. The greedy tuner varies one parameter of the best point so far at a time, with the requested number of proposals on each side strictly within the bounds, also when evaluated concurrently, and only moves to points that improve the objective it was given. Finite-difference gradients approximate the derivative of the objective in every tunable coordinate without leaving the bounds (zero where only leaving the bounds would improve the objective), and non-finite objective values are handled without being returned as best.",
     ["inputs", "histories"], "All objectives, bounds, start points, optimizer histories and numbers of queries/threads.",
     "Tests tune one quadratic.",
     ["tune/tune.hpp", "tune/greedy_tuner.hpp", "tune/finite_difference.hpp", "tune/tuning_metrics.hpp"],
     [("generic tuner", "tune/tune.hpp"), ("greedy tuner", "tune/greedy_tuner.hpp"), ("finite differences", "tune/finite_difference.hpp")],
     ["tuned parameters, evaluated points"])

prop("C25", "Tabular output has one correctly labelled value per row and column",
     "For every feature, dataset and prediction, writing to CSV produces a header naming every column once and one row per element, in which each value stands under its own column name for the row's element, whatever the nesting of the feature type, whatever characters the values hold and whatever kind of stream is written to; a cell is empty exactly when its element has no such value. Earlier text of the stream stays. Ensemble states written by a sampler callback can be read back to the same values (as printed, with six decimals), and the tracking callback keeps the most likely state it was shown.",
     ["inputs"], "All feature structures, datasets, predictions and sampler states.",
     "Tests compare one or two fixed tables.",
     ["utils/csv_utils.hpp", "samplers/callbacks.hpp"],
     [("map conversion and row writing", "utils/csv_utils.hpp")], ["emitted text"])

prop("C26", "Prediction metrics equal their statistical definitions",
     "For every prediction and truth, the root-mean-square error, standard deviation, chi-squared, negative log-likelihood (univariate, marginal, multivariate), differential entropy, scoring rules (CRPS, energy score up to its sampling error, variogram scores with each pair of components counted once) and distances between Gaussians (also singular ones) equal their textbook definitions, energy scores are never negative and repeatable for a seed, arguments of mismatched sizes are refused, use the truth's own uncertainty where documented, and depend only on the pairing of predictions and truths, not on their order.",
     ["inputs"], "All predictions and truths of any size, with and without uncertainties.",
     "Tests check fixed examples.",
     ["evaluation/prediction_metrics.hpp", "evaluation/likelihood.hpp", "evaluation/differential_entropy.hpp", "stats/gaussian.hpp"],
     [("metrics", "evaluation/prediction_metrics.hpp"), ("likelihoods", "evaluation/likelihood.hpp")],
     ["metric values"])

prop("C27", "Random selection draws valid samples without replacement",
     "For every collection, requested count and generator state, random subsets contain exactly the requested number of distinct positions from the collection, never repeat one, never fail for any count from zero to the collection's size, and every subset is equally likely; larger requests are refused. Random-generator state advances so consecutive draws differ, and equal seeds give equal results; random matrices hold independent draws of the given distribution, random covariances are symmetric with the drawn eigenvalues, drawn Gaussian vectors are the mean plus the covariance's Cholesky factor times standard normal draws, and random sparse matrices hold the requested share of distinct entries.",
     ["inputs", "schedules"], "All collections, counts and generator states.",
     "Tests draw with one seed.",
     ["utils/random_utils.hpp"],
     [("sampling without replacement", "utils/random_utils.hpp")], ["drawn samples"])

prop("C28", "Statistical distribution functions match their mathematical definitions",
     "For every argument in their domain, the regularised incomplete gamma and chi-squared distribution functions agree with their defining integrals (to about nine digits up to probabilities of 1 - 1e-6, to 5e-7 above, arguments below the machine precision counting as zero), increase, lie in [0, 1] and take the exact limits at the ends of the domain (zero, infinity, no degrees of freedom); outside of the domain they are not a number. This holds for small and large degrees of freedom, for arguments where different approximations meet and for every overload (squared deviation, deviation with variance, vector with covariance). The uniformity test statistic of samples in [0, 1] is the exact supremum distance between the empirical and the uniform distribution, and Gaussian densities equal their formula.",
     ["inputs"], "All degrees of freedom and arguments, all samples.",
     "Tests compare a table of reference values.",
     ["stats/chi_squared.hpp", "stats/incomplete_gamma.hpp", "stats/gauss_legendre.hpp", "stats/ks_test.hpp"],
     [("incomplete gamma", "stats/incomplete_gamma.hpp"), ("chi-squared", "stats/chi_squared.hpp")], ["function values"])

prop("C29", "Models, fits and predictions are independent values",
     "Through any history of making, copying, moving, assigning, fitting, updating, predicting and changing parameters, fitting and predicting change no model, a fit keeps the data it has seen in order and the parameters its model had, changing one model or fit changes no other, and every way of passing the data (vectors, a dataset, two datasets, a batch at a time) and of asking for a prediction (mean, marginal, joint, by member or by type) is the same. A prediction made from a fit that lives on answers for that fit as it is; one made from a temporary or moved-from fit, with or without measurement noise, keeps answering the same for as long as it lives. Models and fits compare equal exactly when parameters, insights and what was learned are equal.",
     ["histories"], "All histories over models, fits and predictions, with every way of passing data and asking, for transparent and real models.",
     "Tests use each object once, right after making it, with everything it refers to still alive.",
     ["core/model.hpp", "core/fit_model.hpp", "core/prediction.hpp"],
     [("what a prediction keeps or refers to", "core/fit_model.hpp FitModel::predict"), ("dispatch by kind of prediction", "core/prediction.hpp"), ("fit and parameters", "core/model.hpp")],
     ["predictions, parameters and data of models and fits, equality"], [("fit", "model copy, parameters and data", "FitModel"), ("prediction", "fit owned or referred to", "Prediction")])

prop("C30", "Pieces that do not fit together stop the program",
     "A call that is given pieces which cannot belong together never returns an answer: the program ends (assertion, exception) at that call; and pieces that fit never stop it. The pieces fit when: indices are inside what is subset, set or folded (no position twice in a fold); a mean, covariance, variance, targets, features, coefficients, deviations, predictions or rows that go together have equal sizes and covariances are square; groups to be put together again cover 0..n-1 exactly once and every group has a prediction of its size under its key; matrix blocks match the right hand side, each other and the keys of the other side; stacked matrices have one width; a single value is asked of one distinct value; maps joined strictly share no key; keys said to be sorted are; the edges of a graph join its vertices; a uniform prior's upper bound is above its lower one (both positive on the log scale); one tunable value is given per free parameter; parameters set by name exist; degrees, distances and counts are not negative, and counts turned into doubles do not exceed 2^53; a sampler's CSV has the metadata columns first, in order, rows as wide as the header and one value per parameter, and at least three usable starting states; a covariance matrix to be fit holds no NaN; a sparse model has inducing points; a decomposition has been computed.",
     ["inputs", "histories"], "All small shapes of the pieces of some forty kinds of call, and histories of such calls.",
     "Tests pass arguments that fit; a missing or loosened precondition shows only when the pieces do not.",
     ["indexing/subset.hpp", "core/distribution.hpp", "core/dataset.hpp", "core/priors.hpp", "evaluation/folds.hpp", "evaluation/cross_validation_utils.hpp", "linalg/block_diagonal.hpp", "linalg/block_utils.hpp", "utils/map_utils.hpp", "samplers/initialization.hpp", "details/error_handling.hpp", "details/typecast.hpp"],
     [("the assertion every precondition uses", "details/error_handling.hpp"), ("bounds of indices", "indexing/subset.hpp"), ("sizes of groups and predictions", "evaluation/cross_validation_utils.hpp")],
     ["does the call return"], [("running", "whether the program is still running", "process")])

prop("C31", "Reports written as text say what they describe",
     "For every tuning run, the log holds every evaluation in the order it was made (parameters, objective, gradient where one was computed) and ends with the minimum, the optimizer's termination code and the tuned parameters that are returned; a greedy tuner announces its proposals and logs every attempt and evaluation, marks exactly the evaluations that were the best so far, and states the best value and parameters after each attempt. Parameter listings name every parameter with its value, validity, prior and bounds; reports of eigen directions state the extreme eigenvalues and the requested number of smallest or largest directions with every coefficient above the threshold, largest first, beside its own feature, and leave the stream's format as it was; printed call traces, graphs and measurements show the calls with their values, every edge with its ends and cost, and the value that was measured. Numbers agree to the digits shown.",
     ["inputs", "histories"], "All parameter stores, objectives, optimizers and histories of evaluations, all symmetric matrices, thresholds and counts.",
     "Tests do not read what is printed; a log which leaves out or misattributes an evaluation still looks like a log.",
     ["tune/tune.hpp", "tune/greedy_tuner.hpp", "core/parameters.hpp", "core/priors.hpp", "linalg/print_eigen_directions.hpp", "covariance_functions/call_trace.hpp", "graph/minimum_spanning_tree.hpp", "covariance_functions/measurement.hpp"],
     [("log of a tuner", "tune/tune.hpp"), ("log of the greedy tuner", "tune/greedy_tuner.hpp"), ("listings of parameters", "core/parameters.hpp"), ("eigen directions", "linalg/print_eigen_directions.hpp")],
     ["text written, read back"], [("asked", "evaluations made so far", "recorded at the objective"), ("log", "blocks of the text", "parsed")])


def main():
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")


main()
