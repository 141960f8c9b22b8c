# One entry per claimed property: the units (specification + driver) deciding it.
CHECKS = {
    "C01": dict(units=[dict(spec="KeyedMaps", driver=["keyed_maps.cc"], mc=["MC_KeyedMaps"])],
                require_ops=["KeyedMaps.union", "KeyedMaps.subset_sorted"]),
    "C02": dict(units=[dict(spec="SpanningTree", driver=["spanning_tree.cc"], mc=["MC_SpanningTree"])],
                require_ops=["SpanningTree.min_tree", "SpanningTree.max_forest", "SpanningTree.print"]),
    "C03": dict(units=[dict(spec="Compression", driver=["compression.cc"], mc=["MC_Compression"])],
                require_ops=["Compression.roundtrip", "Compression.damaged", "Compression.array_wrong_size"]),
    "C04": dict(units=[dict(spec="Chebyshev", driver=["chebyshev.cc"], mc=["MC_Chebyshev"])],
                require_ops=["Chebyshev.value", "Chebyshev.basis"]),
    "C05": dict(units=[dict(spec="Variants", driver=["variants.cc"], mc=["MC_Variants"])],
                require_ops=["Variants.extract", "Variants.extract_dataset", "Variants.wrap"]),
    "C06": dict(units=[dict(spec="Grouping", driver=["grouping.cc"], mc=["MC_Grouping"])],
                require_ops=["Grouping.indexers", "Grouping.folds", "Grouping.recombined"]),
    "C07": dict(units=[dict(spec="GroupedOps", driver=["grouped_ops.cc"], mc=["MC_GroupedOps"])],
                require_ops=["GroupedOps.filter", "GroupedOps.apply", "GroupedOps.combine", "GroupedOps.extremes"]),
    "C08": dict(units=[dict(spec="Indexing", driver=["indexing.cc"], mc=["MC_Indexing"])],
                require_ops=["Indexing.subset", "Indexing.set_subset", "Indexing.complement", "Indexing.filter", "Indexing.partition"]),
    "C09": dict(units=[dict(spec="Datasets", driver=["datasets.cc"], mc=["MC_Datasets"])],
                require_ops=["Datasets.subset", "Datasets.align", "Datasets.deduplicate", "Datasets.concatenate_types", "Datasets.regroup"]),
    "C10": dict(units=[dict(spec="Distributions", driver=["distributions.cc"], mc=["MC_Distributions"])],
                require_ops=["Distributions.linear", "Distributions.plus", "Distributions.approx", "Distributions.concatenate", "Distributions.printed"]),
    "C12": dict(units=[dict(spec="CovFunctions", driver=["cov_main.cc", "cov_a.cc", "cov_b.cc", "cov_c.cc", "cov_d.cc"], mc=["MC_CovFunctions"], shards=4)],
                require_ops=["CovFunctions.cov", "CovFunctions.gram", "CovFunctions.set", "CovFunctions.trace", "CovFunctions.mean", "CovFunctions.length_scale", "CovFunctions.grid"]),
    "C11": dict(units=[dict(spec="LinearCombinations", driver=["lc_main.cc", "lc_a.cc", "lc_b.cc", "lc_c.cc"], mc=["MC_LinearCombinations"], shards=4)],
                require_ops=["LinearCombinations.cov", "LinearCombinations.product", "LinearCombinations.mapped", "LinearCombinations.posterior", "LinearCombinations.mean", "LinearCombinations.build"]),
    "C13": dict(units=[dict(spec="Parallel", driver=["parallel.cc"], mc=["MC_Parallel"], shards=4)],
                require_ops=["Parallel.call", "Parallel.begin", "Parallel.return", "Parallel.cross", "Parallel.gram", "Parallel.throwing", "Parallel.same"]),
    "C14": dict(units=[dict(spec="Parameters", driver=["parameters.cc"], mc=["MC_Parameters"], shards=4)],
                require_ops=["Parameters.set_param", "Parameters.set_tunable", "Parameters.attempt", "Parameters.copy", "Parameters.tunable", "Parameters.log_likelihood", "Parameters.prior", "Parameters.valid"]),
    "C15": dict(units=[dict(spec="CrossValidation", driver=["cv_main.cc", "cv_gp.cc", "cv_generic.cc"], mc=["MC_CrossValidation"], shards=4)],
                require_ops=["CrossValidation." + o for o in ("fold", "means", "marginals", "joints", "flat", "scores", "model_metric", "loo", "logo", "size")]),
    "C16": dict(units=[dict(spec="GaussianProcess", driver=["gp_main.cc", "gp_a.cc", "gp_b.cc", "gp_c.cc"], mc=["MC_GaussianProcess"], shards=4)],
                require_ops=["GaussianProcess.fit", "GaussianProcess.predict", "GaussianProcess.prior", "GaussianProcess.covariance", "GaussianProcess.log_likelihood", "GaussianProcess.from_prediction", "GaussianProcess.set_param", "GaussianProcess.same"]),
    "C17": dict(units=[dict(spec="GaussianProcess", driver=["upd_main.cc", "upd_a.cc", "upd_b.cc"], mc=["MC_GaussianProcess"], shards=4)],
                require_ops=["GaussianProcess.fit", "GaussianProcess.update", "GaussianProcess.predict", "GaussianProcess.from_prediction"]),
    "C18": dict(units=[dict(spec="Solvers", driver=["solvers.cc"], mc=["MC_Solvers"], shards=4)],
                require_ops=["Solvers." + o for o in ("solve", "sqrt", "sqrt_product", "sqrt_transpose", "sqrt_solve", "sqrt_transpose_solve", "whiten", "log_det", "inverse_blocks",
                                                      "inverse_diagonal", "product", "minus", "grown", "qr", "qr_sqrt_solve", "qr_solve", "pivot", "truncated", "directions", "block_solve")]),
    "C19": dict(units=[dict(spec="Ransac", driver=["ransac_main.cc", "ransac_gp.cc"], mc=["MC_Ransac"], shards=4)],
                require_ops=["Ransac." + o for o in ("begin", "iterate", "end", "same", "fitter", "inlier", "consensus", "candidate", "wrapped")]),
    "C20": dict(units=[dict(spec="Serialization", driver=["serial_main.cc", "serial_models.cc", "serial_sparse.cc"], mc=["MC_Serialization"], shards=4)],
                require_ops=["Serialization." + o for o in ("start", "write", "cell", "read", "rewritten")]),
    "C21": dict(units=[dict(spec="SimpleModels", driver=["simple_models.cc"], mc=["MC_SimpleModels"], shards=4)],
                require_ops=["SimpleModels." + o for o in ("fit_coefs", "predict_coefs", "null", "gaussian", "prior", "condition", "conditional", "kinds")]),
    "C22": dict(units=[dict(spec="SparseGP", driver=["sgp_main.cc", "sgp_a.cc", "sgp_b.cc", "sgp_c.cc"], mc=["MC_SparseGP"], shards=4)],
                require_ops=["SparseGP." + o for o in ("fit", "predict", "log_likelihood", "update", "rebase", "from_prediction", "set_param", "exact", "same")]),
    "C23": dict(units=[dict(spec="EnsembleSampler", driver=["sampler.cc"], mc=["MC_EnsembleSampler"], shards=4)],
                require_ops=["EnsembleSampler." + o for o in ("start", "move", "tally", "return", "repeat", "model", "jitter")]),
    "C24": dict(units=[dict(spec="Tuning", driver=["tuning.cc"], mc=["MC_Tuning"], shards=6)],
                require_ops=["Tuning." + o for o in ("start", "eval", "metric", "aggregate", "result", "gradient", "mean")]),
    "C25": dict(units=[dict(spec="Csv", driver=["csv.cc"], mc=["MC_Csv"], shards=3)],
                require_ops=["Csv." + o for o in ("table", "matrix", "state", "read", "best", "names")]),
    "C26": dict(units=[dict(spec="PredictionMetrics", driver=["metrics.cc"], mc=["MC_PredictionMetrics"], shards=6)],
                require_ops=["PredictionMetrics." + o for o in ("errors", "likelihood", "object", "wasserstein", "crps", "variogram", "energy", "refused")]),
    "C27": dict(units=[dict(spec="RandomSelection", driver=["random.cc"], mc=["MC_RandomSelection"], shards=3)],
                require_ops=["RandomSelection." + o for o in ("positions", "elements", "counts", "repeat", "fill", "normal", "covariance", "sparse")]),
    "C28": dict(units=[dict(spec="StatFunctions", driver=["stats.cc"], mc=["MC_StatFunctions"], shards=6)],
                require_ops=["StatFunctions." + o for o in ("gamma", "chi", "increasing", "distance", "deviation", "uniform", "pdf")]),
    "C29": dict(units=[dict(spec="ModelInterface", driver=["models.cc"], mc=["MC_ModelInterface"], shards=6, flags=["-O1", "-fsanitize=address"])],
                require_ops=["ModelInterface." + o for o in ("fit", "predict", "predict_moved", "predict_fresh", "update", "update_in_place", "ask", "observe", "equal_fits", "equal_models")]),
    "C30": dict(units=[dict(spec="Preconditions", driver=["preconditions.cc"], mc=["MC_Preconditions"], shards=4)],
                require_ops=["Preconditions.history"]),
    "C31": dict(units=[dict(spec="Reports", driver=["reports.cc"], mc=["MC_Reports"], shards=4)],
                require_ops=["Reports." + o for o in ("log", "greedy_log", "listing", "eigen", "calls", "graph", "codes", "measurement")]),
}
NOT_APPLICABLE = {}
