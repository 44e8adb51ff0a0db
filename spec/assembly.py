"""What the stages are given and what the model holds.  Analysed, never executed."""


def given(metadata, options):
    return {
        "feature_names": metadata.feature_names, "algorithm_names": metadata.algorithm_names,
        "instance_labels": metadata.instance_labels, "instance_sources": metadata.instance_sources,
        "features": metadata.features, "algorithms": metadata.algorithms,
        "parallel_options": options.parallel, "perf_options": options.perf, "auto_options": options.auto,
        "bound_options": options.bound, "norm_options": options.norm, "selvars_options": options.selvars,
        "sifted_options": options.sifted, "pilot_options": options.pilot, "cloister_options": options.cloister,
        "pythia_options": options.pythia, "trace_options": options.trace, "outputs_options": options.outputs,
        "prelim_options.max_perf": options.perf.max_perf, "prelim_options.abs_perf": options.perf.abs_perf,
        "prelim_options.epsilon": options.perf.epsilon, "prelim_options.beta_threshold": options.perf.beta_threshold,
        "prelim_options.bound": options.bound.flag, "prelim_options.norm": options.norm.flag,
    }


def data(o):
    return {k: o[k] for k in ("inst_labels", "feat_labels", "algo_labels", "x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p",
                              "num_good_algos", "beta", "s")}


def model(o, options):
    r = {"opts": options}
    for k, v in data(o).items():
        r["data." + k] = v
    r["feat_sel.idx"] = o["idx"]
    for k in ("med_val", "iq_range", "hi_bound", "lo_bound", "min_x", "lambda_x", "mu_x", "sigma_x", "min_y", "lambda_y", "sigma_y", "mu_y"):
        r["prelim." + k] = o[k]
    for k in ("selvars", "idx", "rho", "pval", "silhouette_scores", "clust"):
        r["sifted." + k] = o[k]
    for k in ("X0", "alpha", "eoptim", "perf", "a", "z", "c", "b", "error", "r2"):
        r["pilot." + k] = o[k]
    r["pilot.summary"] = o["pilot_summary"]
    r["cloister.z_edge"] = o["z_edge"]
    r["cloister.z_ecorr"] = o["z_ecorr"]
    for k in ("mu", "sigma", "cp", "svm", "cvcmat", "y_sub", "y_hat", "pr0_sub", "pr0_hat", "box_consnt", "k_scale", "precision", "recall",
              "accuracy", "selection0", "selection1"):
        r["pythia." + k] = o[k]
    r["pythia.summary"] = o["pythia_summary"]
    for k in ("space", "good", "best", "hard"):
        r["trace." + k] = o[k]
    r["trace.summary"] = o["trace_summary"]
    return r
