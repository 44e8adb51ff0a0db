"""How options and metadata are read.  Analysed, never executed."""
import json
from pathlib import Path

import pandas as pd

from instancespace.data.metadata import Metadata
from instancespace.data.options import (
    AutoOptions,
    BoundOptions,
    CloisterOptions,
    InstanceSpaceOptions,
    NormOptions,
    OutputOptions,
    ParallelOptions,
    PerformanceOptions,
    PilotOptions,
    PrelimOptions,
    PythiaOptions,
    SelvarsOptions,
    SiftedOptions,
    TraceOptions,
)
from instancespace.data.metadata import from_csv_file as read_metadata
from instancespace.data.options import from_json_file as read_options
from instancespace.instance_space import InstanceSpace


def option(low, name, short, default):
    if name in low:
        return low[name]
    if short in low:
        return low[short]
    return default


def refuse(section, known, shorts):
    seen = {}
    unknown = []
    for key, value in section.items():
        name = shorts.get(key.lower(), key.lower())
        if name in seen:
            raise ValueError("twice")
        if name not in known and name != "_":
            unknown.append(name)
        seen[name] = value
    if len(unknown) > 0:
        raise ValueError("unknown")


def lower(section):
    return {k.lower(): v for k, v in section.items()}


def parallel(contents):
    d = contents.get("parallel", {})
    o = lower(d)
    refuse(d, {"flag", "n_cores"}, {"ncores": "n_cores"})
    return ParallelOptions(flag=option(o, "flag", "flag", False), n_cores=option(o, "n_cores", "ncores", 2))


def performance(contents):
    d = contents.get("perf", {})
    o = lower(d)
    refuse(d, {"max_perf", "abs_perf", "epsilon", "beta_threshold"}, {"maxperf": "max_perf", "absperf": "abs_perf", "betathreshold": "beta_threshold"})
    return PerformanceOptions(max_perf=option(o, "max_perf", "maxperf", False), abs_perf=option(o, "abs_perf", "absperf", True),
                              epsilon=option(o, "epsilon", "epsilon", 0.2), beta_threshold=option(o, "beta_threshold", "betathreshold", 0.55))


def flag(contents, name, field, default):
    d = contents.get(name, {})
    refuse(d, {field}, {})
    return option(lower(d), field, field, default)


def selvars(contents):
    d = contents.get("selvars", {})
    o = lower(d)
    refuse(d, {"small_scale_flag", "small_scale", "file_idx_flag", "file_idx", "feats", "algos", "selvars_type", "min_distance", "density_flag"},
           {"smallscaleflag": "small_scale_flag", "smallscale": "small_scale", "fileidxflag": "file_idx_flag", "fileidx": "file_idx",
            "densityflag": "density_flag", "mindistance": "min_distance", "type": "selvars_type"})
    return SelvarsOptions(
        small_scale_flag=option(o, "small_scale_flag", "smallscaleflag", False), small_scale=option(o, "small_scale", "smallscale", 0.5),
        file_idx_flag=option(o, "file_idx_flag", "fileidxflag", False), file_idx=option(o, "file_idx", "fileidx", ""),
        feats=option(o, "feats", "feats", None), algos=option(o, "algos", "algos", None),
        selvars_type=option(o, "selvars_type", "type", "Ftr&Good"), min_distance=option(o, "min_distance", "mindistance", 0.1),
        density_flag=option(o, "density_flag", "densityflag", False))


def sifted(contents):
    d = contents.get("sifted", {})
    o = lower(d)
    refuse(d, {"flag", "rho", "k", "n_trees", "max_iter", "replicates", "num_generations", "num_parents_mating", "sol_per_pop", "parent_selection_type",
               "k_tournament", "keep_elitism", "crossover_type", "cross_over_probability", "mutation_type", "mutation_probability", "stop_criteria"},
           {"ntrees": "n_trees", "maxiter": "max_iter", "replicates": "replicates"})
    return SiftedOptions(
        flag=option(o, "flag", "flag", True), rho=option(o, "rho", "rho", 0.1), k=option(o, "k", "k", 6), n_trees=option(o, "n_trees", "ntrees", 50),
        max_iter=option(o, "max_iter", "maxiter", 1000), replicates=option(o, "replicates", "replicates", 100),
        num_generations=option(o, "num_generations", "num_generations", 100), num_parents_mating=option(o, "num_parents_mating", "num_parents_mating", 2),
        sol_per_pop=option(o, "sol_per_pop", "sol_per_pop", 50), parent_selection_type=option(o, "parent_selection_type", "parent_selection_type", "tournament"),
        k_tournament=option(o, "k_tournament", "k_tournament", 4), keep_elitism=option(o, "keep_elitism", "keep_elitism", 2),
        crossover_type=option(o, "crossover_type", "crossover_type", "scattered"),
        cross_over_probability=option(o, "cross_over_probability", "cross_over_probability", 0.8),
        mutation_type=option(o, "mutation_type", "mutation_type", "random"), mutation_probability=option(o, "mutation_probability", "mutation_probability", 0.05),
        stop_criteria=option(o, "stop_criteria", "stop_criteria", "saturate_5"))


def pilot(contents):
    d = contents.get("pilot", {})
    o = lower(d)
    refuse(d, {"x0", "alpha", "analytic", "n_tries"}, {"ntries": "n_tries"})
    return PilotOptions(x0=option(o, "x0", "x0", None), alpha=option(o, "alpha", "alpha", None), analytic=option(o, "analytic", "analytic", False),
                        n_tries=option(o, "n_tries", "ntries", 5))


def cloister(contents):
    d = contents.get("cloister", {})
    o = lower(d)
    refuse(d, {"p_val", "c_thres"}, {"pval": "p_val", "cthres": "c_thres"})
    return CloisterOptions(p_val=option(o, "p_val", "pval", 0.05), c_thres=option(o, "c_thres", "cthres", 0.7))


def pythia(contents):
    d = contents.get("pythia", {})
    o = lower(d)
    refuse(d, {"cv_folds", "is_poly_krnl", "use_weights", "use_grid_search", "params"},
           {"cvfolds": "cv_folds", "ispolykrnl": "is_poly_krnl", "useweights": "use_weights", "uselibsvm": "use_grid_search"})
    return PythiaOptions(cv_folds=option(o, "cv_folds", "cvfolds", 5), is_poly_krnl=option(o, "is_poly_krnl", "ispolykrnl", False),
                         use_weights=option(o, "use_weights", "useweights", False), use_grid_search=option(o, "use_grid_search", "uselibsvm", False),
                         params=option(o, "params", "params", None))


def trace(contents):
    d = contents.get("trace", {})
    o = lower(d)
    refuse(d, {"use_sim", "purity"}, {"pi": "purity", "usesim": "use_sim"})
    return TraceOptions(use_sim=option(o, "use_sim", "usesim", True), purity=option(o, "purity", "pi", 0.55))


def outputs(contents):
    d = contents.get("outputs", {})
    o = lower(d)
    refuse(d, {"csv", "web", "png"}, {})
    return OutputOptions(csv=option(o, "csv", "csv", True), web=option(o, "web", "web", False), png=option(o, "png", "png", True))


def from_dict(contents):
    if not isinstance(contents, dict):
        raise ValueError("not an object")
    if set(contents.keys()) - {"parallel", "perf", "auto", "bound", "norm", "selvars", "sifted", "pilot", "cloister", "pythia", "trace", "outputs"}:
        raise ValueError("unknown sections")
    for section in contents.values():
        if not isinstance(section, dict):
            raise ValueError("not an object")
    return InstanceSpaceOptions(
        parallel=parallel(contents), perf=performance(contents), auto=AutoOptions(flag(contents, "auto", "preproc", True)),
        bound=BoundOptions(flag(contents, "bound", "flag", True)), norm=NormOptions(flag(contents, "norm", "flag", True)), selvars=selvars(contents),
        sifted=sifted(contents), pilot=pilot(contents), cloister=cloister(contents), pythia=pythia(contents), trace=trace(contents), outputs=outputs(contents))


def one(name, section):
    return from_dict({name: section})


def tried(contents):
    try:
        return from_dict(contents)
    except ValueError:
        return "refused"


def from_json_file(file_path):
    if isinstance(file_path, str):
        file_path = Path(file_path)
    try:
        with file_path.open() as f:
            contents = json.loads(f.read())
        return InstanceSpaceOptions.from_dict(contents)
    except (OSError, ValueError):
        return None


def defaults():
    return from_dict({})


def given(parallel, perf, auto, bound, norm, selvars, sifted, pilot, cloister, pythia, trace, outputs):
    return InstanceSpaceOptions(
        parallel=from_dict({}).parallel if parallel is None else parallel,
        perf=from_dict({}).perf if perf is None else perf,
        auto=from_dict({}).auto if auto is None else auto,
        bound=from_dict({}).bound if bound is None else bound,
        norm=from_dict({}).norm if norm is None else norm,
        selvars=from_dict({}).selvars if selvars is None else selvars,
        sifted=from_dict({}).sifted if sifted is None else sifted,
        pilot=from_dict({}).pilot if pilot is None else pilot,
        cloister=from_dict({}).cloister if cloister is None else cloister,
        pythia=from_dict({}).pythia if pythia is None else pythia,
        trace=from_dict({}).trace if trace is None else trace,
        outputs=from_dict({}).outputs if outputs is None else outputs,
    )


def parallel_of(flag, n_cores):
    return ParallelOptions(flag=flag, n_cores=n_cores)


def perf_of(max_perf, abs_perf, epsilon, beta_threshold):
    return PerformanceOptions(max_perf=max_perf, abs_perf=abs_perf, epsilon=epsilon, beta_threshold=beta_threshold)


def auto_of(preproc):
    return AutoOptions(preproc=preproc)


def bound_of(flag):
    return BoundOptions(flag=flag)


def norm_of(flag):
    return NormOptions(flag=flag)


def selvars_of(small_scale_flag, small_scale, file_idx_flag, file_idx, feats, algos, selvars_type, min_distance, density_flag):
    return SelvarsOptions(small_scale_flag=small_scale_flag, small_scale=small_scale, file_idx_flag=file_idx_flag, file_idx=file_idx, feats=feats, algos=algos, selvars_type=selvars_type, min_distance=min_distance, density_flag=density_flag)


def sifted_of(flag, rho, k, n_trees, max_iter, replicates, num_generations, num_parents_mating, sol_per_pop, parent_selection_type, k_tournament, keep_elitism, crossover_type, cross_over_probability, mutation_type, mutation_probability, stop_criteria):
    return SiftedOptions(flag=flag, rho=rho, k=k, n_trees=n_trees, max_iter=max_iter, replicates=replicates, num_generations=num_generations, num_parents_mating=num_parents_mating, sol_per_pop=sol_per_pop, parent_selection_type=parent_selection_type, k_tournament=k_tournament, keep_elitism=keep_elitism, crossover_type=crossover_type, cross_over_probability=cross_over_probability, mutation_type=mutation_type, mutation_probability=mutation_probability, stop_criteria=stop_criteria)


def pilot_of(analytic, n_tries, x0, alpha):
    return PilotOptions(analytic=analytic, n_tries=n_tries, x0=x0, alpha=alpha)


def cloister_of(p_val, c_thres):
    return CloisterOptions(p_val=p_val, c_thres=c_thres)


def pythia_of(cv_folds, is_poly_krnl, use_weights, use_grid_search):
    return PythiaOptions(cv_folds=cv_folds, is_poly_krnl=is_poly_krnl, use_weights=use_weights, use_grid_search=use_grid_search, params=None)


def trace_of(use_sim, purity):
    return TraceOptions(use_sim=use_sim, purity=purity)


def outputs_of(csv, web, png):
    return OutputOptions(csv=csv, web=web, png=png)


def from_data_frame(data):
    name = data.columns.str.lower()
    labels = data.loc[:, name == "instances"].squeeze(axis=1)
    if pd.api.types.is_numeric_dtype(labels):
        labels = labels.astype(str)
    sources = None
    if (name == "source").any():
        sources = data.loc[:, name == "source"].squeeze(axis=1)
    features = data.loc[:, name.str.startswith("feature_")]
    algorithms = data.loc[:, name.str.startswith("algo_")]
    return Metadata(feature_names=features.columns.tolist(), algorithm_names=algorithms.columns.tolist(), instance_labels=labels,
                    instance_sources=sources, features=features.to_numpy(), algorithms=algorithms.to_numpy())


def from_csv_file(file_path):
    if isinstance(file_path, str):
        file_path = Path(file_path)
    try:
        data = pd.read_csv(file_path)
    except (OSError, pd.errors.ParserError, pd.errors.EmptyDataError, UnicodeDecodeError):
        return None
    return Metadata.from_data_frame(data)


def from_files(metadata_filepath, options_filepath):
    metadata = read_metadata(metadata_filepath)
    if metadata is None:
        return None
    options = read_options(options_filepath)
    if options is None:
        return None
    return InstanceSpace(metadata, options)


def from_directory(directory):
    return from_files(directory / "metadata.csv", directory / "options.json")
