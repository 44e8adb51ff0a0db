from common import *

O = INST + "data.options:"
SP = "spec.settings:"
SECTIONS = ["parallel", "perf", "auto", "bound", "norm", "selvars", "sifted", "pilot", "cloister", "pythia", "trace", "outputs"]

CLASSES = dict(parallel="Parallel", perf="Performance", auto="Auto", bound="Bound", norm="Norm", selvars="Selvars", sifted="Sifted", pilot="Pilot",
               cloister="Cloister", pythia="Pythia", trace="Trace", outputs="Output")
FIELDS = {
    "auto": [("preproc", "bool")],
    "bound": [("flag", "bool")],
    "cloister": [("p_val", "float"), ("c_thres", "float")],
    "norm": [("flag", "bool")],
    "outputs": [("csv", "bool"), ("web", "bool"), ("png", "bool")],
    "parallel": [("flag", "bool"), ("n_cores", "int")],
    "perf": [("max_perf", "bool"), ("abs_perf", "bool"), ("epsilon", "float"), ("beta_threshold", "float")],
    "pilot": [("analytic", "bool"), ("n_tries", "int"), ("x0", "NDArray[np.double] | None"), ("alpha", "NDArray[np.double] | None")],
    "pythia": [("cv_folds", "int"), ("is_poly_krnl", "bool"), ("use_weights", "bool"), ("use_grid_search", "bool")],
    "selvars": [("small_scale_flag", "bool"),
    ("small_scale", "float"),
    ("file_idx_flag", "bool"),
    ("file_idx", "str"),
    ("feats", "list[str] | None"),
    ("algos", "list[str] | None"),
    ("selvars_type", "str"),
    ("min_distance", "float"),
    ("density_flag", "bool")],
    "sifted": [("flag", "bool"),
    ("rho", "float"),
    ("k", "int"),
    ("n_trees", "int"),
    ("max_iter", "int"),
    ("replicates", "int"),
    ("num_generations", "int"),
    ("num_parents_mating", "int"),
    ("sol_per_pop", "int"),
    ("parent_selection_type", "str"),
    ("k_tournament", "int"),
    ("keep_elitism", "int"),
    ("crossover_type", "str"),
    ("cross_over_probability", "float"),
    ("mutation_type", "str"),
    ("mutation_probability", "float"),
    ("stop_criteria", "str")],
    "trace": [("use_sim", "bool"), ("purity", "float")]}
KNOWN = {s: [f for f, _ in fs] + (["params"] if s == "pythia" else []) for s, fs in FIELDS.items()}
ALIASES = {"ncores": "n_cores", "maxperf": "max_perf", "absperf": "abs_perf", "betathreshold": "beta_threshold", "smallscaleflag": "small_scale_flag",
           "smallscale": "small_scale", "fileidxflag": "file_idx_flag", "fileidx": "file_idx", "densityflag": "density_flag",
           "mindistance": "min_distance", "type": "selvars_type", "ntrees": "n_trees", "maxiter": "max_iter", "ntries": "n_tries", "pval": "p_val",
           "cthres": "c_thres", "cvfolds": "cv_folds", "ispolykrnl": "is_poly_krnl", "useweights": "use_weights", "uselibsvm": "use_grid_search",
           "pi": "purity", "usesim": "use_sim"}


def check(c):
    see = observed()
    both = ("spec.drive:tried", SP + "tried")
    v, w = symarg("v", None, "Any"), symarg("w", None, "Any")
    for s in SECTIONS:
        # any section: what each field is read from
        c.equiv(f"section {s}", "spec.drive:one", SP + "one", [s, symarg("section", None, "dict[str, Any]")], pick=lambda r: {"result": r.term})
        # each accepted spelling on its own, then with another spelling of the same field
        for f in KNOWN[s]:
            names = [f] + [a for a, g in ALIASES.items() if g == f]
            for n in names + [names[0].upper(), names[-1].title()]:
                c.equiv(f"{s}.{n}", *both, [{s: {n: v}}], pick=see)
            for n in names[1:] + [f.capitalize()]:
                c.equiv(f"{s}.{f} and {n}", *both, [{s: {f: v, n: w}}], pick=see)
                c.equiv(f"{s}.{n} and {f}", *both, [{s: {n: v, f: w}}], pick=see)
        c.equiv(f"{s} whole", *both, [{s: {f: symarg(f, None, "Any") for f in KNOWN[s]}}], pick=see)
        for n in ("_", "unknown", "_unknown", "flags", ""):
            c.equiv(f"{s}.{n!r}", *both, [{s: {KNOWN[s][0]: v, n: w}}], pick=see)
        for x in (None, 3, "text", []):
            c.equiv(f"{s} {x}", *both, [{s: x}], pick=see)
    c.equiv("several sections", *both, [{"trace": {"pi": v}, "pilot": {"ntries": w}, "unknown": {}}], pick=see)
    c.equiv("all sections", *both, [{s: {KNOWN[s][-1]: symarg(s, None, "Any")} for s in SECTIONS}], pick=see)
    for x in (3, "text", None, []):
        c.equiv(f"contents {x}", *both, [x], pick=see)
    c.equiv("defaults", "spec.drive:defaults", SP + "defaults", [], pick=see)
    c.equiv("some given", "spec.drive:given", SP + "given", [symarg(s, O + CLASSES[s] + "Options", CLASSES[s] + "Options | None") for s in SECTIONS], pick=see)
    for s, fs in FIELDS.items():
        c.equiv(f"given {s}", O + CLASSES[s] + "Options.default", SP + s + "_of", [], kwargs={f: symarg(f, None, t) for f, t in fs}, pick=see)
