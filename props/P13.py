from common import *

OPT = symarg("options", INST + "data.options:InstanceSpaceOptions")
OUT = symarg("out", None, "dict[str, Any]")


def flat(r):
    """record of records -> {a.b: term}"""
    from engine import fields
    out = {}

    def go(p, t):
        from engine import term_fields
        f = term_fields(t) if t.op.startswith(("rec:", "upd:", "dict")) else None
        if f and t.op != "dict":
            for k, v in f.items():
                go(p + [k], v)
        else:
            out[".".join(p)] = t
    for k, v in fields(r).items():
        go([k], v)
    return out


def check(c):
    c.equiv("inputs", INST + "instance_space:_InstanceSpaceInputs.from_metadata_and_options", "spec.assembly:given",
            [symarg("metadata", INST + "data.metadata:Metadata"), OPT], pick=flat)
    c.equiv("model", INST + "model:Model.from_stage_runner_output", "spec.assembly:model", [OUT, OPT], pick=flat)
    wiring(c)


# who supplies what each stage works on, and who supplies what ends up in the model
SOURCES = {
    "PreprocessingStage": {"given": "feature_names algorithm_names instance_labels instance_sources features algorithms selvars_options"},
    "PrelimStage": {"PreprocessingStage": "x y x_raw y_raw s inst_labels", "given": "prelim_options selvars_options"},
    "SiftedStage": {"PrelimStage": "x y y_bin x_raw y_raw beta num_good_algos y_best p inst_labels s data_dense", "PreprocessingStage": "feat_labels",
                    "given": "sifted_options selvars_options parallel_options"},
    "PilotStage": {"SiftedStage": "x y feat_labels", "given": "pilot_options"},
    "PythiaStage": {"PilotStage": "z", "SiftedStage": "y_raw y_bin y_best", "PreprocessingStage": "algo_labels", "given": "pythia_options parallel_options"},
    "CloisterStage": {"SiftedStage": "x", "PilotStage": "a", "given": "cloister_options"},
    "TraceStage": {"PilotStage": "z", "PythiaStage": "selection0 y_hat", "SiftedStage": "p beta y_bin", "PreprocessingStage": "algo_labels",
                   "given": "trace_options parallel_options"},
}
FINAL = {
    "PreprocessingStage": "algo_labels",
    "PrelimStage": "med_val iq_range hi_bound lo_bound min_x lambda_x mu_x sigma_x min_y lambda_y sigma_y mu_y",
    "SiftedStage": "inst_labels feat_labels x y x_raw y_raw y_bin y_best p num_good_algos beta s selvars idx rho pval silhouette_scores clust",
    "PilotStage": "X0 alpha eoptim perf a z c b error r2 pilot_summary",
    "CloisterStage": "z_edge z_ecorr",
    "PythiaStage": "mu sigma cp svm cvcmat y_sub y_hat pr0_sub pr0_hat box_consnt k_scale precision recall accuracy selection0 selection1 pythia_summary",
    "TraceStage": "space good best hard trace_summary",
}


def wiring(c):
    from contracts import default_pipeline, resolve
    r = default_pipeline(c.prog)
    if r is None:
        c.rule("pipeline", None, "the default list of stages cannot be read off InstanceSpace.__init__")
        return
    stages, initial = r
    W = "declared data flow of the default pipeline"
    names = {s.name: s for s in stages}
    if not set(SOURCES) <= set(names):
        c.rule("pipeline", None, f"stages {sorted(set(SOURCES) - set(names))} are not in the default list", rule=W)
        return
    order, left, clashes = resolve(stages, initial)
    for s in stages:
        c.rule(f"{s.name} can run", s not in left, f"inputs {sorted(set(s.inputs.items()) - set(initial.items()))} are never all supplied", s.where, rule=W)
    c.rule("one running order", not clashes, "; ".join(f"{a.name} and {b.name} both give {sorted(map(str, x))}" for a, b, x in clashes), rule=W)
    for el in order:
        for s in el:
            for t in el:
                if s is not t:
                    x = set(s.outputs) & set(t.inputs)
                    c.rule(f"{t.name} independent of {s.name}", not x, f"{t.name} reads {sorted(x)}, which {s.name} of the same step may or may not have replaced",
                           t.where, rule=W)
    if left or clashes:
        return
    have = {n: "given" for n in initial}
    for el in order:
        for s in el:
            for src, ns in SOURCES.get(s.name, {}).items():
                for n in ns.split():
                    if n in s.inputs:
                        c.rule(f"{s.name}.{n}", have.get(n) == src, f"{n} comes from {have.get(n)}, not from {src}", s.where, rule=W)
                    else:
                        c.rule(f"{s.name}.{n}", None, f"{s.name} does not read {n}", s.where, rule=W)
        for s in el:
            for n in s.outputs:
                if n in have and n not in s.inputs:
                    c.rule(f"{s.name} replaces {n}", False, f"{s.name} writes {n}, which {have[n]} supplied and {s.name} does not read", s.where, rule=W)
                have[n] = s.name
    for src, ns in FINAL.items():
        for n in ns.split():
            c.rule(f"model {n}", have.get(n) == src, f"the model's {n} comes from {have.get(n)}, not from {src}", names[src].where, rule=W)
