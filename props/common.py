"""Shapes and option grids shared by the properties."""
from engine import opaque, own, symarg
from terms import dim

B = [True, False]
INST = "instancespace."
S = INST + "stages."

PRELIM = S + "prelim:PrelimStage._run"
PRELIM_ARGS = [symarg("inputs", S + "prelim:PrelimInput")]
PRELIM_DIMS = {"inputs.x": ("N", "F"), "inputs.y": ("N", "A"), "inputs.x_raw": ("N", "F"), "inputs.y_raw": ("N", "A"),
               "inputs.inst_labels": ("N",), "inputs.s": ("N",)}


def opts(prefix, **kw):
    return {f"inputs.{prefix}.{k}": v for k, v in kw.items()}


NOSEL = opts("selvars_options", density_flag=[False], small_scale_flag=[False], file_idx_flag=[False])

PREP = S + "preprocessing:PreprocessingStage._run"
PREP_ARGS = [symarg("inputs", S + "preprocessing:PreprocessingInput")]
PREP_DIMS = {"inputs.features": ("N", "F"), "inputs.algorithms": ("N", "A"), "inputs.feature_names": ("F",), "inputs.algorithm_names": ("A",),
             "inputs.instance_labels": ("N",), "inputs.instance_sources": ("N",)}

PILOT = S + "pilot:PilotStage._run"
PILOT_ARGS = [symarg("inputs", S + "pilot:PilotInput")]
PILOT_DIMS = {"inputs.x": ("N", "F"), "inputs.y": ("N", "A"), "inputs.feat_labels": ("F",), "inputs.pilot_options.x0": ("P", "T"),
              "inputs.pilot_options.alpha": ("Q", "R")}
NOTNONE = lambda I, ann, mod: None  # noqa: E731

SIFTED = S + "sifted:SiftedStage._run"
SIFTED_ARGS = [symarg("inputs", S + "sifted:SiftedInput")]
SIFTED_DIMS = {"inputs.x": ("N", "F"), "inputs.y": ("N", "A"), "inputs.x_raw": ("N", "F"), "inputs.y_raw": ("N", "A"), "inputs.y_bin": ("N", "A"),
               "inputs.feat_labels": ("F",), "inputs.inst_labels": ("N",), "inputs.s": ("N",), "inputs.p": ("N",),
               "inputs.data_dense.x": ("M", "F"), "inputs.data_dense.y": ("M", "A"), "inputs.data_dense.x_raw": ("M", "F"),
               "inputs.data_dense.y_raw": ("M", "A"), "inputs.data_dense.y_bin": ("M", "A")}

CLOI = S + "cloister:CloisterStage."
CLOI_ARGS = [symarg("inputs", S + "cloister:CloisterInput")]
CLOI_DIMS = {"inputs.x": ("N", "F"), "inputs.a": (2, "F"), "x": ("N", "F"), "rho": ("F", "F")}

PYTHIA = S + "pythia:PythiaStage._run"
PYTHIA_ARGS = [symarg("inputs", S + "pythia:PythiaInput")]
PYTHIA_DIMS = {"inputs.z": ("N", 2), "inputs.y_raw": ("N", "A"), "inputs.y_bin": ("N", "A"), "inputs.y_best": ("N",), "inputs.algo_labels": ("A",),
               "inputs.pythia_options.params": ("P", "Q")}

TRACE = S + "trace:TraceStage._run"
TRACE_ARGS = [symarg("inputs", S + "trace:TraceInputs")]
TRACE_DIMS = {"inputs.z": ("N", 2), "inputs.y_bin": ("N", "A"), "inputs.y_hat": ("N", "A"), "inputs.p": ("N",), "inputs.selection0": ("N",),
              "inputs.beta": ("N",), "inputs.algo_labels": ("A",)}


def observed(*state):
    """result, final contents of the given arguments ({position: name}) and the condition under which each exception is raised"""
    state = dict(state)

    def pick(r):
        from compare import rewrite
        from engine import term_fields
        from terms import FALSE, ONE, ZERO, kind, mk_eq, mk_neg, mk_not, mk_or, mk_pos, mk_sub
        table = {}
        for c, e in r.raised:
            f = mk_not(c)       # holds wherever the results are looked at
            if f.op == "pos" and kind(f.args[0]) == "int":
                m = mk_sub(f.args[0], ONE)
                z = mk_eq(m, ZERO)
                table[id(z)] = mk_not(mk_pos(m))
                table[id(mk_not(z))] = mk_pos(m)
                table[id(mk_pos(mk_neg(m)))] = FALSE
        out = {"result": r.term}
        for k, name in state.items():
            t = r.interp.term(r.args[k])
            if t.op.startswith(("upd:", "rec:")):
                for f, v in term_fields(t).items():
                    out[f"{name}.{f}"] = v
        if table:
            out = {k: rewrite(v, table) for k, v in out.items()}
        for c, e in r.raised:
            n = "raises " + e.op.split(":")[-1] if e.op.startswith("exc:") else "raises ?"
            out[n] = mk_or([out[n], c]) if n in out else c
        return out
    return pick


def has_fields(prog, dotted, names):
    """does the class keep these attributes?"""
    import ast
    modn, cls = dotted.split(":")
    m = prog.modules.get(modn)
    d = m.defs.get(cls) if m else None
    if not isinstance(d, ast.ClassDef):
        return False
    got = {n.attr for n in ast.walk(d) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Store)}
    return set(names) <= got
