from common import *
from engine import MissingAnchor, opaque, present
from P14 import shared
from terms import OPKIND, OPVKIND, raw, show, subterms

SR = INST + "stage_runner:StageRunner"
SP = "spec.runner:"
ROLL = SR + "._rollback_to_schedule_index"
ME = symarg("self", SR)
STG = symarg("stage", None, "StageClass")
INI = symarg("initial", None, "NamedTuple")
STATE = ["_available_arguments", "_current_schedule_item", "_schedule_output_data", "_stages_ran"]


def check(c):
    see = observed((0, "self"))
    k = shared(c.prog, "is_restriction")
    cut = {ROLL + "$after": reset, SP + "rolled_back$after": reset}
    if not has_fields(c.prog, SR, STATE):
        c.rule("runner", None, "the runner does not keep its state in the known attributes")
        return
    c.equiv("rollback", ROLL, SP + "rolled_back", [ME, symarg("index", None, "int")], pick=see, alt=[SP + "rolled_back_counting", SP + "rolled_back_by_index"])
    if present(c.prog, ROLL):
        # which stages count as run after going back is decided above
        k.update(cut)
    c.equiv("restart", SR + "._restart", SP + "restarted", [ME, INI], pick=see, models=cut if present(c.prog, ROLL) else None)
    c.equiv("progress", SR + "._progress_schedule", SP + "progressed", [ME], pick=see)
    c.equiv("stage", SR + ".run_stage", SP + "ran", [ME, STG], models=k, pick=see)
    m = {SR + ".run_stage": stepping("stage"), **(cut if present(c.prog, ROLL) else {})}
    c.equiv("all", SR + ".run_all", SP + "ran_all", [ME, INI], models=m, pick=see)
    c.equiv("until", SR + ".run_until_stage", SP + "ran_until", [ME, STG, INI], models=m, pick=see)
    c.equiv("iter", SR + ".run_iter", SP + "iterated", [ME, INI], models=m, pick=see)
    c.equiv("given", SR + ".run_stage", SP + "ran", [ME, STG], models=k, pick=see, kwargs={"given": symarg("given")})
    c.equiv("created", SR + ".__init__", SP + "created",
            [ME, symarg("stages", None, "list[list[StageClass]]"), symarg("inputs", None, "dict[StageClass, set[_StageArgument]]"),
             symarg("outputs", None, "dict[StageClass, set[_StageArgument]]"), symarg("initial", None, "set[_StageArgument]")],
            models=shared(c.prog, "is_restriction"), pick=see)
    separate(c, k)
    IS = INST + "instance_space:InstanceSpace"
    us = symarg("self", IS)
    m = {SR + ".run_all": opaque("run_all", None, ["additional_arguments"]),
         SR + ".run_until_stage": opaque("run_until", None, ["stop_at_stage", "additional_arguments"]),
         SR + ".run_stage": opaque("run_stage", None, ["stage", "additional_arguments"]),
         SR + ".run_iter": opaque("run_iter", None, ["additional_arguments"]),
         INST + "instance_space:_InstanceSpaceInputs.from_metadata_and_options": opaque("initial", None, ["metadata", "options"]),
         INST + "model:Model.from_stage_runner_output": opaque("model_of", None, ["stage_runner_output", "options"])}
    for fn, sp, args, kw in (("build", "built", [], None), ("model", "current_model", [], None), ("run_iter", "built_stepwise", [], None),
                             ("run_stage", "one_stage", [STG], {"given": symarg("given")}), ("run_until_stage", "until_stage", [STG], None)):
        c.equiv("space." + fn, IS + "." + fn, SP + sp, [us, *args], models=m, pick=see, kwargs=kw)


def reset(I, loc, result):
    """after going back, which stages count as run is some function of the step gone back to"""
    OPKIND["call:reset"], OPVKIND["call:reset"] = "dict", "bool"
    I.setattr(loc["self"], "_stages_ran", I.box(raw("call:reset", [I.term(loc["index"])])))
    return result


def holds(t, *ops):
    return any(x.op in ops for x in subterms(t))


def separate(c, k):
    """what a stage changes in place reaches neither the data of other stages nor the snapshots"""
    new = ("fresh:deep", "fresh:copy")
    rule = "identity of copies: stages and snapshots hold objects of their own"
    see = observed((0, "self"))

    def final(fn, *args):
        try:
            r = c.entry(SR + fn, [ME, *args], models={**k, "$fresh": True})
            return see(r)
        except MissingAnchor:
            return {}

    o = final(".run_stage", STG)
    runs = [x for x in subterms(o["result"]) if x.op == "call:m._run"] if "result" in o else []
    for x in runs[:1]:
        t = x.args[-1]
        c.rule("stage input copied", True if t.op == "fresh:deep" else None if holds(t, "fresh:deep") else False,
               "the stage is given the runner's own data, not a deep copy: " + show(t, 4)[:200], SR + ".run_stage", rule=rule)
    if not runs:
        c.rule("stage input copied", None, "no call of _run found", rule=rule)
    o = final("._progress_schedule")
    s = o.get("self._schedule_output_data")
    if s is None:
        c.rule("snapshot copied", None, "no snapshot found", rule=rule)
    else:
        live = o.get("self._available_arguments")
        c.rule("snapshot copied", holds(s, *new) or live is not None and holds(live, *new),
               "the snapshot is the dictionary later stages write to: " + show(s, 4)[:200], SR + "._progress_schedule", rule=rule)
    o = final("._rollback_to_schedule_index", symarg("index", None, "int"))
    live = o.get("self._available_arguments")
    if live is None:
        c.rule("restored copied", None, "no restored data found", rule=rule)
    else:
        s = o.get("self._schedule_output_data")
        c.rule("restored copied", holds(live, *new) or s is not None and holds(s, *new),
               "stages run again write into the snapshot: " + show(live, 4)[:200], SR + "._rollback_to_schedule_index", rule=rule)


def stepping(*params):
    """run_stage as an unknown function of the runner's state and its arguments, which changes that state"""
    def model(I, loc):
        me = loc["self"]
        I.term(me)
        args = [I.term(I.getattr(me, f)) for f in STATE] + [I.term(loc[p]) for p in params]
        for f in STATE:
            t = raw("call:ran." + f, args)
            I.setattr(me, f, I.box(t))
        return I.box(raw("call:ran", args))
    return model
