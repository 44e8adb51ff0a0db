from common import *
from engine import present

SB = INST + "stage_builder:StageBuilder."
ME = symarg("self", SB[:-1])
ST = symarg("stage", None, "StageClass")


def ss(n):
    return symarg(n, None, "set[StageClass]")


def sa(n):
    return symarg(n, None, "set[_StageArgument]")


R = symarg("restr", None, "set[_BeforeAfterRestriction]")
MUT = symarg("mutates", None, "dict[StageClass, set[_StageArgument]]")
SRM, SP = INST + "stage_runner:", "spec.builder:"
SHARED = [  # helpers of the repository and of the definition that are compared on their own and taken as one elsewhere
    (SRM + "_is_run_restriction", "restriction", "is_restriction", [("bool", None)], ["argument_type", "restrictions"], ["kind", "which"]),
    (SB + "_get_mutating_stages", "mutating", "mutating", [("dict", None)], ["self"], ["self"]),
    (SB + "_get_ordering_restrictions", "restrictions", "restrictions", [("set", None)], ["self"], ["self"]),
    (SB + "_stage_resolves", "resolves", "resolves", [("bool", None)], ["stage", "resolved_stages", "available_inputs", "ordering_restrictions"],
     ["stage", "resolved", "available", "restr"]),
    (SB + "_mutating_stages_check", "first_in_line", "first_in_line", [("set", None)], ["stages_can_run", "mutating_stages"], ["can", "mutates"]),
    (SB + "_resolve_stages", "ordered", "ordered", [("list", None)], ["initial_input_annotations"], ["initial"]),
]


def one(name, out, params):
    k = opaque(name, out, params)
    return lambda I, loc: k(I, loc).items[0]


def shared(prog, *names):
    r = {}
    for f, s, n, out, pf, ps in SHARED:
        if n in names and present(prog, f):
            r[f] = one(n, out, pf)
            r[SP + s] = one(n, out, ps)
    return r


def check(c):
    see = observed((0, "self"))
    k = shared(c.prog, "is_restriction")
    c.equiv("restriction", SRM + "_is_run_restriction", SP + "restriction", [symarg("kind"), symarg("which")])
    if not has_fields(c.prog, SB[:-1], ["_stages", "_stage_inputs", "_stage_outputs"]):
        c.rule("builder", None, "the builder does not keep its stages in _stages, _stage_inputs and _stage_outputs")
        return
    c.equiv("add", SB + "add_stage", SP + "added", [ME, ST], models=k, pick=see)
    c.equiv("mutating", SB + "_get_mutating_stages", SP + "mutating", [ME], models=k, pick=see)
    c.equiv("restrictions", SB + "_get_ordering_restrictions", SP + "restrictions", [ME], models=k, pick=see)
    c.equiv("resolves", SB + "_stage_resolves", SP + "resolves", [ME, ST, ss("resolved"), sa("available"), R], models=k, pick=see)
    c.equiv("precedence", SB + "_mutating_stages_check", SP + "first_in_line", [ME, ss("can"), MUT], pick=see, alt=[SP + "first_in_line_short"])
    c.equiv("order", SB + "_resolve_stages", SP + "ordered", [ME, sa("initial")], pick=see,
            models=shared(c.prog, "mutating", "restrictions", "resolves", "first_in_line"))
    c.equiv("runnable", SRM + "StageRunner._check_stage_order_is_runnable", SP + "runnable",
            [symarg("stages", None, "list[list[StageClass]]"), symarg("inputs", None, "dict[StageClass, set[_StageArgument]]"),
             symarg("outputs", None, "dict[StageClass, set[_StageArgument]]"), sa("initial")], models=k, pick=observed())
