from common import *

PAR = {S + "pilot:PilotStage.pilot": opaque("pilot")}


def check(c):
    nx = lambda I, loc: [dim(I.term(loc["x"]), 0)]  # noqa: E731
    m = {**PAR, "instancespace.utils.filter:do_filter": opaque("do_filter", [("bool", nx), ("bool", nx), ("bool", nx), ("num", lambda I, loc: [])])}
    c.equiv("sifted", SIFTED, "spec.sifted:selection", SIFTED_ARGS, None, SIFTED_DIMS,
            {**opts("selvars_options", density_flag=B), "inputs.sifted_options.flag": B}, models=m)
