from common import *

ROWS = ["x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta", "inst_labels", "s", "data_dense"]


def check(c):
    c.equiv("cleaning", PREP, "spec.preprocessing:cleaned", PREP_ARGS, ["x", "y", "x_raw", "y_raw", "inst_labels", "s"], PREP_DIMS)
    n = lambda I, loc: [dim(I.term(loc["x"]), 0)]  # noqa: E731
    m = {"instancespace.utils.filter:do_filter": opaque("do_filter", [("bool", n), ("bool", n), ("bool", n), ("num", lambda I, loc: [])])}
    g = {**opts("prelim_options", max_perf=[True], abs_perf=[True], bound=[False], norm=[False]),
         **opts("selvars_options", small_scale_flag=B, file_idx_flag=B, density_flag=B)}
    c.equiv("selection", PRELIM, "spec.prelim:selected", PRELIM_ARGS, ROWS, PRELIM_DIMS, g, models=m)
