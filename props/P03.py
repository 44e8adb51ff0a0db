from common import *


def check(c):
    g = {**opts("prelim_options", max_perf=B, abs_perf=B, bound=B, norm=B), **NOSEL}
    c.equiv("performance", PRELIM, "spec.prelim:performance", PRELIM_ARGS, ["y_bin", "y_best", "p", "num_good_algos", "beta"], PRELIM_DIMS, g)
