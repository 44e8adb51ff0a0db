from common import *


def check(c):
    g = {**opts("prelim_options", max_perf=B, abs_perf=B, bound=B, norm=B), **NOSEL}
    c.equiv("bounds", PRELIM, "spec.prelim:bounds", PRELIM_ARGS, None, PRELIM_DIMS, g)
    c.equiv("scaling", PRELIM, "spec.prelim:scaled", PRELIM_ARGS, None, PRELIM_DIMS, g,
            alt=["spec.prelim:scaled_where", "spec.prelim:scaled_where2", "spec.prelim:scaled_clip"])
    c.equiv("untouched", PRELIM, "spec.prelim:unchanged", PRELIM_ARGS, None, PRELIM_DIMS, g)
