from common import *
from tracelib import *


def check(c):
    b, t, yb, yt = symarg("base", FP), symarg("test", FP), symarg("yb", None, "NDArray"), symarg("yt", None, "NDArray")
    d = {**DIM, "yb": ("N",), "yt": ("N",)}
    c.equiv("contradictions", TR + "contra", "spec.trace:resolved", [ME, b, t, yb, yt], None, d, models=TIGHT, specargs=[ZA, b, t, yb, yt, PU])
    sh = symarg("shape", None, "MultiPolygon")
    c.equiv("refit", TR + "tight", "spec.trace:refitted", [ME, sh, Y], None, d, models=FIT, specargs=[ZA, sh, Y, PU])
    c.equiv("analysis", TRACE, "spec.trace:analysis", TRACE_ARGS, ["best"], TRACE_DIMS, {"inputs.trace_options.use_sim": [True]},
            models={**BUILD, **CONTRA})
