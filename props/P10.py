from common import *
from tracelib import *


def check(c):
    c.equiv("analysis", TRACE, "spec.trace:analysis", TRACE_ARGS, None, TRACE_DIMS, {"inputs.trace_options.use_sim": B},
            known_spec={"experimental-winner-numbering": "spec.trace:analysis_off_by_one"}, models={**BUILD, **CONTRA})
    c.equiv("one footprint", TR + "build", "spec.trace:built", [ME, Y], None, DIM, models={**FIT, **CLU}, specargs=[ZA, Y, PU])
    c.equiv("shape of points", TR + "fit_poly", "spec.trace:shape_of", [ME, symarg("data", None, "NDArray"), Y], None, DIM,
            specargs=[ZA, symarg("data", None, "NDArray"), Y, PU])
    c.equiv("clusters", TR + "dbscan", "spec.trace:clusters", [X, K, symarg("eps", None, "float")], None, DIM)
