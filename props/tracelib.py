"""Decomposition of the footprint stage: which function computes what."""
from common import *  # noqa: F403
from engine import own

Y = symarg("points", None, "NDArray")
ME = symarg("self", S + "trace:TraceStage")
TR = S + "trace:TraceStage."
ZP = [own("z"), own("opts", "purity")]
DIM = {"self.z": ("N", 2), "z": ("N", 2), "points": ("N",), "data": ("M", 2), "x": ("M", 2)}
FIT = {TR + "fit_poly": opaque("shape", None, [own("z"), "polydata", "y_bin", own("opts", "purity")]),
       "spec.trace:fitted": opaque("shape", None, ["z", "data", "points", "purity"])}
CLU = {TR + "dbscan": opaque("clusters", [("num", lambda I, loc: [dim(I.term(loc["x"]), 0)])], ["x", "k", "eps"]),
       "spec.trace:clustered": opaque("clusters", [("num", lambda I, loc: [dim(I.term(loc["data"]), 0)])], ["data", "k", "eps"])}
BUILD = {TR + "build": opaque("footprint", None, [own("z"), "y_bin", own("opts", "purity")]),
         "spec.trace:footprint": opaque("footprint", None, ["z", "points", "purity"])}
CONTRA = {TR + "contra": opaque("disputed", [(None, None)] * 2, [own("z"), "base", "test", "y_base", "y_test", own("opts", "purity")]),
          "spec.trace:disputed": opaque("disputed", [(None, None)] * 2, ["z", "base", "test", "y_base", "y_test", "purity"])}
ZA, PU, X, K = symarg("self.z", None, "NDArray"), symarg("self.opts.purity", None, "float"), symarg("x", None, "NDArray"), symarg("k", None, "int")
TIGHT = {TR + "tight": opaque("tightened", None, [own("z"), "polygon", "y_bin", own("opts", "purity")]),
         "spec.trace:tightened": opaque("tightened", None, ["z", "shape", "points", "purity"])}
FP = "instancespace.data.model:Footprint"
