from common import *
from files import archive_models, figure_models, written

M = INST + "model:Model"
SP = "spec.figures:"
OUT = symarg("out", None, "Path")
PNG = ["distribution_feature_*.png", "distribution_performance_global_normalized_*.png", "distribution_performance_individual_normalized_*.png",
       "binary_performance_*.png", "binary_svm_*.png", "footprint_*.png", "distribution_number_good_algos.png", "distribution_portfolio.png",
       "distribution_svm_portfolio.png", "distribution_beta_score.png", "distribution_sources.png", "footprint_portfolio.png"]
DIMS = {"self.data.x": ("N", "F"), "self.data.y": ("N", "A"), "self.data.y_raw": ("N", "A"), "self.data.y_bin": ("N", "A"),
        "self.data.num_good_algos": ("N",), "self.data.beta": ("N",), "self.data.p": ("N",), "self.pythia.y_hat": ("N", "A"), "self.pythia.selection0": ("N",),
        "self.pilot.z": ("N", 2), "self.data.algo_labels": ("A",), "self.data.feat_labels": ("F",), "self.data.s": ("N",)}


def check(c):
    me = symarg("self", M)
    c.equiv("graphs", M + ".save_graphs", SP + "graphs", [me, OUT], dims=DIMS, models=figure_models(PNG), pick=written(PNG, ["open"]))
    c.equiv("matlab", M + ".save_to_mat", SP + "matlab", [me, OUT], dims=DIMS, models=archive_models(["model.mat"]), pick=written(["model.mat"]))
    c.equiv("zip", M + ".save_zip", SP + "archive", [me, symarg("zip_filename", None, "str"), OUT], models=archive_models([]), pick=written([], ["zip"]))
