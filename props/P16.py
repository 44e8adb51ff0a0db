from common import *
from files import csv_models, written

M = INST + "model:Model"
SP = "spec.exports:"
OUT = symarg("out", None, "Path")
CSV = ["footprint_*_best.csv", "footprint_*_good.csv", "coordinates.csv", "bounds.csv", "bounds_prunned.csv", "feature_raw.csv", "feature_process.csv",
       "algorithm_raw.csv", "algorithm_process.csv", "algorithm_bin.csv", "good_algos.csv", "beta_easy.csv", "portfolio.csv", "algorithm_svm.csv",
       "portfolio_svm.csv", "footprint_performance.csv", "projection_matrix.csv", "svm_table.csv"]
WEB = ["color_table.csv", "feature_raw_color.csv", "feature_process_color.csv", "algorithm_raw_single_color.csv", "algorithm_process_single_color.csv",
       "algorithm_raw_color.csv", "algorithm_process_color.csv", "good_algos_color.csv"]
DIMS = {"self.data.x": ("N", "F"), "self.data.y": ("N", "A"), "self.data.x_raw": ("N", "G"), "self.data.y_raw": ("N", "A"), "self.data.y_bin": ("N", "A"),
        "self.data.num_good_algos": ("N",), "self.data.beta": ("N",), "self.data.p": ("N",), "self.pythia.y_hat": ("N", "A"), "self.pythia.selection0": ("N",),
        "self.pilot.z": ("N", 2), "self.cloister.z_edge": ("E", 2), "self.cloister.z_ecorr": ("C", 2)}


def check(c):
    me = symarg("self", M)
    c.equiv("csv", M + ".save_to_csv", SP + "to_csv", [me, OUT], dims=DIMS, models=csv_models(CSV), pick=written(CSV),
            known_spec={"svm-portfolio-from-zero": SP + "portfolio_svm_from_zero"})
    c.equiv("web", M + ".save_for_web", SP + "for_web", [me, OUT], dims=DIMS, models=csv_models(WEB), pick=written(WEB))
