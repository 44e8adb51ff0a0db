from common import *

FIELDS = ["mu", "sigma", "w", "cp", "svm", "cvcmat", "y_sub", "y_hat", "pr0_sub", "pr0_hat", "box_consnt", "k_scale", "accuracy", "precision", "recall"]


def check(c):
    c.equiv("models", PYTHIA, "spec.pythia:models", PYTHIA_ARGS, FIELDS, PYTHIA_DIMS, opts("pythia_options", use_weights=B),
            known_spec={"cv-metrics-in-sample": "spec.pythia:models_in_sample"})
