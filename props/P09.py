from common import *


def check(c):
    c.equiv("models", PYTHIA, "spec.pythia:models", PYTHIA_ARGS, ["selection0", "selection1", "pythia_summary"], PYTHIA_DIMS,
            opts("pythia_options", use_weights=B), alt=["spec.pythia:models_in_sample"])
