from common import *


def check(c):
    c.equiv("preprocessing", PREP, "spec.preprocessing:cleaned", PREP_ARGS, None, PREP_DIMS)
