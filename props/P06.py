from common import *


def check(c):
    o = "inputs.pilot_options."
    X0, AL = o + "x0", o + "alpha"
    s = "spec.pilot:projection"
    c.equiv("analytic", PILOT, s, PILOT_ARGS, None, PILOT_DIMS, {o + "analytic": [True]})
    for x0 in (True, False):
        for al in (True, False):
            g = {o + "analytic": [False]}
            if not x0:
                g[X0] = [None]
            if not al:
                g[AL] = [None]
            c.equiv(f"numeric(x0 {'given' if x0 else 'absent'}, alpha {'given' if al else 'absent'})", PILOT, s, PILOT_ARGS, None, PILOT_DIMS, g,
                    kinds={X0: "num", AL: "num"})
