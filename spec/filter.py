"""What the similarity filter must compute.  Analysed, never executed."""
import numpy as np
from scipy.spatial.distance import cdist, pdist, squareform


def far(a, b):
    return cdist([a], [b]).item()


def thinned(x, y, good, kind, near):
    """an instance close to an earlier kept one is dropped (or kept and flagged) according to `kind`"""
    n, na = y.shape
    dropped = np.zeros(n, dtype=bool)
    distinct = np.ones(n, dtype=bool)
    flagged = np.zeros(n, dtype=bool)
    reach = near * np.sqrt(na / x.shape[1])
    for i in range(n):
        if not dropped[i]:
            for j in range(i + 1, n):
                if not dropped[j] and far(x[i], x[j]) <= near:
                    distinct[j] = False
                    if kind == "Ftr":
                        dropped[j] = True
                    else:
                        alike = far(y[i], y[j]) <= reach
                        both = np.all(good[i] & good[j])
                        if kind == "Ftr&AP":
                            same = alike
                        elif kind == "Ftr&Good":
                            same = both
                        else:
                            same = alike and both
                        dropped[j] = same
                        flagged[j] = not same
    return dropped, distinct, flagged


def evenness(x, dropped):
    d = squareform(pdist(x[~dropped]))
    np.fill_diagonal(d, np.nan)
    nearest = np.nanmin(d, axis=0)
    return 1 - np.std(nearest, ddof=1) / np.mean(nearest)


def filtered(x, y, good, kind, near):
    dropped, distinct, flagged = thinned(x, y, good, kind, near)
    return dropped, distinct, flagged, evenness(x, dropped)
