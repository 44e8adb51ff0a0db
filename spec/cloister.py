"""What the boundary estimation must deliver.  Analysed, never executed."""
import numpy as np
from scipy.spatial import ConvexHull, QhullError
from scipy.stats import pearsonr


def correlation(x, threshold):
    """pairwise correlation of the features; insignificant ones and the diagonal count as zero"""
    n = x.shape[1]
    rho = np.zeros((n, n))
    pval = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i == j:
                rho[i, j], pval[i, j] = 0, 1
            else:
                rho[i, j], pval[i, j] = pearsonr(x[:, i], x[:, j])
    return np.where(pval > threshold, 0, rho)


def corners(x):
    """every combination of the smallest and largest value of each feature"""
    n = x.shape[1]
    total = 2 ** n
    lo, hi = np.min(x, axis=0), np.max(x, axis=0)
    bits = np.array([[(c >> j) & 1 for j in range(n)] for c in range(total)])
    edge = np.zeros((total, n))
    for i in range(total):
        edge[i, :] = np.where(bits[i] == 1, hi, lo)
    return edge


def contradicts(rho, limit, u, v):
    return (rho > limit and np.sign(u) != np.sign(v)) or (rho < -limit and np.sign(u) == np.sign(v))


def impossible(edge, rho, limit):
    """corners with two features on the same side of zero although negatively correlated, or on opposite sides although positively"""
    m, n = edge.shape
    out = np.zeros(m, dtype=bool)
    for i in range(m):
        for j in range(n):
            for k in range(j + 1, n):
                if contradicts(rho[j, k], limit, edge[i, j], edge[i, k]):
                    out[i] = True
    return out


def hull(points):
    try:
        return points[ConvexHull(points).vertices, :]
    except QhullError:
        return np.empty((0, 2))
    except ValueError:
        return np.empty((0, 2))


def boundary(inputs):
    o = inputs.cloister_options
    edge = corners(inputs.x)
    drop = impossible(edge, correlation(inputs.x, o.p_val), o.c_thres)
    outer = hull(np.dot(edge, inputs.a.T))
    inner = hull(np.dot(edge[~drop, :], inputs.a.T))
    return {"z_edge": outer, "z_ecorr": outer if inner.size == 0 else inner}


def bit_matrix(nfeats):
    return np.array([[(c >> j) & 1 for j in range(nfeats)] for c in range(2 ** nfeats)])


def parts(x, rho, options):
    edge = corners(x)
    return edge, impossible(edge, rho, options.c_thres)


def rho_of(x, options):
    return correlation(x, options.p_val)
