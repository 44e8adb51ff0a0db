"""What the projection stage must deliver.  Analysed, never executed."""
import numpy as np
import pandas as pd
from scipy import optimize as optim
from scipy.linalg import eig
from scipy.spatial.distance import pdist
from scipy.stats import pearsonr


def table(a, names):
    return pd.DataFrame(["Z_{1}", "Z_{2}"]).join(pd.DataFrame(a, columns=names))


def table_renamed(a, names):
    t = pd.DataFrame(a)
    t = t.rename(columns={t.columns[j]: names[j] for j in range(len(names))})
    return pd.DataFrame(["Z_{1}", "Z_{2}"]).join(t)


def loss(theta, both, n, m):
    """mean squared reconstruction error of the stacked table"""
    a = theta[: 2 * n].reshape(2, n)
    b = theta[2 * n:].reshape(m, 2)
    rebuilt = (b @ a @ both[:, :n].T).T
    return float(np.nanmean(np.nanmean((both - rebuilt) ** 2, axis=1), axis=0))


def fit(both, approx):
    m = both.shape[1]
    return np.sum((both - approx) ** 2), np.diag(np.corrcoef(both, approx, rowvar=False)[:m, m:]) ** 2


def analytic(inputs, both, n, m):
    w, v = eig(np.dot(both.T, both))
    top = np.argsort(np.abs(w))[::-1][:2]
    v = -1 * v[:, top]
    b, c = v[:n, :], v[n:m, :].T
    x = inputs.x
    a = v.T @ both.T @ (x @ np.linalg.inv(x.T @ x))
    z = (a @ x.T).T
    approx = np.vstack((np.dot(b, z.T), np.dot(c.T, z.T)))
    err = np.sum((both.T - approx) ** 2)
    r2 = np.diag(np.corrcoef(both, approx.T, rowvar=False)[:m, m:]) ** 2
    return {"X0": None, "alpha": None, "eoptim": None, "perf": None, "a": a, "z": z, "b": b, "c": c, "error": err, "r2": r2.astype(np.float16),
            "pilot_summary": table_renamed(a, inputs.feat_labels)}


def numeric(inputs, both, n, m):
    o = inputs.pilot_options
    x = inputs.x
    size = 2 * m + 2 * n
    x0 = None
    obj = None
    perf = None
    if o.alpha is not None and o.alpha.shape == (size, 1):
        params = o.alpha
        alpha = o.alpha
        best = 0
    else:
        if o.x0 is not None:
            x0 = o.x0
        else:
            x0 = 2 * np.random.default_rng(seed=0).random((size, o.n_tries)) - 1
        tries = o.n_tries
        obj = np.zeros(tries)
        perf = np.zeros(tries)
        params = np.zeros((size, tries))
        for i in range(tries):
            theta, value = optim.fmin_bfgs(loss, x0[:, i], args=(both, n, m), full_output=True, disp=False)[:2]
            params[:, i] = theta
            obj[i] = value
            ai = theta.astype(np.float64)[: 2 * n].reshape(2, n)
            perf[i] = pearsonr(pdist(x).T, pdist(x @ ai.T))[0]
        best = np.argmax(perf)
        params = params.astype(np.float16)
        alpha = params
    a = params[: 2 * n, best].reshape(2, n)
    full = params[2 * n:, best].reshape(m, 2)
    z = x @ a.T
    err, r2 = fit(both, z @ full.T)
    return {"X0": x0, "alpha": alpha, "eoptim": obj, "perf": perf, "a": a, "z": z, "b": full[:n], "c": full[n:m].T, "error": err, "r2": r2,
            "pilot_summary": table(a, inputs.feat_labels)}


def projection(inputs):
    both = np.concatenate((inputs.x, inputs.y), axis=1)
    n, m = inputs.x.shape[1], both.shape[1]
    if inputs.pilot_options.analytic:
        return analytic(inputs, both, n, m)
    return numeric(inputs, both, n, m)
