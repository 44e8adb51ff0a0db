"""What the preliminary stage must deliver, written as definitions.  Analysed, never executed."""
import numpy as np
from pathlib import Path
from scipy import optimize, stats
from sklearn.model_selection import train_test_split

from instancespace.data.model import DataDense
from instancespace.utils.filter import do_filter


def performance(inputs):
    """good/best/tie/difficulty, from the raw performance with missing values ignored"""
    o = inputs.prelim_options
    y = inputs.y
    eps = np.finfo(float).eps
    if o.max_perf:
        seen = np.where(np.isnan(y), -np.inf, y)
        best = np.max(seen, axis=1)
        first = np.argmax(seen, axis=1) + 1
        if o.abs_perf:
            y_best = best
            good = seen >= o.epsilon
            rel = y
        else:
            y_best = np.where(best == 0, eps, best)
            good = 1 - seen / y_best[:, np.newaxis] <= o.epsilon
            rel = 1 - np.where(y == 0, eps, y) / y_best[:, np.newaxis]
    else:
        seen = np.where(np.isnan(y), np.inf, y)
        best = np.min(seen, axis=1)
        first = np.argmin(seen, axis=1) + 1
        if o.abs_perf:
            y_best = best
            good = seen <= o.epsilon
            rel = y
        else:
            y_best = np.where(best == 0, eps, best)
            good = 1 - y_best[:, np.newaxis] / seen <= o.epsilon
            rel = 1 - y_best[:, np.newaxis] / np.where(y == 0, eps, y)
    ties = y == y_best[:, np.newaxis]
    p = np.array([np.flatnonzero(ties[i])[0] + 1 if np.sum(ties[i]) > 1 else first[i] for i in range(y.shape[0])])
    count = np.sum(good, axis=1)
    hard = count > o.beta_threshold * y.shape[1]
    return {"y_bin": good, "y_best": y_best, "p": p, "num_good_algos": count, "beta": hard, "y": rel}


def bounds(inputs):
    med = np.nanmedian(inputs.x, axis=0)
    iqr = stats.iqr(inputs.x, axis=0, interpolation="midpoint", nan_policy="omit")
    return {"med_val": med, "iq_range": iqr, "hi_bound": med + 5 * iqr, "lo_bound": med - 5 * iqr}


def bounded_mask(inputs):
    x = inputs.x
    if not inputs.prelim_options.bound:
        return x
    b = bounds(inputs)
    above = x > b["hi_bound"]
    below = x < b["lo_bound"]
    return x * ~(above | below) + above * b["hi_bound"] + below * b["lo_bound"]


def bounded_where(inputs):
    x = inputs.x
    if not inputs.prelim_options.bound:
        return x
    b = bounds(inputs)
    return np.where(x > b["hi_bound"], b["hi_bound"], np.where(x < b["lo_bound"], b["lo_bound"], x))


def bounded_where2(inputs):
    x = inputs.x
    if not inputs.prelim_options.bound:
        return x
    b = bounds(inputs)
    return np.where(x < b["lo_bound"], b["lo_bound"], np.where(x > b["hi_bound"], b["hi_bound"], x))


def bounded_clip(inputs):
    x = inputs.x
    if not inputs.prelim_options.bound:
        return x
    b = bounds(inputs)
    return np.clip(x, b["lo_bound"], b["hi_bound"])


def llf(lmbda, data):
    r = stats.boxcox_llf(lmbda, data)
    if isinstance(r, list | np.ndarray):
        return -float(r[0])
    return -float(r)


def column(v):
    """one column: fitted on its present values, missing ones left alone"""
    keep = ~np.isnan(v)
    lam = optimize.fmin(lambda l: llf(l, v[keep]), 0, disp=False)
    t = stats.boxcox(v[keep], lam)
    out = v.copy()
    out[keep] = stats.zscore(t, ddof=1)
    return out, lam[0], np.mean(t), np.std(t, ddof=1)


def table(m):
    n = m.shape[1]
    lam = np.zeros(n)
    mu = np.zeros(n)
    sd = np.zeros(n)
    out = m.copy()
    for j in range(n):
        out[:, j], lam[j], mu[j], sd[j] = column(m[:, j])
    return out, lam, mu, sd


def scaled_from(inputs, x):
    y = performance(inputs)["y"]
    min_x = np.nanmin(x, axis=0)
    min_y = np.nanmin(y)
    nf, na = x.shape[1], y.shape[1]
    if inputs.prelim_options.norm:
        x, lx, mx, sx = table(x - min_x + 1)
        y, ly, my, sy = table(y - min_y + np.finfo(float).eps)
    else:
        lx, mx, sx = np.zeros(nf), np.zeros(nf), np.zeros(nf)
        ly, my, sy = np.zeros(na), np.zeros(na), np.zeros(na)
    return {"x": x, "y": y, "min_x": min_x, "lambda_x": lx, "mu_x": mx, "sigma_x": sx,
            "min_y": min_y, "lambda_y": ly, "mu_y": my, "sigma_y": sy}


def scaled(inputs):
    return scaled_from(inputs, bounded_mask(inputs))


def scaled_where(inputs):
    return scaled_from(inputs, bounded_where(inputs))


def scaled_where2(inputs):
    return scaled_from(inputs, bounded_where2(inputs))


def scaled_clip(inputs):
    return scaled_from(inputs, bounded_clip(inputs))


def kept(inputs, r):
    """which instances the options select; None for all"""
    o = inputs.selvars_options
    n = inputs.x.shape[0]
    mask = np.zeros(n, dtype=bool)
    if o.small_scale_flag and isinstance(o.small_scale, float):
        chosen = train_test_split(np.arange(n), test_size=o.small_scale, random_state=0)[1]
        mask[chosen] = True
        return mask, "fraction"
    if o.file_idx_flag and Path(o.file_idx).is_file():
        pos = np.genfromtxt(o.file_idx, delimiter=",", dtype=int)
        pos = pos[(pos >= 1) & (pos <= n)] - 1
        mask[pos] = True
        return mask, "file"
    if o.density_flag and isinstance(o.min_distance, float) and isinstance(o.selvars_type, str):
        out, _, _, _ = do_filter(r["x"], r["y"], r["y_bin"], o.selvars_type, o.min_distance)
        return ~out, "density"
    return mask, None


def selected(inputs):
    """one selection applied to every per-instance output"""
    r = scaled(inputs)
    perf = performance(inputs)
    for k in ("y_bin", "y_best", "p", "num_good_algos", "beta"):
        r[k] = perf[k]
    r["x_raw"], r["y_raw"], r["inst_labels"], r["s"] = inputs.x_raw, inputs.y_raw, inputs.inst_labels, inputs.s
    r["data_dense"] = None
    m, how = kept(inputs, r)
    if how is None:
        return r
    o = inputs.selvars_options
    if o.density_flag and isinstance(o.min_distance, float) and isinstance(o.selvars_type, str):
        r["data_dense"] = DataDense(inst_labels=r["inst_labels"], x=r["x"], y=r["y"], x_raw=r["x_raw"], y_raw=r["y_raw"], y_bin=r["y_bin"],
                                    y_best=r["y_best"], p=r["p"], num_good_algos=r["num_good_algos"], beta=r["beta"], s=r["s"])
    for k in ("x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta", "inst_labels"):
        r[k] = r[k][m]
    if r["s"] is not None:
        r["s"] = r["s"][m]
    return r


def unchanged(inputs):
    return {"x_raw": inputs.x_raw, "y_raw": inputs.y_raw, "inst_labels": inputs.inst_labels, "s": inputs.s, "data_dense": None}
