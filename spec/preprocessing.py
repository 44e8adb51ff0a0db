"""What preprocessing must deliver.  Analysed, never executed."""
import numpy as np


def chosen(names, wanted):
    """positions of the wanted names, in table order; everything when none of them exists"""
    return [i for i, n in enumerate(names) if n in wanted]


def select(inputs):
    x, y = inputs.features, inputs.algorithms
    feats, algos = inputs.feature_names, inputs.algorithm_names
    o = inputs.selvars_options
    if o.feats is not None:
        pos = chosen(feats, o.feats)
        if pos:
            x = x[:, pos]
            feats = [feats[i] for i in pos]
    if o.algos is not None:
        pos = chosen(algos, o.algos)
        if pos:
            y = y[:, pos]
            algos = [algos[i] for i in pos]
    return x, y, feats, algos


def cleaned(inputs):
    x, y, feats, algos = select(inputs)
    keep = ~(np.all(np.isnan(x), axis=1) | np.all(np.isnan(y), axis=1))
    x = x[keep]
    y = y[keep]
    labels = inputs.instance_labels[keep]
    s = inputs.instance_sources
    if s is not None:
        s = s[keep]
    dense = ~(np.mean(np.isnan(x), axis=0) >= 0.2)
    x = x[:, dense]
    feats = [f for f, k in zip(feats, dense) if k]
    return {"x": x, "y": y, "x_raw": x, "y_raw": y, "inst_labels": labels, "s": s, "feat_labels": feats, "algo_labels": algos}
