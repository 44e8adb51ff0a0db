"""What the prediction models stage must report.  Analysed, never executed."""
import numpy as np
import pandas as pd
from scipy import stats
from sklearn.metrics import accuracy_score, confusion_matrix, precision_score, recall_score
from sklearn.model_selection import RandomizedSearchCV, StratifiedKFold, cross_val_predict
from sklearn.svm import SVC
from skopt import BayesSearchCV


def drawn(rng):
    """hyper-parameters spread over 2^-10 .. 2^4"""
    u = stats.qmc.LatinHypercube(d=2, seed=rng).random(30)
    return {"C": list(2 ** (14 * u[:, 0] - 10)), "gamma": list(2 ** (14 * u[:, 1] - 10))}


def trained(z, good, weight, folds, options, parallel, space):
    jobs = 1
    if parallel.flag:
        jobs = parallel.n_cores
    machine = SVC(kernel="poly" if options.is_poly_krnl else "rbf", random_state=0, probability=True, degree=2, coef0=1)
    if options.use_grid_search:
        search = RandomizedSearchCV(estimator=machine, n_iter=30, param_distributions=space, cv=folds, verbose=0, random_state=0, n_jobs=jobs)
    else:
        search = BayesSearchCV(estimator=machine, n_iter=30, search_spaces=space, cv=folds, verbose=0, random_state=0, n_jobs=jobs)
    search.fit(z, good, sample_weight=weight)
    return search


def weights(y, options):
    """how much is at stake in each classification"""
    if not options.use_weights:
        return np.ones(y.shape, dtype=int)
    w = np.abs(y - np.nanmean(y))
    w[w == 0] = np.min(w[w != 0])
    w[np.isnan(w)] = np.max(w[~np.isnan(w)])
    return w


def choice(y_hat, y_bin, precision, nalgos):
    """the algorithm predicted good whose model is the most precise; none: -1, or the algorithm good most often"""
    if nalgos > 1:
        score = y_hat * np.array(precision)
        sel = np.argmax(score, axis=1)
        best = np.max(score, axis=1)
    else:
        best = y_hat[:, 0]
        sel = np.zeros(y_hat.shape[0], dtype=int)
    fallback = np.argmax(np.mean(y_bin, axis=0))
    return np.where(best <= 0, -1, sel), np.where(best <= 0, fallback, sel)


def run(inputs, from_cv):
    o = inputs.pythia_options
    good, y = inputs.y_bin, inputs.y_raw
    ninst, nalgos = good.shape
    given = o.params is not None and o.params.shape == (nalgos, 2)
    folds = StratifiedKFold(n_splits=o.cv_folds, shuffle=True, random_state=0)
    rng = np.random.default_rng(seed=0)
    w = weights(y, o)
    norm = stats.zscore(inputs.z, ddof=1)
    svm = []
    c, g = [], []
    acc, prec, rec = [], [], []
    y_sub = np.zeros((ninst, nalgos), dtype=bool)
    y_hat = np.zeros((ninst, nalgos), dtype=bool)
    p_sub = np.zeros((ninst, nalgos))
    p_hat = np.zeros((ninst, nalgos))
    cv = np.zeros((nalgos, 4), dtype=int)
    for i in range(nalgos):
        if given:
            space = {"C": o.params[i][0], "gamma": o.params[i][1]}
        else:
            space = drawn(rng)
        search = trained(norm, good[:, i], w[:, i].flatten(), folds, o, inputs.parallel_options, space)
        best = search.best_estimator_
        y_sub[:, [i]] = cross_val_predict(best, norm, good[:, i], cv=folds, method="predict").reshape(-1, 1)
        p_sub[:, [i]] = cross_val_predict(best, norm, good[:, i], cv=folds, method="predict_proba")[:, 1].reshape(-1, 1)
        y_hat[:, [i]] = best.predict(norm).reshape(-1, 1)
        p_hat[:, [i]] = best.predict_proba(norm)[:, 1].reshape(-1, 1)
        cv[i, :] = confusion_matrix(good[:, i], cross_val_predict(best, norm, good[:, i], cv=folds, method="predict")).ravel()
        judged = cross_val_predict(best, norm, good[:, i], cv=folds, method="predict") if from_cv else best.predict(norm)
        acc.append(accuracy_score(good[:, i], judged))
        prec.append(precision_score(good[:, i], judged))
        rec.append(recall_score(good[:, i], judged))
        svm.append(best)
        c.append(search.best_params_["C"])
        g.append(search.best_params_["gamma"])
    sel0, sel1 = choice(y_hat, good, prec, nalgos)
    return {"mu": np.mean(inputs.z, axis=0), "sigma": np.std(inputs.z, ddof=1, axis=0), "w": w, "cp": folds, "svm": svm, "cvcmat": cv,
            "y_sub": y_sub, "y_hat": y_hat, "pr0_sub": p_sub, "pr0_hat": p_hat, "box_consnt": c, "k_scale": g,
            "accuracy": acc, "precision": prec, "recall": rec, "selection0": sel0, "selection1": sel1,
            "pythia_summary": table(inputs, sel0, sel1, y_hat, acc, prec, rec, c, g)}


def table(inputs, sel0, sel1, y_hat, acc, prec, rec, c, g):
    y, good = inputs.y_raw, inputs.y_bin
    nalgos = good.shape[1]
    chosen = sel0[:, np.newaxis] == np.arange(nalgos)
    kept = sel1[:, np.newaxis] == np.arange(nalgos)
    by_choice = np.where(chosen, y, np.nan)
    by_kept = np.where(kept, y, np.nan)
    by_model = np.where(y_hat, y, np.nan)
    hits = np.mean(np.any(np.logical_and(good, kept), axis=1))
    flat, cflat = good.flatten(), chosen.flatten()
    data = {
        "Algorithms": [*inputs.algo_labels, "Oracle", "Selector"],
        "Avg_Perf_all_instances": np.round(np.append(np.round(np.nanmean(y, axis=0), 3), [np.nanmean(inputs.y_best), np.nanmean(by_kept)]), 3),
        "Std_Perf_all_instances": np.round(np.append(np.round(np.nanstd(y, axis=0), 3), [np.nanstd(inputs.y_best), np.nanstd(by_kept)]), 3),
        "Probability_of_good": np.round(np.append(np.nanmean(good, axis=0), [1, hits]), 3),
        "Avg_Perf_selected_instances": np.round(np.append(np.nanmean(by_model, axis=0), np.array([np.nan, np.nanmean(by_choice)])), 3),
        "Std_Perf_selected_instances": np.round(np.append(np.nanstd(by_model, axis=0), np.array([np.nan, np.nanstd(by_choice)])), 3),
        "CV_model_accuracy": np.round(100 * np.append(acc, [np.nan, np.nan]), 3),
        "CV_model_precision": np.round(100 * np.append(prec, [np.nan, precision_score(flat, cflat)]), 3),
        "CV_model_recall": np.round(100 * np.append(rec, [np.nan, recall_score(flat, cflat)]), 3),
        "BoxConstraint": np.round(np.append(c, [np.nan, np.nan]), 3),
        "KernelScale": np.round(np.append(g, [np.nan, np.nan]), 3),
    }
    return pd.DataFrame(data).replace({np.nan: ""})


def models(inputs):
    return run(inputs, True)


def models_in_sample(inputs):
    """known finding: the scores named after cross-validation are those of the training data"""
    return run(inputs, False)
