"""What feature selection must deliver.  Analysed, never executed."""
import numpy as np
import pygad
from scipy.stats import pearsonr
from sklearn.cluster import KMeans
from sklearn.metrics import silhouette_score
from sklearn.model_selection import KFold, cross_val_score
from sklearn.neighbors import KNeighborsClassifier

from instancespace.data.options import PilotOptions
from instancespace.stages.pilot import PilotStage
from instancespace.stages.sifted import NotEnoughFeatureError
from instancespace.utils.filter import do_filter

ROWS = ("y", "y_bin", "x_raw", "y_raw", "beta", "num_good_algos", "y_best", "p", "inst_labels", "s")


def correlations(x, y):
    """correlation of every feature with every algorithm over the instances where both are present; insignificant ones count as zero"""
    nf, na = x.shape[1], y.shape[1]
    rho = np.zeros((nf, na))
    pval = np.zeros((nf, na))
    for i in range(nf):
        for j in range(na):
            present = ~np.isnan(x[:, i]) & ~np.isnan(y[:, j])
            if np.any(present):
                r, q = pearsonr(x[:, i][present], y[:, j][present])
            else:
                r, q = np.nan, np.nan
            rho[i, j] = r
            pval[i, j] = q
    return np.where(np.isnan(rho) | (pval > 0.05), 0, rho), pval


def related(x, rho, threshold):
    """for each algorithm the most correlated feature, and every feature whose absolute correlation reaches the threshold"""
    strength = np.abs(rho)
    order = np.argsort(-strength, axis=0)
    ranked = np.take_along_axis(strength, order, axis=0)
    keep = np.zeros(x.shape[1], dtype=bool)
    keep[order[0, :]] = True
    for i in range(x.shape[1]):
        keep[order[i, ranked[i, :] >= threshold]] = True
    return np.where(keep)[0]


def outcome(inputs, x, sel, rho, pval, sil, clust, rows=None):
    out = {k: getattr(rows, k) if rows is not None else getattr(inputs, k) for k in ROWS}
    out["x"] = x
    out["feat_labels"] = [inputs.feat_labels[i] for i in sel]
    out["selvars"] = sel
    out["idx"] = sel
    out["rho"] = rho
    out["pval"] = pval
    out["silhouette_scores"] = sil
    out["clust"] = clust
    return out


def chosen(clust, genes, k, n):
    keep = np.zeros(n, dtype=bool)
    for i in range(k):
        members = np.where(clust[:, i])[0]
        keep[members[int(genes[i]) % members.size]] = True
    return keep


def cost(instance, solutions, _idx):
    keep = np.zeros(instance.selfx.shape[1], dtype=bool)
    for i, gene in enumerate(solutions):
        members = np.where(instance.clust[:, i])[0]
        keep[members[gene % members.size]] = True
    z = PilotStage.pilot(instance.selfx[:, keep], instance.selfy, instance.selffeat_labels[keep].tolist(), PilotOptions.default(), False).z
    worst = -np.inf
    for j in range(instance.selfy.shape[1]):
        s = cross_val_score(KNeighborsClassifier(n_neighbors=3), z, instance.selfy_bin[:, j].astype(int), cv=instance.cv_partition,
                            scoring="neg_mean_squared_error")
        worst = max(worst, -s.mean())
    return -worst


def search(inputs, x, clust, sel, rng):
    o = inputs.sifted_options
    par = inputs.parallel_options
    folds = KFold(n_splits=5, shuffle=True, random_state=rng.integers(1000))
    ga = pygad.GA(fitness_func=cost, num_generations=o.num_generations, num_parents_mating=o.num_parents_mating, sol_per_pop=o.sol_per_pop,
                  gene_type=int, num_genes=o.k, parent_selection_type=o.parent_selection_type, K_tournament=o.k_tournament,
                  keep_elitism=o.keep_elitism, crossover_type=o.crossover_type, crossover_probability=o.cross_over_probability,
                  mutation_type=o.mutation_type, mutation_probability=o.mutation_probability, stop_criteria=o.stop_criteria,
                  random_seed=int(rng.integers(1000)), init_range_low=1, init_range_high=x.shape[1], save_solutions=True,
                  parallel_processing=["process", par.n_cores] if par.flag else None)
    ga.selfx = x
    ga.selfy = inputs.y
    ga.selfy_bin = inputs.y_bin
    ga.cv_partition = folds
    ga.clust = clust
    ga.selffeat_labels = np.array(inputs.feat_labels)[sel]
    ga.run()
    return ga.best_solution()[0]


def selection(inputs):
    o = inputs.sifted_options
    v = inputs.selvars_options
    nf = inputs.x.shape[1]
    if nf <= 1:
        raise NotEnoughFeatureError("")
    if not o.flag or nf <= 3:
        return outcome(inputs, inputs.x, np.arange(nf), None, None, None, None)
    rng = np.random.default_rng(seed=0)
    rho, pval = correlations(inputs.x, inputs.y)
    sel = related(inputs.x, rho, o.rho)
    x = inputs.x[:, sel]
    n = x.shape[1]
    if n <= 1:
        raise NotEnoughFeatureError("")
    if n <= 3 or n <= o.k:
        return outcome(inputs, x, sel, rho, pval, None, None)
    sil = []
    for i in range(2, n):
        sil.append(silhouette_score(x.T, KMeans(n_clusters=i, n_init="auto", random_state=rng.integers(1000)).fit_predict(x.T), metric="correlation"))
    group = KMeans(n_clusters=o.k, max_iter=o.max_iter, n_init=o.replicates, random_state=rng.integers(1000)).fit_predict(x.T)
    clust = np.zeros((n, o.k), dtype=bool)
    for i in range(o.k):
        clust[:, i] = group == i
    genes = search(inputs, x, clust, sel, rng)
    final = sel[chosen(clust, genes, o.k, n)]
    if v.density_flag and inputs.data_dense is not None:
        d = inputs.data_dense
        drop = do_filter(d.x[:, final], d.y, d.y_bin, v.selvars_type, v.min_distance)[0]
        res = outcome(inputs, d.x[~drop][:, final], final, rho, pval, sil, clust)
        for k in ("y", "y_bin", "x_raw", "y_raw", "beta", "num_good_algos", "y_best", "p", "inst_labels"):
            res[k] = getattr(d, k)[~drop]
        if d.s is not None:
            res["s"] = d.s[~drop]
        return res
    return outcome(inputs, inputs.x[:, final], final, rho, pval, sil, clust)
