"""What the figures, the MATLAB file and the archive show.  Analysed, never executed."""
import os
import zipfile
from pathlib import Path

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
from scipy.io import savemat
from shapely import MultiPolygon, Polygon


def finish(fig, path):
    fig.savefig(path)
    plt.close(fig)


def coloured(z, values, title, path):
    fig, ax = plt.subplots()
    fig.suptitle(title)
    ax.scatter(z[:, 0], z[:, 1], c=values)
    finish(fig, path)


def yes_no(z, mark, title, path, areas=None, k=0):
    fig, ax = plt.subplots()
    fig.suptitle(title)
    bad, good = mark == 0, mark == 1
    if np.any(bad):
        ax.scatter(z[bad, 0], z[bad, 1], label="BAD")
    if np.any(good):
        ax.scatter(z[good, 0], z[good, 1], label="GOOD")
        if areas is not None:
            shape(ax, areas[k])
    finish(fig, path)


def shape(ax, area):
    if area.polygon is not None:
        if isinstance(area.polygon, Polygon):
            ax.add_patch(mpl.patches.Polygon(area.polygon.exterior.coords))
        elif isinstance(area.polygon, MultiPolygon):
            for part in area.polygon.geoms:
                ax.add_patch(mpl.patches.Polygon(part.exterior.coords))


def choices(z, chosen, labels, title, path, areas=None):
    """chosen: 0 for no algorithm, else the algorithms counted from one"""
    fig, ax = plt.subplots()
    fig.suptitle(title)
    for k in range(len(labels) + 1):
        if np.any(chosen == k):
            ax.scatter(z[chosen == k, 0], z[chosen == k, 1], label="None" if k == 0 else labels[k - 1].replace("_", " "))
            if areas is not None and k > 0:
                shape(ax, areas[k - 1])
    finish(fig, path)


def origins(z, s, path):
    fig, ax = plt.subplots()
    fig.suptitle("Sources")
    for source in reversed(np.unique(s)):
        ax.scatter(z[s == source, 0], z[s == source, 1], label=source)
    finish(fig, path)


def scaled(v):
    return (v - np.min(v, axis=0)) / (np.max(v, axis=0) - np.min(v, axis=0))


def graphs(self, output_directory):
    out = Path(output_directory)
    if not out.is_dir():
        raise ValueError("not a directory")
    data, z, pythia = self.data, self.pilot.z, self.pythia
    labels = np.array(data.algo_labels)
    alone = scaled(data.y_raw)
    logs = np.log10(data.y_raw + 1)
    overall = (logs - np.min(logs)) / (np.max(logs) - np.min(logs))
    predicted = pythia.selection0 + 1
    x = scaled(data.x)
    for k in range(data.x.shape[1]):
        coloured(z, x[:, k], data.feat_labels[k].replace("_", " "), out / f"distribution_feature_{data.feat_labels[k]}.png")
    for k in range(data.y.shape[1]):
        label = data.algo_labels[k]
        title = label.replace("_", " ")
        coloured(z, overall[:, k], title, out / f"distribution_performance_global_normalized_{label}.png")
        coloured(z, alone[:, k], title, out / f"distribution_performance_individual_normalized_{label}.png")
        yes_no(z, data.y_bin[:, k], title, out / f"binary_performance_{label}.png")
        yes_no(z, pythia.y_hat[:, k], title, out / f"binary_svm_{label}.png")
        mark = pythia.y_hat if self.opts.trace.use_sim else data.y_bin
        yes_no(z, mark[:, k], title + " Footprint", out / f"footprint_{label}.png", self.trace.good, k)
    coloured(z, data.num_good_algos / data.y.shape[1], "Percentage of good algorithms", out / "distribution_number_good_algos.png")
    choices(z, data.p, labels, "Best algorithm", out / "distribution_portfolio.png")
    choices(z, predicted, labels, "Predicted best algorithm", out / "distribution_svm_portfolio.png")
    yes_no(z, data.beta, "Beta score", out / "distribution_beta_score.png")
    if data.s is not None:
        origins(z, np.array(data.s), out / "distribution_sources.png")
    choices(z, predicted if self.opts.trace.use_sim else data.p, labels, "Portfolio footprints", out / "footprint_portfolio.png", self.trace.best)


def matlab(self, output_directory):
    savemat(Path(output_directory) / "model.mat", {"data": {"algolabels": np.array(self.data.algo_labels)}})


def archive(self, zip_filename, output_directory):
    out = Path(output_directory)
    with zipfile.ZipFile(out / zip_filename, "w", zipfile.ZIP_DEFLATED) as z:
        for folder, _, names in os.walk(out):
            for name in names:
                if name not in [".gitignore", zip_filename]:
                    z.write(Path(folder) / name, arcname=Path("output") / name)
