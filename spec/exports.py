"""What the exported tables hold.  Analysed, never executed."""
import matplotlib as mpl
import numpy as np
import pandas as pd
from pathlib import Path
from shapely import MultiPolygon, Polygon


def table(out, name, values, columns, rows):
    pd.DataFrame(values, index=rows, columns=columns).to_csv(out / name, index_label="Row")


def points(values):
    return pd.Series([f"bnd_pnt_{k + 1}" for k in range(values.shape[0])])


def outline(shape):
    corners = np.empty((1, 2))
    if isinstance(shape, Polygon):
        corners = np.concatenate((corners, np.array(list(shape.exterior.xy)).T))
    elif isinstance(shape, MultiPolygon):
        for part in shape.geoms:
            corners = np.concatenate((corners, np.array(list(part.exterior.xy)).T))
    return corners[1:-1]


def footprints(out, data, areas, what):
    for k in range(data.y.shape[1]):
        area = areas[k]
        if area is not None and area.polygon is not None:
            corners = outline(area.polygon)
            table(out, f"footprint_{data.algo_labels[k]}_{what}.csv", corners, pd.Series(["z_1", "z_2"]), points(corners))


def to_csv(self, output_directory):
    out = Path(output_directory)
    if not out.is_dir():
        raise ValueError("not a directory")
    data = self.data
    z = pd.Series(["z_1", "z_2"])
    rows, feats, algos = data.inst_labels, pd.Series(data.feat_labels), pd.Series(data.algo_labels)
    footprints(out, data, self.trace.best, "best")
    footprints(out, data, self.trace.good, "good")
    table(out, "coordinates.csv", self.pilot.z, z, rows)
    if self.cloister is not None:
        table(out, "bounds.csv", self.cloister.z_edge, z, points(self.cloister.z_edge))
        table(out, "bounds_prunned.csv", self.cloister.z_ecorr, z, points(self.cloister.z_ecorr))
    table(out, "feature_raw.csv", data.x_raw[:, self.sifted.idx], feats, rows)
    table(out, "feature_process.csv", data.x, feats, rows)
    table(out, "algorithm_raw.csv", data.y_raw, algos, rows)
    table(out, "algorithm_process.csv", data.y, algos, rows)
    table(out, "algorithm_bin.csv", data.y_bin, algos, rows)
    table(out, "good_algos.csv", data.num_good_algos, pd.Series(["NumGoodAlgos"]), rows)
    table(out, "beta_easy.csv", data.beta, pd.Series(["IsBetaEasy"]), rows)
    table(out, "portfolio.csv", data.p, pd.Series(["Best_Algorithm"]), rows)
    table(out, "algorithm_svm.csv", self.pythia.y_hat, algos, rows)
    # algorithms are counted from one, as in portfolio.csv
    table(out, "portfolio_svm.csv", self.pythia.selection0 + 1, pd.Series(["Best_Algorithm"]), rows)
    shares = self.trace.summary.iloc[:, [0, 2, 4, 5, 7, 9, 10]].rename(columns={"Algorithm": "Row"})
    shares.to_csv(out / "footprint_performance.csv", index=False)
    if self.pilot.summary is not None:
        self.pilot.summary.rename(columns={0: "Row"}).to_csv(out / "projection_matrix.csv", index=False)
    self.pythia.summary.rename(columns={"Algorithms": "Row"}).to_csv(out / "svm_table.csv", index=False)


def portfolio_svm_from_zero(self, output_directory):
    to_csv(self, output_directory)
    out = Path(output_directory)
    table(out, "portfolio_svm.csv", self.pythia.selection0, pd.Series(["Best_Algorithm"]), self.data.inst_labels)


def levels(values):
    low = np.min(values, axis=0)
    return np.floor(255 * (values - low) / (np.max(values, axis=0) - low)).astype(int)


def levels_overall(values):
    low = np.min(values)
    return np.round(255 * (values - low) / (np.max(values) - low)).astype(int)


def for_web(self, output_directory):
    out = Path(output_directory)
    if not out.is_dir():
        raise ValueError("not a directory")
    data = self.data
    rows, feats, algos = data.inst_labels, pd.Series(data.feat_labels), pd.Series(data.algo_labels)
    shades = np.array(mpl.colormaps["viridis"].resampled(256).__dict__["colors"])[:, :3]
    pd.DataFrame((shades * 255).astype(int), columns=["R", "G", "B"]).to_csv(out / "color_table.csv", index_label=False)
    table(out, "feature_raw_color.csv", levels(data.x_raw[:, self.feat_sel.idx]), feats, rows)
    table(out, "feature_process_color.csv", levels(data.x), feats, rows)
    table(out, "algorithm_raw_single_color.csv", levels(data.y_raw), algos, rows)
    table(out, "algorithm_process_single_color.csv", levels(data.y), algos, rows)
    table(out, "algorithm_raw_color.csv", levels_overall(data.y_raw), algos, rows)
    table(out, "algorithm_process_color.csv", levels_overall(data.y), algos, rows)
    table(out, "good_algos_color.csv", levels_overall(data.num_good_algos), pd.Series(["NumGoodAlgos"]), rows)
