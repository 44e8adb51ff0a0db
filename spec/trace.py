"""What the footprint analysis must compute.  Analysed, never executed."""
import alphashape
import numpy as np
import pandas as pd
from instancespace.data.model import Footprint
from scipy.special import gamma
from shapely.geometry import MultiPoint, MultiPolygon, Polygon
from shapely.ops import triangulate, unary_union


def footprint(z, points, purity):
    """stands for the footprint of the marked points (modelled opaque; defined by `built`)"""
    return built(z, points, purity)


def disputed(z, base, test, y_base, y_test, purity):
    """stands for the two footprints without their contradictions (modelled opaque; defined by `resolved`)"""
    return resolved(z, base, test, y_base, y_test, purity)


def nothing():
    return Footprint(None, 0, 0, 0, 0, 0)


def figures(fp, area, density):
    """area, density (each also relative to the whole space) and purity; what is missing counts as 0"""
    a = 0 if fp.area is None else fp.area
    d = 0 if fp.density is None else fp.density
    ra = float(a / area) if area is not None and area != 0 else float(a)
    rd = float(d / density) if density is not None and density != 0 else float(fp.density)
    return [0 if v is None or np.isnan(v) else v for v in [a, ra, d, rd, float(fp.purity)]]


COLUMNS = ["Area_Good", "Area_Good_Normalised", "Density_Good", "Density_Good_Normalised", "Purity_Good",
           "Area_Best", "Area_Best_Normalised", "Density_Best", "Density_Best_Normalised", "Purity_Best"]


def analysed(z, good_at, winner, first, beta, labels, purity):
    """good_at: which algorithms are good at an instance; winner: the best algorithm, numbered from `first`"""
    nalgos = good_at.shape[1]
    space = footprint(z, np.ones(good_at.shape[0], dtype=bool), purity)
    good = [footprint(z, good_at[:, i], purity) for i in range(nalgos)]
    best = [footprint(z, winner == i + first, purity) for i in range(nalgos)]
    for i in range(nalgos):
        for j in range(i + 1, nalgos):
            best[i], best[j] = disputed(z, best[i], best[j], winner == i + first, winner == j + first, purity)
    rows = [figures(good[i], space.area, space.density) + figures(best[i], space.area, space.density) for i in range(len(labels))]
    table = pd.concat([pd.DataFrame(labels, columns=["Algorithm"]), pd.DataFrame(rows, columns=COLUMNS)], axis=1)
    return {"space": space, "good": good, "best": best, "hard": footprint(z, ~beta, purity), "trace_summary": table}


def analysis(inputs):
    o = inputs.trace_options
    if o.use_sim:
        return analysed(inputs.z, inputs.y_hat, inputs.selection0, 0, inputs.beta, inputs.algo_labels, o.purity)
    # PRELIM numbers the best algorithm from 1
    return analysed(inputs.z, inputs.y_bin, inputs.p, 1, inputs.beta, inputs.algo_labels, o.purity)


def analysis_off_by_one(inputs):
    """known finding: the experimental winner is read as if numbered from 0"""
    o = inputs.trace_options
    if o.use_sim:
        return analysed(inputs.z, inputs.y_hat, inputs.selection0, 0, inputs.beta, inputs.algo_labels, o.purity)
    return analysed(inputs.z, inputs.y_bin, inputs.p, 0, inputs.beta, inputs.algo_labels, o.purity)


# ------------------------------------------------------------------ one footprint

def fitted(z, data, points, purity):
    """stands for the shape around some points (modelled opaque; defined by `shape_of`)"""
    return shape_of(z, data, points, purity)


def clustered(data, k, eps):
    """stands for the clusters of the points (modelled opaque)"""
    return None


def spread(x, k):
    """neighbourhood radius expected for k neighbours among evenly spread points"""
    m, n = x.shape
    volume = np.prod(np.max(x, axis=0) - np.min(x, axis=0))
    return float((volume * k * gamma(0.5 * n + 1) / (m * np.sqrt(np.pi**n))) ** (1.0 / n))


def built(z, points, purity):
    rows = np.unique(z[points], axis=0)
    if rows.shape[0] < 3:
        return nothing()
    k = max(min(np.ceil(np.sum(points) / 20), 50), 3)
    label = clustered(rows, k, spread(rows, k))
    body = Polygon()
    started = False
    for i in range(1, int(np.max(label)) + 1):
        part = fitted(z, rows[label == i], points, purity)
        if part:
            if started:
                body = body.union(part)
            else:
                body = part
                started = True
    return measured(body, z, points, True)


def count_in(shape, pts):
    return np.sum([shape.contains(q) for q in MultiPoint(pts).geoms])


def measured(body, z, points, smooth=False):
    """a footprint counts all points it contains, and among them the marked ones"""
    if body is None:
        return nothing()
    if smooth:
        body = body.buffer(0.01).buffer(-0.01)
    inside = count_in(body, z)
    hits = count_in(body, z[points])
    return Footprint(polygon=body, area=body.area, elements=inside, good_elements=hits,
                     density=inside / body.area if body.area != 0 else 0, purity=hits / inside if inside != 0 else 0)


def shape_of(z, data, points, purity):
    """the alpha shape without the triangles that hold too few marked points"""
    if data.shape[0] < 3:
        return None
    shape = alphashape.alphashape(data, 2.15).simplify(0.05)
    if np.all(points):
        return shape
    if shape.is_empty:
        return None
    for piece in triangulate(shape):
        every = count_in(piece.convex_hull, z)
        if every > 0 and count_in(piece.convex_hull, z[points]) / every < purity:
            shape = shape.difference(piece)
    return shape


# ------------------------------------------------------------------ contradictions

def tightened(z, shape, points, purity):
    """stands for refitting what is left of a footprint (modelled opaque; defined by `refitted`)"""
    return refitted(z, shape, points, purity)


def refitted(z, shape, points, purity):
    if shape is None:
        return None
    parts = [g for g in shape.geoms] if isinstance(shape, MultiPolygon) else [shape]
    out = []
    for g in parts:
        inside = np.array([g.contains(q) for q in MultiPoint(z).geoms], dtype=bool)
        data = np.unique(z[np.logical_and(inside, points)], axis=0)
        if data.shape[0] < 3:
            continue
        s = fitted(z, data, points, purity)
        if s:
            out.append(s)
    return unary_union(out) if len(out) > 0 else None


def resolved(z, base, test, y_base, y_test, purity):
    """the less pure footprint gives up the common area, until there is none or both are equally pure, at most three times"""
    if base.polygon is None or test.polygon is None:
        return base, test
    b, t = base.polygon, test.polygon
    common = b.intersection(t)
    tries = 1
    while not common.is_empty and tries <= 3:
        n = count_in(common, z)
        pb = count_in(common, z[y_base]) / n
        pt = count_in(common, z[y_test]) / n
        if pb > pt:
            t = t.difference(common)
            if tries < 3:
                t = tightened(z, t, y_test, purity) or Polygon()
        elif pt > pb:
            b = b.difference(common)
            if tries < 3:
                b = tightened(z, b, y_base, purity) or Polygon()
        else:
            break
        if b.is_empty or t.is_empty:
            break
        common = b.intersection(t)
        tries += 1
    return measured(b, z, y_base), measured(t, z, y_test)


# ------------------------------------------------------------------ clusters

def away(p, x):
    m, n = x.shape
    return float(np.abs(x - p).flatten()) if n == 1 else np.sqrt(np.sum((x - p) ** 2, axis=1))


def clusters(x, k, eps):
    """density-based clusters numbered from 1; noise -1"""
    m, n = x.shape
    if eps is None:
        eps = spread(x, k)
    rows = np.hstack((np.arange(m).reshape(m, 1), x))
    seen = np.zeros(m)
    label = np.zeros(m)
    no = 1
    for i in range(m):
        if seen[i] == 0:
            near = np.where(away(rows[i, 1:], rows[:, 1:]) <= eps)[0]
            if 1 < len(near) < k + 1:
                label[i] = 0
            if len(near) == 1:
                label[i] = -1
                seen[i] = 1
            if len(near) >= k + 1:
                label[near] = no
                todo = list(near)
                while len(todo) > 0:
                    c = todo[0]
                    seen[c] = 1
                    todo.pop(0)
                    around = np.where(away(rows[c, 1:], rows[:, 1:]) <= eps)[0]
                    if len(around) > 1:
                        label[around] = no
                        for j in around:
                            if seen[j] == 0:
                                seen[j] = 1
                                todo.append(j)
                                label[j] = no
                no += 1
    label[np.where(label == 0)[0]] = -1
    return label
