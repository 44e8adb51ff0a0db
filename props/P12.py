from common import *

U = "instancespace.utils.filter:"
A = [symarg("x", None, "NDArray"), symarg("y", None, "NDArray"), symarg("y_bin", None, "NDArray"), symarg("kind", None, "str"), symarg("near", None, "float")]
D2 = {"x": ("N", "F"), "y": ("N", "A"), "y_bin": ("N", "A"), "kind": (), "near": ()}
K = {"kind": ["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]}


def cells(n, *names):
    """the elements of arrays of known length returned together, one by one"""
    def pick(r):
        from terms import const, mk_ix, settled
        ts = [mk_ix(r.term, [const(k)]) for k in range(len(names))]
        return {f"{m}[{k}]": settled(mk_ix(t, [const(k)])) for m, t in zip(names, ts) for k in range(n)}
    return pick


def check(c):
    c.equiv("filter", U + "do_filter", "spec.filter:filtered", A, None, D2, K)
    c.equiv("selection", U + "filter_instance", "spec.filter:thinned", A, None, D2, K)
    # the same for three instances, with the rounds written out
    three = {**D2, "x": (3, "F"), "y": (3, "A"), "y_bin": (3, "A")}
    c.equiv("selection of three", U + "filter_instance", "spec.filter:thinned", A, None, three, K, pick=cells(3, "dropped", "distinct", "flagged"))
