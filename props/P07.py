from common import *

X, RHO, OPT = symarg("x", None, "NDArray"), symarg("rho", None, "NDArray"), symarg("options", "instancespace.data.options:CloisterOptions", None)


def written_out(n):
    """coordinates and mark of every corner of n features, one by one"""
    def pick(r):
        from terms import const, mk_ix, settled
        edge, drop = (mk_ix(r.term, [const(k)]) for k in (0, 1))
        out = {f"mark of corner {k}": settled(mk_ix(drop, [const(k)])) for k in range(2 ** n)}
        out.update({f"corner {k}, feature {j}": settled(mk_ix(edge, [const(k), const(j)])) for k in range(2 ** n) for j in range(n)})
        return out
    return pick


def check(c):
    d = {"x": ("m", "n"), "rho": ("n", "n")}
    c.equiv("corner enumeration", CLOI + "_decimal_to_binary_matrix", "spec.cloister:bit_matrix", [symarg("nfeats", None, "int")])
    c.equiv("corners", CLOI + "_generate_boundaries", "spec.cloister:parts", [X, RHO, OPT], None, d)
    # the same for two and three features, with the rounds written out
    for n in (2, 3):
        c.equiv(f"corners of {n} features", CLOI + "_generate_boundaries", "spec.cloister:parts", [X, RHO, OPT], None,
                {"x": ("m", n), "rho": (n, n)}, pick=written_out(n))
    c.equiv("feature correlation", CLOI + "_compute_correlation", "spec.cloister:rho_of", [X, OPT], None, d)
    c.equiv("outline", CLOI + "_compute_convex_hull", "spec.cloister:hull", [symarg("points", None, "NDArray")], None, {"points": ("m", "2")})
    c.equiv("boundary", CLOI + "_run", "spec.cloister:boundary", CLOI_ARGS, None, CLOI_DIMS)
