"""Canonical meaning of the library calls used by the analysed program.

Different spellings of one operation (method / function, positional / keyword,
alias, default argument written out) become one term.
"""
from __future__ import annotations

from terms import *  # noqa: F403
from values import *  # noqa: F403

BUILTINS = {"print", "len", "range", "enumerate", "zip", "sum", "min", "max", "any", "all", "sorted", "reversed", "list",
            "tuple", "dict", "set", "frozenset", "int", "float", "str", "bool", "round", "abs", "isinstance", "issubclass",
            "hasattr", "getattr", "setattr", "type", "map", "filter", "iter", "next", "id", "open", "repr", "callable",
            "object", "property", "staticmethod", "classmethod", "super", "vars", "dir", "divmod", "pow", "hash",
            "bytes", "complex", "NotImplemented", "slice", "format", "input", "ord", "chr"}

PURE_IGNORED = ("builtins.print", "logging.", "loguru.", "warnings.", "logger.")

REDS = {"sum", "mean", "median", "std", "var", "min", "max", "any", "all", "prod", "argmin", "argmax",
        "nansum", "nanmean", "nanmedian", "nanstd", "nanvar", "nanmin", "nanmax", "nanargmin", "nanargmax", "nanprod"}
RED_ALIAS = {"amin": "min", "amax": "max", "average": "mean"}

ELEM1 = {"isnan": "isnan", "isfinite": "isfinite", "isinf": "isinf", "log": "log", "log2": "log2", "log10": "log10",
         "exp": "exp", "floor": "floor", "ceil": "ceil", "sign": "sign", "sin": "sin", "cos": "cos", "tan": "tan",
         "arctan": "arctan", "rint": "rint", "log1p": "log1p", "deg2rad": "deg2rad", "isneginf": "isneginf", "trunc": "trunc"}

SIGS = {
    "pd.DataFrame": ["data", "index", "columns", "dtype", "copy"],
    "pd.Series": ["data", "index", "dtype", "name", "copy"],
    "pd.concat": ["objs", "axis", "join", "ignore_index"],
    "pd.read_csv": ["filepath_or_buffer", "sep", "delimiter", "header"],
    "stats.zscore": ["a", "axis", "ddof", "nan_policy"],
    "stats.iqr": ["x", "axis", "rng", "scale", "nan_policy", "interpolation"],
    "stats.pearsonr": ["x", "y"],
    "stats.boxcox": ["x", "lmbda"],
    "stats.boxcox_llf": ["lmb", "data"],
    "optimize.fmin": ["func", "x0", "args", "xtol", "ftol", "maxiter", "maxfun", "full_output", "disp"],
    "optimize.minimize": ["fun", "x0", "args", "method", "jac"],
    "np.unique": ["ar", "return_index", "return_inverse", "return_counts", "axis"],
    "np.argsort": ["a", "axis"],
    "np.sort": ["a", "axis"],
    "np.concatenate": ["arrays", "axis"],
    "np.append": ["arr", "values", "axis"],
    "np.vstack": ["tup"], "np.hstack": ["tup"], "np.column_stack": ["tup"],
    "np.percentile": ["a", "q", "axis"], "np.quantile": ["a", "q", "axis"],
    "np.linspace": ["start", "stop", "num"],
    "np.genfromtxt": ["fname", "dtype", "comments", "delimiter"],
    "np.corrcoef": ["x", "y", "rowvar"],
    "np.cov": ["m", "y", "rowvar"],
    "np.diag": ["v", "k"],
    "np.delete": ["arr", "obj", "axis"],
    "np.tile": ["A", "reps"], "np.repeat": ["a", "repeats", "axis"],
    "np.cumsum": ["a", "axis"],
    "np.ravel_multi_index": ["multi_index", "dims"],
    "np.take_along_axis": ["arr", "indices", "axis"],
    "np.clip": ["a", "a_min", "a_max"],
    "np.setdiff1d": ["ar1", "ar2"], "np.isin": ["element", "test_elements"],
    "sklearn.model_selection.train_test_split": None,
    "open": ["file", "mode"],
    "np.random.default_rng": ["seed"],
    "plt.subplots": ["nrows", "ncols"],
    "np.lexsort": ["keys", "axis"],
    "np.linalg.norm": ["x", "ord", "axis", "keepdims"],
    "spatial.cdist": ["XA", "XB", "metric"], "spatial.pdist": ["X", "metric"], "spatial.squareform": ["X"],
    "KFold": ["n_splits"], "StratifiedKFold": ["n_splits"],
    "os.walk": ["top"],
    "zipfile.ZipFile": ["file", "mode", "compression"],
    "KMeans": ["n_clusters"], "KNeighborsClassifier": ["n_neighbors"], "DBSCAN": ["eps"],
    "savemat": ["file_name", "mdict"],
    "json.load": ["fp"], "json.loads": ["s"],
    "StratifiedShuffleSplit": ["n_splits"],
    "accuracy_score": ["y_true", "y_pred"], "precision_score": ["y_true", "y_pred"], "recall_score": ["y_true", "y_pred"],
    "confusion_matrix": ["y_true", "y_pred"], "f1_score": ["y_true", "y_pred"],
    "cross_val_predict": ["estimator", "X", "y"], "cross_val_score": ["estimator", "X", "y"],
    "RandomizedSearchCV": ["estimator", "param_distributions"], "BayesSearchCV": ["estimator", "search_spaces"],
    "GridSearchCV": ["estimator", "param_grid"],
}
DEFAULTS = {
    "np.unique": {"return_index": False, "return_inverse": False, "return_counts": False, "axis": None},
    "np.argsort": {"axis": -1}, "np.sort": {"axis": -1}, "np.concatenate": {"axis": 0}, "pd.concat": {"axis": 0, "ignore_index": False},
    "np.corrcoef": {"rowvar": True}, "np.diag": {"k": 0}, "np.append": {"axis": None}, "np.percentile": {"axis": None},
    "stats.zscore": {"axis": 0, "ddof": 0, "nan_policy": "propagate"}, "stats.iqr": {"axis": None, "nan_policy": "propagate", "interpolation": "linear"},
    "open": {"mode": "r"}, "np.delete": {"axis": None}, "pd.DataFrame": {"index": None, "columns": None, "dtype": None},
    "pd.Series": {"index": None, "dtype": None, "name": None}, "KNeighborsClassifier": {"n_neighbors": 5},
    "plt.subplots": {"nrows": 1, "ncols": 1}, "np.repeat": {"axis": None}, "np.cumsum": {"axis": None},
    "np.linspace": {"num": 50}, "spatial.cdist": {"metric": "euclidean"}, "spatial.pdist": {"metric": "euclidean"},
    "KFold": {"n_splits": 5, "shuffle": False, "random_state": None}, "StratifiedKFold": {"n_splits": 5, "shuffle": False, "random_state": None},
    "np.genfromtxt": {"dtype": None}, "zipfile.ZipFile": {"mode": "r"}, "np.linalg.norm": {"ord": None, "axis": None, "keepdims": False},
}

PATHMAP = {
    "numpy": "np", "pandas": "pd", "matplotlib.pyplot": "plt", "scipy.stats": "stats", "scipy.optimize": "optimize",
    "matplotlib": "mpl", "scipy.linalg": "la", "scipy.spatial.distance": "spatial",
    "sklearn.svm": "", "sklearn.model_selection": "", "sklearn.cluster": "", "sklearn.neighbors": "", "sklearn.metrics": "",
    "skopt": "", "shapely.geometry": "", "shapely.ops": "", "shapely": "", "scipy.spatial": "", "concurrent.futures": "",
    "builtins": "", "pathlib": "", "collections": "", "copy": "", "dataclasses": "", "typing": "", "functools": "",
    "scipy.io": "", "scipy.special": "", "itertools": "", "time": "time", "math": "math", "abc": "", "collections.abc": "",
}


def canon_path(p):
    parts = p.split(".")
    for k in range(len(parts), 0, -1):
        pre = ".".join(parts[:k])
        if pre in PATHMAP:
            rest = parts[k:]
            m = PATHMAP[pre]
            if not rest:
                return m or pre
            return ".".join(([m] if m else []) + rest)
    return p


def kwt(name, t):
    return raw("kw:" + name, (t,))


def mkcall(path, pos, kw):
    """canonical application of a library function"""
    sig = SIGS.get(path)
    kw = dict(kw)
    pos = list(pos)
    if sig:
        for n, a in zip(sig, pos):
            if a.op == "star":
                break
            kw[n] = a
        pos = pos[len(sig):] if not any(a.op == "star" for a in pos) else pos
    d = DEFAULTS.get(path)
    if d:
        for n, v in d.items():
            if n in kw and kw[n] is const(v):
                del kw[n]
    return raw("call:" + path, pos + [kwt(k, kw[k]) for k in sorted(kw)])


def getkw(t, name):
    for a in t.args:
        if a.op == "kw:" + name:
            return a.args[0]
    return None


# ------------------------------------------------------------------- lengths

def mk_len(t):
    if t.op in ("list", "tuple"):
        return const(len(t.args))
    if t.op == "set":
        return const(len(t.args)) if all(is_const(a) or a.op.startswith("cls:") for a in t.args) else raw("len", (t,))
    if t.op == "dict":
        return const(len(t.args) // 2)
    if is_str(t):
        return const(len(t.args[0]))
    if t.op == "lcat":
        s = ZERO
        for a in t.args:
            s = mk_add(s, mk_len(a))
        return s
    if t.op == "map":
        return t.args[0]
    if t.op == "filtermap":
        return mk_red("sum", mk_map(t.args[0], t.args[1]))
    if t.op == "unord":
        return mk_len(t.args[0])
    if t.op == "phi":
        return mk_phi(t.args[0], mk_len(t.args[1]), mk_len(t.args[2]))
    if t.op in ("union", "setmap", "setdiff", "setand"):
        return raw("len", (t,))
    if t.op in ("keys", "items", "values"):
        return dim(t.args[0], 0)
    return dim(t, 0)


def keys_view(t):
    if t.op == "dict":
        return mk_list([t.args[i] for i in range(0, len(t.args), 2)])
    if t.op in ("dstore", "dmerge", "dictmap", "defaultdict") or kind(t) == "dict":
        return raw("keys", (t,))
    return t


# -------------------------------------------------------------------- paths

def is_path(t):
    return t.op == "path" or kind(t) == "path"


def path_join(a, b):
    ap = list(a.args) if a.op == "path" else [a]
    bp = list(b.args) if b.op == "path" else [b]
    return raw("path", ap + bp)


def mk_path(t):
    return t if is_path(t) else raw("path", (t,))


# ------------------------------------------------------------------ shapes

def shape_dims(I, v):
    if isinstance(v, TupV):
        return [I.term(x) for x in v.items]
    t = I.term(v)
    if t.op in ("tuple", "list"):
        return list(t.args)
    if t.op == "shape?":
        d = dims(t.args[0])
        return list(d) if d is not None else None
    if kind(t) == "int" or rank(t) == 0:
        return [t]
    return None


def alloc_zeros(I, v, what, kd="num"):
    ds = shape_dims(I, v)
    if ds is None:
        return raw("call:np." + {"0": "zeros", "e": "empty"}[what], (I.term(v),))
    return raw("zeros", (const(kd), const(what), raw("shape", tuple(ds))))


def dtype_kind(t):
    if t is None:
        return "num"
    if t.op.startswith("ext:"):
        n = t.op[4:]
        if n in ("bool", "np.bool_", "np.bool"):
            return "bool"
        if n in ("int", "np.int_", "np.int64", "np.int32", "np.intp"):
            return "int"
        if n in ("object", "np.object_", "str", "np.str_"):
            return "obj"
        return "num"
    if is_str(t):
        v = t.args[0]
        return "bool" if v == "bool" else "int" if v.startswith("int") else "obj" if v in ("object", "str") else "num"
    return "num"


def cast(t, k):
    if k == "bool":
        return t if kind(t) == "bool" else raw("cast:bool", (t,))
    if k == "int":
        if t.op == "ix" and t.args[0].op == "call:np.binary_repr" and len(t.args[1].args) == 1 and dims(t.args[0]):
            return mk_bit(t.args[0].args[0], mk_sub(mk_sub(dims(t.args[0])[0], ONE), t.args[1].args[0]))
        return t if kind(t) in ("int", "bool") else raw("cast:int", (t,))
    return t


# ------------------------------------------------------------- reductions

def formatted(text, pos, kw):
    """str.format with a literal template"""
    import string
    parts, k = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                x, k = pos[k], k + 1
            elif field.isdigit():
                x = pos[int(field)]
            elif field in kw:
                x = kw[field]
            else:
                return None
            if spec or conv not in (None, "s"):
                parts.append(raw("fmt", (x, const(spec or ""), const(ord(conv) if conv else -1))))
            else:
                parts.append(mk_caststr(x))
    except (ValueError, IndexError):
        return None
    return mk_scat(parts) if parts else const("")


def percent(text, args):
    """printf-style formatting with a literal template of %s and %d"""
    import re
    bits = re.split(r"(%[sd%])", text)
    if any("%" in b for b in bits[::2]):
        return None
    n = sum(1 for b in bits[1::2] if b != "%%")
    xs = list(args.args) if args.op == "tuple" else [args]
    if len(xs) != n or args.op not in ("tuple",) and kind(args) is None and not is_scalar(args):
        return None
    parts = []
    for b in bits:
        if b in ("%s", "%d"):
            x = xs.pop(0)
            if b == "%d" and kind(x) not in ("int",):
                return None
            parts.append(mk_caststr(x))
        elif b:
            parts.append(const("%" if b == "%%" else b))
    return mk_scat(parts) if parts else const("")


def with_columns(t, labels):
    """the frame t, made from bare data, with these column labels"""
    if t.op == "call:pd.DataFrame" and all(a.op in ("kw:data", "kw:index") for a in t.args):
        return raw("call:pd.DataFrame", sorted(list(t.args) + [kwt("columns", labels)], key=lambda a: a.op))
    return None


def relabelled(t, name, pos, kw):
    """renaming every default label of a frame is the frame with those labels"""
    if name == "set_axis" and len(pos) == 1 and kw.get("axis") in (ONE, const("columns")) and set(kw) <= {"axis", "copy"}:
        return with_columns(t, pos[0])
    if name != "rename" or pos or set(kw) - {"columns", "copy"} or kw.get("columns") is None or t.op != "call:pd.DataFrame":
        return None
    m = kw["columns"]
    if m.op != "dictmap" or m.args[0] is not raw("dict", ()):
        return None
    v = fresh("#i", kind="int", dims=(), nonneg=True)
    c, k, x = (open_lam(l, v) for l in m.args[2:5])
    data = next((a.args[0] for a in t.args if a.op == "kw:data"), None)
    if c is not TRUE or data is None or dim(data, 1) is not m.args[1]:
        return None
    if k is not v and not (k.op == "ix" and len(k.args[1].args) == 1 and k.args[1].args[0] is v and k.args[0] is raw("attr:columns", (t,))):
        return None
    return with_columns(t, mk_map(m.args[1], close(v, x)))


def red(I, name, x, axis=None, keepdims=None, extra=None):
    name = RED_ALIAS.get(name, name)
    ax = NONE if axis is None else axis
    if x.op == "filtermap" and ax in (NONE, ZERO):
        n, lc, le = x.args
        v = fresh("#i")
        c, e = open_lam(lc, v), open_lam(le, v)
        if name == "any":
            return mk_red("any", mk_map(n, close(v, mk_and([c, as_bool(e)]))))
        if name == "all":
            return mk_red("all", mk_map(n, close(v, mk_or([mk_not(c), as_bool(e)]))))
        if name == "sum":
            return mk_red("sum", mk_map(n, close(v, c if e is ONE else mk_phi(c, e, ZERO))))
    ex = []
    for k, val in sorted((extra or {}).items()):
        if k == "ddof" and val is ZERO:
            continue
        if k in ("dtype", "out"):
            continue
        ex.append(kwt(k, val))
    if name in ("any", "all") and x.op == "map" and x.args[1].op == "lam":
        x = mk_map(x.args[0], lam_map(x.args[1], lambda b: as_bool(b) if rank(b) == 0 or kind(b) is None and dims(b) is None and False else b))
    if ax.op == "tuple":
        r = rank(x)
        if r is not None and len(ax.args) == r:
            ax = NONE
    r = mk_red(name, x, ax, *ex)
    if keepdims is TRUE:
        R = rank(x)
        if R is not None and ax is not NONE and is_int(ax):
            a = ax.args[0] % R
            r = mk_ix(r, [FULL] * a + [NEWAX])
        else:
            r = raw("keepdims", (r,))
    return r


def parse_red(I, name, pos, kw):
    x = pos[0] if pos else kw.pop("a", kw.pop("x", None))
    if x is None:
        return None
    axis = pos[1] if len(pos) > 1 else kw.pop("axis", None)
    kd = kw.pop("keepdims", None)
    return red(I, name, x, axis, kd, kw)


# ---------------------------------------------------------------- ext calls

def call_ext(I, path, args, kwargs):
    p = path
    # ignored effects
    if p == "print" or p.startswith(("logging.", "loguru.", "warnings.")):
        return NONE
    h = SPECIAL.get(p)
    if h is not None:
        r = h(I, args, kwargs)
        if r is not NotImplemented:
            return r if isinstance(r, Value) else I.box(r)
    pos = [I.term(a) for a in args]
    kw = {k: I.term(v) for k, v in kwargs.items()}
    if p.startswith(("np.", "math.")):
        n = p.split(".", 1)[1]
        r = np_func(I, n, pos, kw, args, kwargs)
        if r is not None:
            return r if isinstance(r, Value) else I.box(r)
    t = mkcall(p, pos, kw)
    I.extcalls.append(t)
    return I.box(t)


def np_func(I, n, pos, kw, args, kwargs):
    n2 = RED_ALIAS.get(n, n)
    if n2 in REDS:
        return parse_red(I, n2, pos, dict(kw))
    if n in ELEM1:
        return raw("el:" + ELEM1[n], (pos[0],)) if not is_num(pos[0]) or n not in ("isnan",) else FALSE
    if n in ("logical_and", "logical_or") and len(pos) == 2 and not kw:
        return (mk_and if n == "logical_and" else mk_or)(pos[:2])
    two = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
           "mod": "Mod", "remainder": "Mod", "floor_divide": "FloorDiv", "matmul": "MatMult",
           "logical_and": "BitAnd", "logical_or": "BitOr", "bitwise_and": "BitAnd", "right_shift": "RShift", "left_shift": "LShift", "bitwise_or": "BitOr",
           "logical_xor": "BitXor", "float_power": "Pow", "pow": "Pow", "fmod": "Mod"}
    if n in two and len(pos) == 2 and not kw:
        return I.binop_t(two[n], pos[0], pos[1])
    if n in ("logical_not", "invert") and len(pos) == 1:
        return mk_not(pos[0])
    cmpf = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}
    if n in cmpf:
        return I.compare(cmpf[n], args[0], args[1])
    if n == "negative":
        return mk_neg(pos[0])
    if n == "sqrt":
        return mk_pow(pos[0], const(0.5))
    if n == "linalg.norm" and len(pos) + len(kw) <= 2 and set(kw) <= {"x", "axis"} and (len(pos) == 1 or not pos and "x" in kw):
        return euclid(pos[0] if pos else kw["x"], kw.get("axis", NONE))
    if n == "square":
        return mk_pow(pos[0], const(2))
    if n in ("abs", "absolute", "fabs"):
        return mk_abs(pos[0])
    if n in ("maximum", "fmax") and len(pos) == 2:
        return mk_max2(pos) if n == "maximum" else raw("fmax2", sorted(pos))
    if n in ("minimum", "fmin") and len(pos) == 2:
        return mk_min2(pos) if n == "minimum" else raw("fmin2", sorted(pos))
    if n == "dot":
        a, b = pos[0], pos[1]
        if rank(a) == 0 or rank(b) == 0:
            return mk_mul(a, b)
        return mk_matmul(a, b)
    if n in ("transpose", "matrix_transpose") and len(pos) == 1:
        return mk_T(pos[0])
    if n in ("array", "asarray", "copy", "ascontiguousarray", "asanyarray", "array2", "atleast_1d") and pos:
        t = pos[0]
        d = kw.get("dtype", pos[1] if len(pos) > 1 else None)
        if d is not None:
            t = cast(t, dtype_kind(d))
        if n == "asarray" and isinstance(args[0], Ref) and d is None and isinstance(I.cell(args[0]), Arr):
            return args[0]
        return I.alloc(Arr(t)) if rank(t) != 0 else t
    if n in ("zeros", "empty"):
        d = kw.get("dtype", pos[1] if len(pos) > 1 else None)
        return alloc_zeros(I, args[0] if args else kwargs["shape"], "0" if n == "zeros" else "e", dtype_kind(d))
    if n == "ones":
        d = kw.get("dtype", pos[1] if len(pos) > 1 else None)
        z = alloc_zeros(I, args[0] if args else kwargs["shape"], "0", "num" if dtype_kind(d) == "bool" else dtype_kind(d))
        return raw("full_like", (z, TRUE if dtype_kind(d) == "bool" else ONE))
    if n == "full":
        z = alloc_zeros(I, args[0] if args else kwargs["shape"], "0", "num")
        return raw("full_like", (z, pos[1] if len(pos) > 1 else kw.get("fill_value", NONE)))
    if n in ("zeros_like", "empty_like", "ones_like", "full_like"):
        d = dims(pos[0])
        dk = dtype_kind(kw["dtype"]) if "dtype" in kw else (kind(pos[0]) if kind(pos[0]) in ("bool", "int") else "num")
        if d is None:
            z = raw("call:np.zeros_like", (pos[0],))
        else:
            z = raw("zeros", (const(dk), const("e" if n == "empty_like" else "0"), raw("shape", d)))
        if n == "ones_like":
            return raw("full_like", (z, TRUE if dk == "bool" else ONE))
        if n == "full_like":
            return raw("full_like", (z, pos[1] if len(pos) > 1 else kw.get("fill_value", NONE)))
        return z
    if n == "arange":
        kw.pop("dtype", None)
        return mk_range(pos)
    if n == "where":
        if len(pos) == 3:
            return mk_where(as_mask(pos[0]), pos[1], pos[2])
        if len(pos) == 1 and rank(pos[0]) in (1, None):
            return TupV([I.box(mk_nz(pos[0]))])
    if n == "nonzero" and rank(pos[0]) in (1, None):
        return TupV([I.box(mk_nz(pos[0]))])
    if n == "flatnonzero":
        return mk_nz(pos[0])
    if n == "count_nonzero":
        return red(I, "sum", pos[0], kw.get("axis", pos[1] if len(pos) > 1 else None))
    if n == "broadcast_to":
        return pos[0]
    if n == "ravel_multi_index" and not [k for k in kw if k not in ("multi_index", "dims", "order")]:
        mi = kw.get("multi_index", pos[0] if pos else None)
        ds = kw.get("dims", pos[1] if len(pos) > 1 else None)
        order = kw.get("order", pos[3] if len(pos) > 3 else None)
        if mi is not None and ds is not None and mi.op in ("tuple", "list") and ds.op in ("tuple", "list") and len(mi.args) == len(ds.args) == 2 \
                and (order is None or is_str(order) and order.args[0] in "CF"):
            (a, b), (m, k) = mi.args, ds.args
            n = next((len(x.args) for x in (a, b) if x.op == "list"), None)
            if n is not None and all(x.op == "list" or dims(x) is not None and len(dims(x)) == 1 or is_scalar(x) for x in (a, b)):
                el = [[x if is_scalar(x) else mk_ix(x, [const(i)]) for i in range(n)] for x in (a, b)]
                f = order is not None and order.args[0] == "F"
                return raw("list", [mk_add(p, mk_mul(m, q)) if f else mk_add(mk_mul(p, k), q) for p, q in zip(*el)])
            if order is not None and order.args[0] == "F":
                return mk_add(a, mk_mul(m, b))
            return mk_add(mk_mul(a, k), b)
    if n in ("ravel",):
        return mk_ravel(pos[0], pos[1] if len(pos) > 1 else kw.get("order"))
    if n == "reshape":
        return mk_reshape(I, pos[0], pos[1:], kw)
    if n == "squeeze":
        return mk_squeeze(pos[0], pos[1] if len(pos) > 1 else kw.get("axis"))
    if n == "expand_dims":
        a = pos[1] if len(pos) > 1 else kw.get("axis")
        if is_int(a) and a.args[0] >= 0:
            return mk_ix(pos[0], [FULL] * a.args[0] + [NEWAX])
        if is_int(a) and rank(pos[0]) is not None:
            return mk_ix(pos[0], [FULL] * (rank(pos[0]) + 1 + a.args[0]) + [NEWAX])
    if n in ("round", "around", "round_"):
        dec = pos[1] if len(pos) > 1 else kw.get("decimals", ZERO)
        return raw("el:round", (pos[0], dec))
    if n == "ix_":
        return I.box(raw("ixgrid", pos))
    if n == "fill_diagonal":
        return mutate_arg(I, args[0], lambda t: raw("filldiag", [t] + pos[1:]))
    if n in ("copyto", "put", "place", "putmask"):
        return mutate_arg(I, args[0], lambda t: raw("call:np." + n, [t] + pos[1:]))
    if n in ("random.shuffle", "random.seed", "random.rand", "random.randn", "random.randint", "random.random", "random.choice",
             "random.permutation", "random.normal", "random.uniform"):
        return raw("globalrandom", [const(n)] + pos)
    if n == "random.default_rng":
        s = pos[0] if pos else kw.get("seed", NONE)
        return I.alloc(Arr(raw("rng", (s,))))
    if n == "random.RandomState":
        return I.alloc(Arr(raw("rng", (const("RandomState"), pos[0] if pos else kw.get("seed", NONE)))))
    if n == "column_stack":
        if pos[0].op in ("tuple", "list"):
            return raw("hcat", [p for p in pos[0].args])
    if n == "clip" and len(pos) == 3:
        return raw("clip", pos)
    if n == "nan_to_num":
        return raw("call:np.nan_to_num", pos + [kwt(k, v) for k, v in sorted(kw.items())])
    if n == "identity":
        return raw("call:np.eye", pos)
    if n == "isclose":
        return mkcall("np.isclose", pos, kw)
    if n == "size" and len(pos) == 1:
        return mk_size(pos[0])
    if n == "shape":
        return I.getattr(args[0], "shape")
    if n == "ndim":
        return const(rank(pos[0])) if rank(pos[0]) is not None else raw("ndim", (pos[0],))
    if n == "float64" or n == "double" or n == "float_":
        return pos[0]
    if n in ("int_", "int64", "int32"):
        return cast(pos[0], "int")
    if n == "bool_":
        return cast(pos[0], "bool")
    if n == "finfo":
        return raw("finfo", ())
    if n == "hypot":
        return mk_pow(mk_add(mk_pow(pos[0], const(2)), mk_pow(pos[1], const(2))), const(0.5))
    if n == "array_equal":
        return raw("call:np.array_equal", sorted(pos))
    if n == "isin" or n == "in1d":
        return mkcall("np.isin", pos, kw)
    return None


def as_mask(t):
    return t


def mutate_arg(I, v, f):
    t = I.term(v)
    if isinstance(v, Ref):
        I.mutated(v, "library call")
        c = I.cell(v)
        I.setcell(v, Arr(f(t), getattr(c, "origin", None)))
    elif isinstance(v, ViewV):
        I.store_view(v, f(t))
    return NONE


def mk_size(t):
    d = dims(t)
    if d is not None:
        r = ONE
        for x in d:
            r = mk_mul(r, x)
        return r
    return raw("size", (t,))


def mk_range(pos):
    lo, hi, st = ZERO, None, ONE
    if len(pos) == 1:
        hi = pos[0]
    elif len(pos) >= 2:
        lo, hi = pos[0], pos[1]
        if len(pos) > 2:
            st = pos[2]
    if st is ONE:
        n = mk_sub(hi, lo)
        if is_int(n) and is_int(lo) and n.args[0] <= 40:
            return mk_list([const(lo.args[0] + k) for k in range(max(0, n.args[0]))])
        if is_num(n) and not is_int(n):
            return raw("call:np.arange", pos)
        return mk_add(lo, raw("arange", (n,)))
    if is_int(st) and st.args[0] == -1:
        n = mk_sub(lo, hi)
        if is_int(n) and is_int(lo) and n.args[0] <= 40:
            return mk_list([const(lo.args[0] - k) for k in range(max(0, n.args[0]))])
        return mk_sub(lo, raw("arange", (n,)))
    if all(is_int(x) for x in (lo, hi, st)) and st.args[0]:
        return mk_list([const(k) for k in range(lo.args[0], hi.args[0], st.args[0])])
    return raw("call:range", (lo, hi, st))


def mk_ravel(t, order=None):
    if rank(t) == 1 or rank(t) == 0:
        return t
    if order is not None and is_str(order) and order.args[0] != "C":
        if order.args[0] == "F" and rank(t) == 2:
            return raw("ravel", (mk_T(t),))
        return raw("ravel:" + order.args[0], (t,))
    return raw("ravel", (t,))


def mk_reshape(I, t, shp, kw):
    order = kw.get("order")
    if len(shp) == 1 and shp[0].op in ("tuple", "list"):
        shp = list(shp[0].args)
    if len(shp) == 1 and is_int(shp[0]) and shp[0].args[0] == -1:
        return mk_ravel(t, order)
    if rank(t) == 1 and len(shp) == 2 and is_int(shp[0]) and is_int(shp[1]):
        if shp[0].args[0] == -1 and shp[1].args[0] == 1:
            return mk_ix(t, [FULL, NEWAX])
        if shp[0].args[0] == 1 and shp[1].args[0] == -1:
            return mk_ix(t, [NEWAX])
    d = dims(t)
    if d is not None and rank(t) == 1 and len(shp) == 2:
        if shp[0] is d[0] and is_int(shp[1]) and shp[1].args[0] == 1:
            return mk_ix(t, [FULL, NEWAX])
    o = [] if order is None or (is_str(order) and order.args[0] == "C") else [kwt("order", order)]
    return raw("reshape", [t, raw("shape", tuple(shp))] + o)


def mk_squeeze(t, axis):
    if axis is None or axis is NONE:
        return raw("call:m.squeeze", (t,))
    return raw("call:m.squeeze", (t, kwt("axis", axis)))


# ------------------------------------------------------------- special calls

def typenames(I, v):
    if isinstance(v, TupV):
        out = []
        for x in v.items:
            out += typenames(I, x)
        return out
    if isinstance(v, GenAliasV):
        if isinstance(v.base, ExtV) and v.base.path == "builtins.Union":
            out = []
            for x in v.args:
                out += typenames(I, x)
            return out
        return typenames(I, v.base)
    if isinstance(v, ClassV):
        return [v.name]
    if isinstance(v, ExtV):
        return [canon_path(v.path)]
    if isinstance(v, PhiV):
        return ["?"]
    t = I.term(v)
    if t.op.startswith("call:type"):
        return ["NoneType" if t.args and t.args[0] is NONE else "?"]
    return [show(t)]


def sp_isinstance(I, args, kwargs):
    v, ty = args
    names = typenames(I, ty)
    if isinstance(v, PhiV):
        return I.forked(v.c, lambda: sp_isinstance(I, [v.a, ty], {}), lambda: sp_isinstance(I, [v.b, ty], {}))
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, Inst):
            anc = {x.name for x in I.mro(c.cls)} | I.ext_bases(c.cls)
            if I.class_kind(c.cls) == "namedtuple":
                anc.add("tuple")
            return TRUE if any(n in anc or n == "object" for n in names) else FALSE
        if isinstance(c, Lst) and "?" not in names:
            return TRUE if "list" in names else FALSE
        if isinstance(c, Dct) and "?" not in names:
            return TRUE if "dict" in names else FALSE
    if isinstance(v, TupV):
        return TRUE if "tuple" in names else FALSE
    t = I.term(v)
    if is_const(t):
        py = type(t.args[0]).__name__
        if py == "bool" and "int" in names:
            return TRUE
        return TRUE if py in names else FALSE
    if isinstance(v, ClassV):
        return TRUE if "type" in names else raw("isinstance", (t, raw("types", [const(n) for n in sorted(names)])))
    if t.op == "sym" and "." in t.args[0] and "?" not in names and SYMINFO.get(t.args[0], {}).get("dims") == () \
            and not SYMINFO[t.args[0]].get("optional", True):
        # a declared scalar holds a value of its declared type
        acc = {"num": ("float",), "int": ("int", "Integral"), "bool": ("bool", "int"), "str": ("str",)}.get(kd := SYMINFO[t.args[0]].get("kind"))
        if acc:
            if any(n in acc or n == "object" for n in names):
                return TRUE
            if kd in ("str", "bool"):
                return FALSE
    rs = []
    for n in sorted(set(names)):
        rs.append(I.known(raw("isinstance", (t, const(n)))))
    return mk_or(rs)


def sp_len(I, args, kwargs):
    v = args[0]
    if isinstance(v, TupV):
        return const(len(v.items))
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, (Lst, Dct)):
            return const(len(c.items))
        if isinstance(c, Inst):
            m = I.lookup_method(c.cls, "__len__")
            if m is not None:
                return I.call_func(m, [v], {})
            if I.class_kind(c.cls) == "namedtuple":
                return const(len(I.field_order(c.cls)))
    if isinstance(v, PhiV):
        return I.forked(v.c, lambda: I.box(sp_len(I, [v.a], {})), lambda: I.box(sp_len(I, [v.b], {})))
    return mk_len(I.term(v))


def sp_range(I, args, kwargs):
    return I.alloc(Arr(r)) if (r := mk_range([I.term(a) for a in args])).op != "list" else r


def seq(I, v):
    """term of an iterable"""
    return keys_view(I.term(v))


def sp_enumerate(I, args, kwargs):
    start = I.term(args[1]) if len(args) > 1 else I.term(kwargs.get("start", ZERO))
    its = I.concrete_items(args[0])
    if its is not None:
        return I.alloc(Lst([TupV([I.box(mk_add(start, const(k))), x]) for k, x in enumerate(its)]))
    t = seq(I, args[0])
    v = fresh("#i", kind="int", dims=(), nonneg=True)
    un = t.op == "unord"
    if un:
        t = t.args[0]
    # in unspecified order, the place of an element says nothing about the element
    r = raw("map", (mk_len(t), close(v, raw("tuple", (mk_add(start, raw("place", (t, v)) if un else v), mk_ix(t, [v]))))))
    return raw("unord", (r,)) if un else r


def sp_zip(I, args, kwargs):
    itss = [I.concrete_items(a) for a in args]
    if all(x is not None for x in itss) and itss:
        return I.alloc(Lst([TupV(list(x)) for x in zip(*itss)]))
    ts = [seq(I, a) for a in args]
    v = fresh("#i", kind="int", dims=(), nonneg=True)
    ns = []
    for t in ts:
        n = mk_len(t)
        if n not in ns:
            ns.append(n)
    # unequal symbolic lengths: declared dimensions win, otherwise the shortest
    n = ns[0] if len(ns) == 1 else mk_min2(ns)
    un = [t for t in ts if t.op == "unord"]
    if un:
        k = un[0].args[0]
        el = [mk_ix(k, [v]) if t is un[0] else mk_ix(t, [raw("place", (k, v))]) for t in ts]
        return raw("unord", (raw("map", (n, close(v, raw("tuple", el)))),))
    return raw("map", (n, close(v, raw("tuple", [mk_ix(t, [v]) for t in ts]))))


def sp_reversed(I, args, kwargs):
    its = I.concrete_items(args[0])
    if its is not None:
        return I.alloc(Lst(list(reversed(its))))
    t = seq(I, args[0])
    n = mk_len(t)
    v = fresh("#i", kind="int", dims=(), nonneg=True)
    return raw("map", (n, close(v, mk_ix(t, [mk_sub(mk_sub(n, ONE), v)]))))


def sp_list(I, args, kwargs):
    if not args:
        return I.alloc(Lst([]))
    its = I.concrete_items(args[0])
    t = I.term(args[0]) if not isinstance(args[0], (ClassV,)) else None
    if its is not None and (t is None or not (t.op == "set")):
        return I.alloc(Lst(its))
    t = seq(I, args[0])
    return I.alloc(Arr(t))


def sp_tuple(I, args, kwargs):
    if not args:
        return TupV([])
    its = I.concrete_items(args[0])
    if its is not None:
        return TupV(its)
    return I.alloc(Arr(seq(I, args[0])))


def sp_set(I, args, kwargs):
    import interp
    if not args:
        return I.alloc(Arr(interp.mk_set([])))
    its = I.concrete_items(args[0])
    if its is not None:
        return I.alloc(Arr(interp.mk_set([I.term(x) for x in its])))
    t = seq(I, args[0])
    if interp.is_setlike(t):
        return I.alloc(Arr(t))
    if t.op == "map":
        v = fresh("#i")
        return I.alloc(Arr(mk_setmap(t.args[0], close(v, TRUE), t.args[1])))
    if t.op == "filtermap":
        return I.alloc(Arr(mk_setmap(*t.args)))
    return I.alloc(Arr(raw("call:set", (t,))))


def sp_dict(I, args, kwargs):
    if not args:
        return I.alloc(Dct([(const(k), v) for k, v in kwargs.items()]))
    v = args[0]
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, Dct):
            r = I.alloc(Dct(c.items))
            for k, x in kwargs.items():
                I.store_sub(r, [const(k)], x)
            return r
    its = I.concrete_items(v)
    t = I.term(v)
    if its is not None and not (t.op in ("dict",)):
        r = I.alloc(Dct([]))
        for x in its:
            I.store_sub(r, [I.term(I.elem_of(x, 0))], I.elem_of(x, 1))
        return r
    if t.op == "map":
        v2 = fresh("#i", kind="int", dims=(), nonneg=True)
        b = open_lam(t.args[1], v2)
        if b.op == "tuple" and len(b.args) == 2:
            return I.alloc(Arr(raw("dictmap", (raw("dict", ()), t.args[0], close(v2, TRUE), close(v2, b.args[0]), close(v2, b.args[1])))))
    return I.alloc(Arr(renewed(I, t, "copy") if kind(t) == "dict" or t.op in ("dstore", "dictmap", "dmerge") else raw("call:dict", (t,))))


def map_over(I, f, itv):
    its = I.concrete_items(itv)
    if its is not None:
        return I.alloc(Lst([I.call(f, [x], {}, None) for x in its]))
    t = seq(I, itv)
    v = fresh("#i", kind="int", dims=(), nonneg=True)
    holder = {"v": None}
    lst = I.alloc(Lst([]))

    def body():
        r = I.call(f, [I.box(mk_ix(t, [v]))], {}, None)
        list_append(I, lst, r)
    I.symbolic_loop(mk_len(t), v, body)
    return lst


def sp_map(I, args, kwargs):
    if len(args) == 2:
        return map_over(I, args[0], args[1])
    return NotImplemented


def sp_filter(I, args, kwargs):
    f, itv = args
    t = seq(I, itv)
    its = I.concrete_items(itv)
    v = fresh("#i", kind="int", dims=(), nonneg=True)
    lst = I.alloc(Lst([]))

    def one(x):
        c = I.truth(x if isinstance(f, T) and f is NONE else I.call(f, [x], {}, None))
        I.forked(c, lambda: list_append(I, lst, x) or NONE, lambda: NONE)
    if its is not None:
        for x in its:
            one(x)
        return lst
    I.symbolic_loop(mk_len(t), v, lambda: one(I.box(mk_ix(t, [v]))))
    return lst


def sp_minmax(name):
    def f(I, args, kwargs):
        key = kwargs.get("key")
        pos = [I.term(a) for a in args]
        if key is None and len(pos) > 1:
            return (mk_max2 if name == "max" else mk_min2)(pos)
        if key is None and len(pos) == 1:
            its = I.concrete_items(args[0])
            if its is not None and its:
                ts = [I.term(x) for x in its]
                if "default" not in kwargs:
                    return (mk_max2 if name == "max" else mk_min2)(ts) if len(ts) > 1 else ts[0]
            t = seq(I, args[0])
            if t.op == "unord":
                t = t.args[0]
            if "default" in kwargs:
                return mk_phi(mk_pos(mk_len(t)), mk_red(name, t), I.term(kwargs["default"]))
            return mk_red(name, t)
        return raw("call:" + name, pos + [kwt(k, I.term(v)) for k, v in sorted(kwargs.items())])
    return f


def sp_anyall(name):
    def f(I, args, kwargs):
        its = I.concrete_items(args[0])
        if its is not None:
            ts = [I.truth(x) for x in its]
            return mk_or(ts) if name == "any" else mk_and(ts)
        t = seq(I, args[0])
        if t.op == "unord":
            t = t.args[0]
        return red(I, name, t)
    return f


def sp_sum(I, args, kwargs):
    its = I.concrete_items(args[0])
    start = I.term(args[1]) if len(args) > 1 else I.term(kwargs.get("start", ZERO))
    if its is not None:
        s = start
        for x in its:
            s = mk_add(s, I.term(x))
        return s
    t = seq(I, args[0])
    if t.op == "unord":
        t = t.args[0]
    return mk_add(start, red(I, "sum", t))


def sp_sorted(I, args, kwargs):
    t = seq(I, args[0])
    if t.op == "unord":
        t = t.args[0]
    kw = {k: I.term(v) for k, v in kwargs.items()}
    if kw.get("reverse") is FALSE:
        kw.pop("reverse")
    return raw("call:sorted", [t] + [kwt(k, kw[k]) for k in sorted(kw)])


def sp_int(I, args, kwargs):
    if not args:
        return ZERO
    t = I.term(args[0])
    if is_num(t):
        return const(int(t.args[0]))
    return cast(t, "int") if kind(t) != "str" else raw("cast:int", (t,))


def sp_float(I, args, kwargs):
    t = I.term(args[0])
    if is_str(t):
        v = t.args[0].lower()
        if v in ("inf", "+inf"):
            return raw("inf", ())
        if v == "-inf":
            return mk_neg(raw("inf", ()))
        if v == "nan":
            return raw("nan", ())
    return t


def sp_getattr(I, args, kwargs):
    n = I.term(args[1])
    if is_str(n):
        v = args[0]
        if isinstance(v, Ref) and isinstance(I.cell(v), Inst):
            c = I.cell(v)
            has = n.args[0] in c.fields or I.class_attr(c.cls, n.args[0]) is not None or (c.base is not None and I.lazy_field(c, n.args[0]) is not None)
            if not has and len(args) > 2:
                return args[2]
        return I.getattr(args[0], n.args[0])
    return I.box(raw("getattr", [I.term(a) for a in args]))


def sp_setattr(I, args, kwargs):
    n = I.term(args[1])
    if is_str(n):
        I.setattr(args[0], n.args[0], args[2])
    else:
        I.event("setattr?", raw("setattr?", [I.term(a) for a in args]))
    return NONE


def sp_hasattr(I, args, kwargs):
    n = I.term(args[1])
    v = args[0]
    if is_str(n) and isinstance(v, Ref) and isinstance(I.cell(v), Inst):
        c = I.cell(v)
        has = n.args[0] in c.fields or I.class_attr(c.cls, n.args[0]) is not None or (c.base is not None and I.lazy_field(c, n.args[0]) is not None)
        return TRUE if has else FALSE
    return raw("hasattr", (I.term(v), n))


def sp_type(I, args, kwargs):
    v = args[0]
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, Inst):
            return c.cls
    return raw("call:type", (I.term(v),))


def sp_partial(I, args, kwargs):
    return PartialV(args[0], list(args[1:]), dict(kwargs))


def renewed(I, t, how):
    """a copy denotes the same value; where identity matters ($fresh) it stays visible that it is another object"""
    return raw("fresh:" + how, (t,)) if I.models.get("$fresh") else t


def deep_copy(I, v, seen=None):
    if I.models.get("$fresh"):
        return I.box(renewed(I, I.term(v), "deep"))
    if isinstance(v, TupV):
        return TupV([deep_copy(I, x) for x in v.items])
    if isinstance(v, PhiV):
        return PhiV(v.c, deep_copy(I, v.a), deep_copy(I, v.b))
    if isinstance(v, ViewV):
        return I.box(I.term(v))
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, Arr):
            return I.alloc(Arr(c.term))
        if isinstance(c, Lst):
            return I.alloc(Lst([deep_copy(I, x) for x in c.items]))
        if isinstance(c, Dct):
            return I.alloc(Dct([(k, deep_copy(I, x)) for k, x in c.items]))
        if isinstance(c, Inst):
            if c.base is not None:
                # force the fields so that the copy is detached
                for nm in I.field_order(c.cls):
                    I.getattr(v, nm)
                c = I.cell(v)
            return I.alloc(Inst(c.cls, {k: deep_copy(I, x) for k, x in c.fields.items()}, c.base, None))
    return v


def shallow_copy(I, v):
    if I.models.get("$fresh"):
        return I.box(renewed(I, I.term(v), "copy"))
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, Arr):
            return I.alloc(Arr(c.term))
        if isinstance(c, Lst):
            return I.alloc(Lst(c.items))
        if isinstance(c, Dct):
            return I.alloc(Dct(c.items))
        if isinstance(c, Inst):
            return I.alloc(Inst(c.cls, dict(c.fields), c.base, None))
    if isinstance(v, PhiV):
        return PhiV(v.c, shallow_copy(I, v.a), shallow_copy(I, v.b))
    if isinstance(v, ViewV):
        return I.alloc(Arr(I.term(v)))
    return v


def sp_replace(I, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.cell(v), Inst):
        c = I.cell(v)
        fields = {nm: I.getattr(v, nm) for nm in I.field_order(c.cls)}
        fields.update(kwargs)
        return I.alloc(Inst(c.cls, fields))
    return NotImplemented


def sp_fields(I, args, kwargs):
    v = args[0]
    cv = v if isinstance(v, ClassV) else (I.cell(v).cls if isinstance(v, Ref) and isinstance(I.cell(v), Inst) else None)
    if cv is None:
        return NotImplemented
    return I.alloc(Lst([I.box(raw("rec2:Field", (const(n),))) for n in I.field_order(cv)]))


def sp_asdict(I, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.cell(v), Inst):
        c = I.cell(v)
        return I.alloc(Dct([(const(nm), I.getattr(v, nm)) for nm in I.field_order(c.cls)]))
    return NotImplemented


def sp_as_completed(I, args, kwargs):
    t = seq(I, args[0])
    return I.alloc(Arr(raw("unord", (t,))))


def sp_path(I, args, kwargs):
    ts = [I.term(a) for a in args]
    r = mk_path(ts[0])
    for t in ts[1:]:
        r = path_join(r, t)
    return r


def sp_osjoin(I, args, kwargs):
    return sp_path(I, args, kwargs)


def sp_next(I, args, kwargs):
    t = seq(I, args[0])
    if t.op in ("list",) and t.args:
        return t.args[0]
    if len(args) > 1:
        d = I.term(args[1])
        if t.op == "filtermap":
            n, lc, le = t.args
            v = fresh("#i")
            c = open_lam(lc, v)
            first = raw("first", (n, lc))
            first._dims = ()
            first._kind = "int"
            import loops
            return mk_phi(loops.mk_any(n, lc), apply_lam(le, first), d)
        return mk_phi(mk_pos(mk_len(t)), mk_ix(t, [ZERO]), d)
    if t.op == "filtermap":
        n, lc, le = t.args
        first = raw("first", (n, lc))
        first._dims = ()
        first._kind = "int"
        return apply_lam(le, first)
    return mk_ix(t, [ZERO])


def sp_open(I, args, kwargs):
    t = mkcall("open", [I.term(a) for a in args], {k: I.term(v) for k, v in kwargs.items() if k not in ("encoding", "newline")})
    I.extcalls.append(t)
    m = getkw(t, "mode")
    if m is not None and not (is_str(m) and set(m.args[0]) <= set("rtb")):
        I.event("call", t)
    return I.alloc(Arr(t))


def sp_transparent(I, args, kwargs):
    return args[0] if args else NONE


def sp_defaultdict(I, args, kwargs):
    t = I.term(args[0]) if args else NONE
    return I.alloc(Arr(raw("defaultdict", (t,))))


def sp_get_origin(I, args, kwargs):
    v = args[0]
    if isinstance(v, GenAliasV):
        return v.base
    if isinstance(v, (ClassV, ExtV)):
        return NONE
    return NotImplemented


def sp_get_args(I, args, kwargs):
    v = args[0]
    if isinstance(v, GenAliasV):
        return TupV(v.args)
    if isinstance(v, (ClassV, ExtV)):
        return TupV([])
    return NotImplemented


def sp_issubclass(I, args, kwargs):
    a, b = args
    if isinstance(a, ClassV):
        names = typenames(I, b)
        anc = {x.name for x in I.mro(a)} | I.ext_bases(a)
        return TRUE if any(n in anc for n in names) else FALSE
    return raw("issubclass", (I.term(a), I.term(b)))


SPECIAL = {
    "isinstance": sp_isinstance, "len": sp_len, "range": sp_range, "enumerate": sp_enumerate, "zip": sp_zip,
    "reversed": sp_reversed, "list": sp_list, "tuple": sp_tuple, "set": sp_set, "frozenset": sp_set, "dict": sp_dict,
    "map": sp_map, "filter": sp_filter, "max": sp_minmax("max"), "min": sp_minmax("min"), "any": sp_anyall("any"),
    "all": sp_anyall("all"), "sum": sp_sum, "sorted": sp_sorted, "int": sp_int, "float": sp_float,
    "str": lambda I, a, k: mk_caststr(I.term(a[0])) if a else const(""),
    "bool": lambda I, a, k: I.truth(a[0]) if a else FALSE,
    "abs": lambda I, a, k: mk_abs(I.term(a[0])),
    "round": lambda I, a, k: raw("el:round", (I.term(a[0]), I.term(a[1]) if len(a) > 1 else ZERO)),
    "getattr": sp_getattr, "setattr": sp_setattr, "hasattr": sp_hasattr, "type": sp_type, "partial": sp_partial,
    "deepcopy": lambda I, a, k: deep_copy(I, a[0]), "replace": sp_replace, "fields": sp_fields, "asdict": sp_asdict,
    "copy": lambda I, a, k: shallow_copy(I, a[0]),
    "as_completed": sp_as_completed, "Path": sp_path, "os.path.join": sp_osjoin, "next": sp_next, "iter": sp_transparent,
    "open": sp_open, "cast": lambda I, a, k: a[1], "defaultdict": sp_defaultdict, "get_origin": sp_get_origin, "get_args": sp_get_args,
    "issubclass": sp_issubclass, "pow": lambda I, a, k: mk_pow(I.term(a[0]), I.term(a[1])),
    "math.fsum": sp_sum, "os.fspath": sp_transparent,
    "callable": lambda I, a, k: TRUE if isinstance(a[0], (FuncV, BoundV, ClassV)) else raw("call:callable", (I.term(a[0]),)),
}


# ----------------------------------------------------------------- attributes

def ext_attr(I, p):
    c = canon_path(p)
    if c in ("np.inf", "math.inf", "np.Inf"):
        return raw("inf", ())
    if c in ("np.nan", "math.nan", "np.NaN"):
        return raw("nan", ())
    if c in ("np.pi", "math.pi"):
        return sym("pi", kind="num", dims=())
    if c == "np.newaxis":
        return NEWAX_V
    return ExtV(p)


NEWAX_V = ExtV("numpy.newaxis")


def get_attr(I, v, name):
    if name in ("loc", "iloc", "at", "iat"):
        return ExtBoundV(v, name)
    if isinstance(v, Ref) and not isinstance(I.cell(v), Arr):
        return ExtBoundV(v, name)
    if name in METHODS:
        return ExtBoundV(v, name)
    t = I.term(v)
    if name == "T":
        return I.box(mk_T(t))
    if name == "shape":
        d = dims(t)
        if d is not None:
            return TupV([x if x is not None else raw("dim", (t, const(k))) for k, x in enumerate(d)])
        return raw("shape?", (t,))
    if name == "size":
        return mk_size(t)
    if name == "ndim":
        return const(rank(t)) if rank(t) is not None else raw("ndim", (t,))
    if name == "values":
        return I.box(t)
    if name == "eps" and t.op == "finfo":
        return raw("eps", ())
    if t.op.startswith("rec2:") and name == "name":
        return t.args[0]
    if t.op.startswith("after") or t.op.startswith("upd:"):
        pass
    if t.op.startswith("upd:"):
        for a in t.args[1:]:
            if a.op == "kw:" + name:
                return I.box(a.args[0])
    if t.op == "setattr:" + name:
        return I.box(t.args[1])
    if t.op.startswith("setattr:") and name != "columns":
        return get_attr(I, t.args[0], name)
    if t.op == "phi":
        import interp
        return I.box(interp.phi_map(t, lambda x: I.term(I.getattr(x, name)) if not x.op == "phi" else x))
    if t.op in ("map",) and False:
        pass
    r = raw("attr:" + name, (t,))
    if name == "columns" or name == "index":
        d = dims(t)
        if d is not None and len(d) == 2:
            r._dims = (d[1],) if name == "columns" else (d[0],)
    return I.box(r)


METHODS = {"sum", "mean", "median", "std", "var", "min", "max", "any", "all", "prod", "argmin", "argmax", "copy", "astype",
           "append", "extend", "insert", "pop", "remove", "index_", "count", "sort", "reverse", "clear", "get", "items", "keys",
           "update", "setdefault", "add", "union", "intersection", "difference", "issubset", "discard", "join", "split",
           "lower", "upper", "strip", "startswith", "endswith", "replace", "format", "tolist", "to_numpy", "flatten", "ravel",
           "reshape", "dot", "transpose", "squeeze", "isna", "isnull", "notna", "fillna", "dropna", "drop", "rename", "to_csv",
           "to_list", "item", "round", "nonzero", "cumsum", "fit", "predict", "predict_proba", "submit", "result", "shutdown",
           "is_file", "is_dir", "exists", "open", "write", "read", "close", "unique", "apply", "iterrows", "itertuples", "head",
           "integers", "random", "choice", "permutation", "normal", "shuffle", "uniform", "nunique", "abs", "clip", "filter",
           "set_index", "reset_index", "fit_predict", "fit_transform", "buffer", "contains", "simplify", "_asdict", "_replace",
           "argsort", "fill", "mkdir", "isin", "str_contains", "mode", "sort_values", "corr", "map", "resample", "spawn"}


def index_term(I, t, keys):
    if len(keys) == 1 and keys[0].op == "ixgrid":
        return mk_oix(t, list(keys[0].args))
    if t.op == "shape?" and len(keys) == 1 and is_int(keys[0]):
        return dim(t.args[0], keys[0].args[0])
    if len(keys) == 1 and is_str(keys[0]):
        tt = t
        while tt.op == "setcol":
            if tt.args[1] is keys[0]:
                return tt.args[2]
            if is_str(tt.args[1]):
                tt = tt.args[0]
            else:
                break
        if t.op not in ("dict", "dstore"):
            return raw("ix", (tt, keytuple(keys)))
    return mk_ix(t, keys)


def loc_term(I, t, keys):
    if all(k is FULL or kind(k) == "bool" for k in keys):
        return mk_ix(t, keys)
    if len(keys) == 2 and keys[0] is FULL and (is_str(keys[1]) or keys[1].op in ("list",)):
        return mk_ix(t, [keys[1]])
    return raw("loc", (t, keytuple(keys)))


# --------------------------------------------------------------- list effects

def write_list(I, target, f_items, f_term):
    """apply a list update to a list cell, or to a list held inside another container"""
    if isinstance(target, PhiV):
        I.forked(target.c, lambda: write_list(I, target.a, f_items, f_term) or NONE,
                 lambda: write_list(I, target.b, f_items, f_term) or NONE)
        return
    if isinstance(target, Ref):
        c = I.cell(target)
        I.mutated(target, "list update")
        if isinstance(c, Lst) and f_items is not None:
            I.setcell(target, Lst(f_items(c.items), c.origin))
            return
        t = I.term(target)
        nt = f_term(t)
        I.setcell(target, Arr(nt, getattr(c, "origin", None)))
        return
    if isinstance(target, ViewV):
        nt = f_term(I.term(target))
        I.store_sub(target.ref, list(target.keys), I.box(nt))
        return
    I.event("list?", raw("list?", (I.term(target),)))


def list_append(I, target, v):
    tv = None

    def ft(t):
        nonlocal tv
        if tv is None:
            tv = I.term(v)
        return mk_lcat([t if t.op != "tuple" else mk_list(t.args), mk_list([tv])])
    write_list(I, target, lambda its: tuple(its) + (v,), ft)


def list_extend(I, target, v):
    its = I.concrete_items(v)
    if its is not None:
        write_list(I, target, lambda x: tuple(x) + tuple(its), lambda t: mk_lcat([t, mk_list([I.term(y) for y in its])]))
    else:
        tv = seq(I, v)
        write_list(I, target, None, lambda t: mk_lcat([t, tv]))


def mk_del(t, keys):
    k = keys[0]
    if k.op == "slice":
        lo, hi, st = k.args
        if hi is NONE and st is NONE:
            return mk_ix(t, [norm_slice(NONE, lo, NONE)])
        if lo is NONE and st is NONE:
            return mk_ix(t, [norm_slice(hi, NONE, NONE)])
    if k is FULL:
        return mk_list([])
    return raw("del", (t, keytuple(keys)))


# --------------------------------------------------------------------- methods

RNG_METHODS = {"integers", "random", "choice", "permutation", "normal", "shuffle", "uniform", "standard_normal", "rand", "randn", "randint", "permuted"}
MUTATING = {"fit", "fit_transform", "run", "partial_fit", "set_params", "train", "fit_predict", "add_patch"}


def call_method(I, recv, name, args, kwargs):
    if isinstance(recv, PhiV):
        return I.forked(recv.c, lambda: call_method(I, recv.a, name, args, kwargs) if not _repo(I, recv.a) else I.call(I.getattr(recv.a, name), args, kwargs, None),
                        lambda: call_method(I, recv.b, name, args, kwargs) if not _repo(I, recv.b) else I.call(I.getattr(recv.b, name), args, kwargs, None))
    c = I.cell(recv) if isinstance(recv, Ref) else None
    if isinstance(recv, TupV) and name.startswith("super."):
        return NONE
    if isinstance(c, Inst):
        r = inst_method(I, recv, c, name, args, kwargs)
        if r is not None:
            return r
    if isinstance(recv, ClassV):
        r = class_method(I, recv, name, args, kwargs)
        if r is not None:
            return r
    if isinstance(c, (Lst,)) or (c is not None and isinstance(c, Arr) and (kind(c.term) == "list" or c.term.op in ("lcat", "map", "filtermap"))) or isinstance(recv, ViewV):
        r = list_method(I, recv, c, name, args, kwargs)
        if r is not None:
            return r
    if isinstance(c, Dct) or (isinstance(c, Arr) and (c.term.op in ("dict", "dstore", "dictmap", "dmerge", "defaultdict", "phi") or kind(c.term) == "dict")):
        r = dict_method(I, recv, c, name, args, kwargs)
        if r is not None:
            return r
    import interp
    t = I.term(recv)
    if name == "__new__" and args and I.term(args[0]) is t:
        return I.call(recv, args[1:], kwargs, None)
    if interp.is_setlike(t) or (name in ("union", "difference", "intersection", "issubset", "add", "discard") and isinstance(recv, (Ref, ViewV)) and kind(t) in ("set",)):
        r = set_method(I, recv, c, t, name, args, kwargs)
        if r is not None:
            return r
    pos = [I.term(a) for a in args]
    kw = {k: I.term(v) for k, v in kwargs.items()}
    fx = I.models.get("$method:" + name) if I.models else None
    if fx is not None:
        r = fx(I, recv, t, pos, kw)
        if r is not None:
            return r
    r = method(I, recv, t, name, pos, kw, args, kwargs)
    if r is not None:
        return r if isinstance(r, Value) else I.box(r)
    # rng
    if name in RNG_METHODS and _is_rng(t):
        call = raw("draw:" + name, [t] + pos + [kwt(k, kw[k]) for k in sorted(kw)])
        if isinstance(recv, Ref):
            I.setcell(recv, Arr(raw("rngnext", (t, call)), None))
        elif isinstance(recv, ViewV):
            pass
        if name == "shuffle":
            return mutate_arg(I, args[0], lambda x: raw("shuffled", (call,)))
        return I.box(call)
    if kw.get("inplace") is TRUE:
        kw.pop("inplace")
        call = relabelled(t, name, pos, kw) or raw("call:m." + name, [t] + pos + [kwt(k, kw[k]) for k in sorted(kw)])
        if isinstance(recv, Ref):
            I.mutated(recv, name + "(inplace)")
            I.setcell(recv, Arr(call, c.origin))
        return NONE
    call = relabelled(t, name, pos, kw) or raw("call:m." + name, [t] + pos + [kwt(k, kw[k]) for k in sorted(kw)])
    I.extcalls.append(call)
    if name in MUTATING and isinstance(recv, Ref) and isinstance(c, Arr):
        I.setcell(recv, Arr(raw("after", (call,)), c.origin))
        if name in ("fit", "partial_fit", "set_params"):
            return recv
    return I.box(call)


def _repo(I, v):
    return isinstance(v, (FuncV, BoundV, ClassV)) or (isinstance(v, Ref) and isinstance(I.cell(v), Inst))


def _is_rng(t):
    while t.op == "rngnext":
        t = t.args[0]
    return t.op in ("rng", "phi", "sym", "attr:rng") or t.op.startswith("call:np.random") or t.op == "loopval"


def inst_method(I, recv, c, name, args, kwargs):
    if name == "_asdict":
        return sp_asdict(I, [recv], {})
    if name == "_replace":
        return sp_replace(I, [recv], kwargs)
    return None


def class_method(I, cv, name, args, kwargs):
    if name == "_make":
        its = I.concrete_items(args[0])
        if its is not None:
            return I.construct(cv, its, {})
    return None


def list_method(I, recv, c, name, args, kwargs):
    if name == "append" and len(args) == 1:
        list_append(I, recv, args[0])
        return NONE
    if name == "extend" and len(args) == 1:
        list_extend(I, recv, args[0])
        return NONE
    if name == "insert" and len(args) == 2:
        k, v = I.term(args[0]), args[1]
        if k is ZERO:
            write_list(I, recv, lambda its: (v,) + tuple(its), lambda t: mk_lcat([mk_list([I.term(v)]), t]))
        elif isinstance(c, Lst) and is_int(k):
            def ins(its):
                l = list(its)
                l.insert(k.args[0], v)
                return l
            write_list(I, recv, ins, lambda t: raw("linsert", (t, k, I.term(v))))
        else:
            write_list(I, recv, None, lambda t: raw("linsert", (t, k, I.term(v))))
        return NONE
    if name == "pop":
        k = I.term(args[0]) if args else const(-1)
        if isinstance(c, Lst) and is_int(k) and -len(c.items) <= k.args[0] < len(c.items):
            its = list(c.items)
            v = its.pop(k.args[0])
            I.mutated(recv, "pop")
            I.setcell(recv, Lst(its, c.origin))
            return v
        t = I.term(recv)
        v = mk_ix(t, [k])
        if k is ZERO:
            write_list(I, recv, None, lambda x: mk_ix(x, [norm_slice(ONE, NONE, NONE)]))
        elif is_int(k) and k.args[0] == -1:
            write_list(I, recv, None, lambda x: mk_ix(x, [norm_slice(NONE, const(-1), NONE)]))
        else:
            write_list(I, recv, None, lambda x: raw("del", (x, keytuple([k]))))
        return I.box(v)
    if name == "remove":
        v = I.term(args[0])
        write_list(I, recv, None, lambda x: raw("lremove", (x, v)))
        return NONE
    if name == "clear":
        write_list(I, recv, lambda its: (), lambda t: mk_list([]))
        return NONE
    if name == "reverse":
        write_list(I, recv, lambda its: tuple(reversed(its)), lambda t: mk_ix(t, [raw("slice", (NONE, NONE, const(-1)))]))
        return NONE
    if name == "sort":
        kw = {k: I.term(v) for k, v in kwargs.items()}
        if kw.get("reverse") is FALSE:
            kw.pop("reverse")
        write_list(I, recv, None, lambda t: raw("call:sorted", [t] + [kwt(k, kw[k]) for k in sorted(kw)]))
        return NONE
    if name == "copy" and not args:
        return shallow_copy(I, recv)
    if name == "index" and args:
        L, x = I.term(recv), I.term(args[0])
        if x.op == "ix" and x.args[0] is L and len(x.args[1].args) == 1 and rank(x.args[1].args[0]) == 0:
            return x.args[1].args[0]  # names are distinct
        return raw("lindex", (L, x))
    if name == "count" and args and isinstance(c, Lst):
        return raw("lcount", (I.term(recv), I.term(args[0])))
    if isinstance(recv, ViewV) and name in ("add", "update", "discard", "remove"):
        t = I.term(recv)
        import interp
        if name == "add":
            I.store_sub(recv.ref, list(recv.keys), I.box(interp.mk_union([t, interp.mk_set([I.term(args[0])])])))
            return NONE
        if name == "update":
            I.store_sub(recv.ref, list(recv.keys), I.box(interp.mk_union([t] + [as_set(I, a) for a in args])))
            return NONE
    return None


def as_set(I, v):
    return I.term(sp_set(I, [v], {}))


def dict_method(I, recv, c, name, args, kwargs):
    if name == "items":
        if isinstance(c, Dct):
            return I.alloc(Lst([TupV([k, v]) for k, v in c.items]))
        t = I.term(recv)
        v = fresh("#i", kind="int", dims=(), nonneg=True)
        ks = raw("keys", (t,))
        return I.box(raw("map", (dim(t, 0), close(v, raw("tuple", (mk_ix(ks, [v]), mk_ix(t, [mk_ix(ks, [v])])))))))
    if name == "keys":
        if isinstance(c, Dct):
            return I.alloc(Lst([k for k, _ in c.items]))
        return I.box(raw("keys", (I.term(recv),)))
    if name == "values":
        if isinstance(c, Dct):
            return I.alloc(Lst([v for _, v in c.items]))
        t = I.term(recv)
        v = fresh("#i", kind="int", dims=(), nonneg=True)
        ks = raw("keys", (t,))
        return I.box(raw("map", (dim(t, 0), close(v, mk_ix(t, [mk_ix(ks, [v])])))))
    if name == "get" and args:
        k = I.term(args[0])
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        if isinstance(c, Dct):
            for kk, v in c.items:
                if kk is k:
                    return v
            if is_const(k) and all(is_const(kk) for kk, _ in c.items):
                return d
            if not c.items:
                return d
            acc = d
            for kk, v in reversed(c.items):
                acc = I.merge_values(mk_eq(k, kk), v, acc)
            return acc
        t = I.term(recv)
        inn = I.known(mk_in(k, keys_view(t)))
        return I.forked(inn, lambda: I.box(mk_ix(t, [k])), lambda: d)
    if name == "pop" and args:
        k = I.term(args[0])
        if isinstance(c, Dct) and (any(kk is k for kk, _ in c.items)):
            v = next(v for kk, v in c.items if kk is k)
            I.mutated(recv, "pop")
            I.setcell(recv, Dct([(a, b) for a, b in c.items if a is not k], c.origin))
            return v
        t = I.term(recv)
        I.mutated(recv, "pop")
        I.setcell(recv, Arr(raw("ddel", (t, k)), getattr(c, "origin", None)))
        if len(args) > 1:
            return I.box(mk_phi(mk_in(k, keys_view(t)), mk_ix(t, [k]), I.term(args[1])))
        return I.box(mk_ix(t, [k]))
    if name == "update":
        for a in args:
            ac = I.cell(a) if isinstance(a, Ref) else None
            if isinstance(ac, Dct):
                for k, v in ac.items:
                    I.store_sub(recv, [k], v)
            else:
                t = I.term(recv)
                I.mutated(recv, "update")
                cc = I.cell(recv)
                I.setcell(recv, Arr(mk_dmerge(t, I.term(a)), getattr(cc, "origin", None)))
        for k, v in kwargs.items():
            I.store_sub(recv, [const(k)], v)
        return NONE
    if name == "setdefault":
        k = I.term(args[0])
        d = args[1] if len(args) > 1 else NONE
        if isinstance(c, Dct):
            for kk, v in c.items:
                if kk is k:
                    return v
            if not c.items or is_const(k) and all(is_const(kk) for kk, _ in c.items):
                I.store_sub(recv, [k], d)
                return d
        t = I.term(recv)
        inn = mk_in(k, keys_view(t))
        I.forked(inn, lambda: NONE, lambda: I.store_sub(recv, [k], d) or NONE)
        return ViewV(recv, [k])
    if name == "copy" and not args:
        return shallow_copy(I, recv)
    if name == "clear":
        I.mutated(recv, "clear")
        I.setcell(recv, Dct([], getattr(c, "origin", None)))
        return NONE
    return None


def set_method(I, recv, c, t, name, args, kwargs):
    import interp

    def put(nt):
        if isinstance(recv, Ref):
            I.mutated(recv, name)
            I.setcell(recv, Arr(nt, getattr(c, "origin", None)))
        elif isinstance(recv, ViewV):
            I.store_sub(recv.ref, list(recv.keys), I.box(nt))
    if name == "add":
        put(interp.mk_union([t, interp.mk_set([I.term(args[0])])]))
        return NONE
    if name == "update":
        put(interp.mk_union([t] + [as_set(I, a) for a in args]))
        return NONE
    if name in ("discard", "remove"):
        put(mk_setdiff(t, interp.mk_set([I.term(args[0])])))
        return NONE
    if name == "difference_update":
        put(mk_setdiff(t, as_set(I, args[0])))
        return NONE
    if name == "union":
        return I.alloc(Arr(interp.mk_union([t] + [as_set(I, a) for a in args])))
    if name == "difference":
        return I.alloc(Arr(mk_setdiff(t, as_set(I, args[0]))))
    if name == "intersection":
        return I.alloc(Arr(mk_setand([t, as_set(I, args[0])])))
    if name == "issubset":
        return mk_subset(t, as_set(I, args[0]))
    if name == "issuperset":
        return mk_subset(as_set(I, args[0]), t)
    if name == "copy":
        return I.alloc(Arr(t))
    if name == "pop":
        v = raw("setpop", (t,))
        put(mk_setdiff(t, interp.mk_set([v])))
        return I.box(v)
    return None


def method(I, recv, t, name, pos, kw, args, kwargs):
    if t.op.startswith("ext:loguru") or t.op in ("ext:logger", "ext:loguru.logger") or t.op.startswith("call:logging"):
        return NONE
    if name in REDS and not (is_str(t) or kind(t) == "str"):
        if t.op.startswith(("call:multiprocessing",)):
            return None
        return parse_red(I, name, [t] + pos, dict(kw))
    if name in ("copy",) and not pos:
        return shallow_copy(I, recv) if isinstance(recv, (Ref, ViewV)) else t
    if name in ("tolist", "to_numpy", "to_list", "__array__"):
        return I.alloc(Arr(t)) if rank(t) != 0 else t
    if name == "item" and not pos and t.op == "call:spatial.cdist":
        return mk_ix(t, [ZERO, ZERO])
    if name == "item" and not pos:
        return mk_ix(t, [ZERO]) if rank(t) == 1 else raw("call:m.item", (t,)) if rank(t) != 0 else t
    if name == "astype":
        d = pos[0] if pos else kw.get("dtype")
        k = dtype_kind(d)
        r = cast(t, k)
        if k == "obj":
            r = raw("cast:str", (t,)) if d.op in ("ext:str", "ext:np.str_") else t
        return I.alloc(Arr(r)) if rank(r) != 0 else r
    if name in ("flatten", "ravel"):
        return mk_ravel(t, pos[0] if pos else kw.get("order"))
    if name == "reshape":
        return mk_reshape(I, t, pos, kw)
    if name == "transpose" and not pos:
        return mk_T(t)
    if name == "dot" and len(pos) == 1:
        return mk_matmul(t, pos[0])
    if name == "round" and kind(t) != "str":
        return raw("el:round", (t, pos[0] if pos else kw.get("decimals", ZERO)))
    if name == "nonzero" and rank(t) in (1, None):
        return TupV([I.box(mk_nz(t))])
    if name in ("isna", "isnull"):
        return raw("el:isnan", (t,))
    if name in ("notna", "notnull"):
        return mk_not(raw("el:isnan", (t,)))
    if name == "abs":
        return mk_abs(t)
    if name == "squeeze":
        return mk_squeeze(t, pos[0] if pos else kw.get("axis"))
    if name == "argsort":
        return mkcall("np.argsort", [t] + pos, kw)
    if name == "cumsum":
        return mkcall("np.cumsum", [t] + pos, kw)
    if name == "fill" and isinstance(recv, (Ref, ViewV)) and kind(t) != "str" and len(pos) == 1 and rank(t) is not None:
        I.store_sub(recv, [FULL], args[0])
        return NONE
    if name == "sort" and isinstance(recv, Ref) and not isinstance(I.cell(recv), Lst) and not kw:
        I.mutated(recv, "sort")
        c = I.cell(recv)
        I.setcell(recv, Arr(mkcall("np.sort", [t], {}), c.origin))
        return NONE
    if name == "submit":
        f = args[0]
        if isinstance(f, (FuncV, BoundV, PartialV, ClassV)):
            r = I.call(f, list(args[1:]), kwargs, None)
            return I.alloc(Arr(raw("future", (I.term(r),))))
    if name == "result" and t.op == "future":
        return I.box(t.args[0])
    if name == "result" and t.op == "phi":
        return None
    if name == "map" and t.op.startswith("call:") and t.op.endswith("Executor") and len(args) >= 2:
        f = args[0]
        if isinstance(f, (FuncV, BoundV, PartialV)):
            if len(args) == 2:
                return map_over(I, f, args[1])
            z = I.box(sp_zip(I, args[1:], {}))
            import ast
            return None
    if name in ("startswith", "endswith", "lower", "upper", "strip", "split", "join", "replace", "format", "isdigit", "title"):
        if is_str(t) and all(is_str(p) for p in pos) and not kw and name in ("lower", "upper", "strip", "startswith", "endswith", "replace"):
            return const(getattr(t.args[0], name)(*[p.args[0] for p in pos]))
        if name == "lower" and t.op == "call:m.lower":
            return t
        if name == "format" and is_str(t):
            r = formatted(t.args[0], pos, kw)
            if r is not None:
                return r
        if name == "join" and is_str(t):
            if pos[0].op in ("list", "tuple"):
                out = []
                for k, x in enumerate(pos[0].args):
                    out += ([t] if k else []) + [x]
                return mk_scat(out) if out else const("")
            return raw("sjoinlist", (t, keys_view(pos[0])))
        r = raw("call:m." + name, [t] + pos + [kwt(k, kw[k]) for k in sorted(kw)])
        if name in ("lower", "upper", "strip", "replace", "format"):
            r._kind = "str" if kind(t) == "str" or name in ("lower", "upper") else None
        return r
    if name == "get" and t.op not in ("dict",):
        # mapping of unknown concrete type
        k = pos[0]
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        return I.forked(I.known(mk_in(k, raw("keys", (t,)) if kind(t) != "dict" else keys_view(t))), lambda: I.box(mk_ix(t, [k])), lambda: d)
    if name == "items" and not pos:
        v = fresh("#i", kind="int", dims=(), nonneg=True)
        ks = raw("keys", (t,))
        return raw("map", (dim(t, 0), close(v, raw("tuple", (mk_ix(ks, [v]), mk_ix(t, [mk_ix(ks, [v])]))))))
    if name == "keys" and not pos:
        return raw("keys", (t,))
    if name == "values" and not pos:
        v = fresh("#i", kind="int", dims=(), nonneg=True)
        ks = raw("keys", (t,))
        return raw("map", (dim(t, 0), close(v, mk_ix(t, [mk_ix(ks, [v])]))))
    if name == "joinpath" and is_path(t):
        for p in pos:
            t = path_join(t, p)
        return t
    if name == "union" and len(pos) == 1 and False:
        return None
    return None


# ---------------------------------------------------------------- statements

PURE_STMT = {"call:time.sleep", "call:gc.collect"}


def is_pure(t):
    return t.op in PURE_STMT


def stmt_effect(I, node, t):
    return None
